//! Driving real analyzers: every call into the library goes through `lib`, which sets up the
//! caller's floating-point environment, books allocations and offers preemption.

use crate::alloc;
use crate::model::{self, has, Model};
use crate::rng::Digest;
use crate::scen::{Op, K};
use crate::signal::{planes, Buf, Stream};
use ebur128::{Channel, EbuR128, Error, Mode};
use std::arch::asm;
use std::cell::Cell;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        class: class.to_string(),
        msg: msg.into(),
    })
}

// ---------------------------------------------------------------- floating-point environment

pub const CSR_DEFAULT: u32 = 0x1f80;
pub const CSR_CONTROL: u32 = 0xffc0;
pub const FTZ: u32 = 0x8000;
pub const DAZ: u32 = 0x0040;
/// Mask of the overflow exception, which nothing here raises with sane samples.
pub const OM: u32 = 0x0400;

pub fn get_csr() -> u32 {
    let mut v: u32 = 0;
    unsafe { asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
    v
}
pub fn set_csr(v: u32) {
    unsafe { asm!("ldmxcsr [{}]", in(reg) &v, options(nostack, readonly)) };
}

thread_local! {
    static ENV: Cell<u32> = const { Cell::new(CSR_DEFAULT) };
    static ENV_BROKEN: Cell<Option<(u32, u32)>> = const { Cell::new(None) };
}

/// Environment of the caller for the following library calls on this thread.
pub fn set_env(v: u32) {
    ENV.with(|e| e.set(v & CSR_CONTROL));
}

/// Did a call on this thread not restore the environment? (expected, found)
pub fn env_broken() -> Option<(u32, u32)> {
    ENV_BROKEN.with(|e| e.take())
}

struct Leave {
    account: u32,
    expect: u32,
}

impl Drop for Leave {
    fn drop(&mut self) {
        let now = get_csr();
        set_csr(CSR_DEFAULT);
        alloc::set_account(self.account);
        if (now ^ self.expect) & CSR_CONTROL != 0 {
            ENV_BROKEN.with(|e| {
                if e.get().is_none() {
                    e.set(Some((self.expect & CSR_CONTROL, now & CSR_CONTROL)))
                }
            });
        }
    }
}

/// Run library code on an account.
pub fn lib<R>(account: u32, f: impl FnOnce() -> R) -> R {
    crate::sched::op_point();
    let env = ENV.with(|e| e.get());
    let leave = Leave {
        account: alloc::set_account(account),
        expect: env,
    };
    set_csr(env);
    crate::step::resume();
    let r = f();
    crate::step::pause();
    drop(leave);
    crate::sched::op_point();
    r
}

/// Run simulator code (e.g. a user-supplied iterator) from within library code.
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u32, u32);
    impl Drop for Back {
        fn drop(&mut self) {
            set_csr(self.1);
            alloc::set_account(self.0);
        }
    }
    let b = Back(alloc::set_account(0), get_csr());
    set_csr(CSR_DEFAULT);
    let r = f();
    drop(b);
    r
}

// ---------------------------------------------------------------- conversions

pub const CHANNELS: [Channel; 32] = [
    Channel::Unused,
    Channel::Left,
    Channel::Right,
    Channel::Center,
    Channel::LeftSurround,
    Channel::RightSurround,
    Channel::DualMono,
    Channel::MpSC,
    Channel::MmSC,
    Channel::Mp060,
    Channel::Mm060,
    Channel::Mp090,
    Channel::Mm090,
    Channel::Mp135,
    Channel::Mm135,
    Channel::Mp180,
    Channel::Up000,
    Channel::Up030,
    Channel::Um030,
    Channel::Up045,
    Channel::Um045,
    Channel::Up090,
    Channel::Um090,
    Channel::Up110,
    Channel::Um110,
    Channel::Up135,
    Channel::Um135,
    Channel::Up180,
    Channel::Tp000,
    Channel::Bp000,
    Channel::Bp045,
    Channel::Bm045,
];

pub fn channel_no(c: Channel) -> u32 {
    CHANNELS.iter().position(|x| *x == c).unwrap_or(99) as u32
}

pub fn err_code(e: Error) -> u8 {
    match e {
        Error::NoMem => 1,
        Error::InvalidMode => 2,
        Error::InvalidChannelIndex => 3,
    }
}

pub fn err_name(c: u8) -> &'static str {
    match c {
        1 => "NoMem",
        2 => "InvalidMode",
        3 => "InvalidChannelIndex",
        _ => "?",
    }
}

pub type R = Result<f64, u8>;

fn r(v: Result<f64, Error>) -> R {
    v.map_err(err_code)
}

pub fn show(v: &R) -> String {
    match v {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("Err({})", err_name(*e)),
    }
}

// ---------------------------------------------------------------- analyzers

pub struct An {
    pub e: Option<Box<EbuR128>>,
    pub acct: u32,
}

// If the library's type is not Send/Sync that is reported by P08 and not by the compiler.
unsafe impl Send for An {}
unsafe impl Sync for An {}

impl Drop for An {
    fn drop(&mut self) {
        let e = self.e.take();
        lib(self.acct, move || drop(e));
    }
}

impl An {
    pub fn new(acct: u32, ch: u32, rate: u32, mode: u8) -> Result<An, u8> {
        let r = lib(acct, || {
            EbuR128::new(ch, rate, Mode::from_bits_truncate(mode)).map(Box::new)
        });
        match r {
            Ok(e) => Ok(An { e: Some(e), acct }),
            Err(e) => Err(err_code(e)),
        }
    }

    pub fn get(&self) -> &EbuR128 {
        self.e.as_ref().unwrap()
    }

    pub fn call<T>(&mut self, f: impl FnOnce(&mut EbuR128) -> T) -> T {
        let e = self.e.as_mut().unwrap();
        lib(self.acct, move || f(e))
    }

    pub fn ask<T>(&self, f: impl FnOnce(&EbuR128) -> T) -> T {
        let e = self.e.as_ref().unwrap();
        lib(self.acct, move || f(e))
    }

    pub fn add(&mut self, buf: &Buf, layout: i64) -> Result<(), u8> {
        let ch = self.get().channels() as usize;
        let r = if layout & 1 == 0 {
            self.call(|e| match buf {
                Buf::I16(v) => e.add_frames_i16(v),
                Buf::I32(v) => e.add_frames_i32(v),
                Buf::F32(v) => e.add_frames_f32(v),
                Buf::F64(v) => e.add_frames_f64(v),
            })
        } else {
            macro_rules! go {
                ($v:expr, $f:ident) => {{
                    let p = planes($v, ch);
                    let s: Vec<&[_]> = p.iter().map(|p| p.as_slice()).collect();
                    self.call(|e| e.$f(&s))
                }};
            }
            match buf {
                Buf::I16(v) => go!(v, add_frames_planar_i16),
                Buf::I32(v) => go!(v, add_frames_planar_i32),
                Buf::F32(v) => go!(v, add_frames_planar_f32),
                Buf::F64(v) => go!(v, add_frames_planar_f64),
            }
        };
        r.map_err(err_code)
    }

    pub fn seed(&mut self, buf: &Buf, layout: i64) -> Result<(), u8> {
        let ch = self.get().channels() as usize;
        let r = if layout & 1 == 0 {
            self.call(|e| match buf {
                Buf::I16(v) => e.seed_frames_i16(v),
                Buf::I32(v) => e.seed_frames_i32(v),
                Buf::F32(v) => e.seed_frames_f32(v),
                Buf::F64(v) => e.seed_frames_f64(v),
            })
        } else {
            macro_rules! go {
                ($v:expr, $f:ident) => {{
                    let p = planes($v, ch);
                    let s: Vec<&[_]> = p.iter().map(|p| p.as_slice()).collect();
                    self.call(|e| e.$f(&s))
                }};
            }
            match buf {
                Buf::I16(v) => go!(v, seed_frames_planar_i16),
                Buf::I32(v) => go!(v, seed_frames_planar_i32),
                Buf::F32(v) => go!(v, seed_frames_planar_f32),
                Buf::F64(v) => go!(v, seed_frames_planar_f64),
            }
        };
        r.map_err(err_code)
    }

    pub fn set_map(&mut self, map: &[u32]) -> Result<(), u8> {
        let v: Vec<Channel> = map.iter().map(|c| CHANNELS[*c as usize % 32]).collect();
        self.call(|e| e.set_channel_map(&v)).map_err(err_code)
    }

    /// One single query; `which` selects it, the answer is folded into a comparable form.
    pub fn one(&self, which: i64, arg: i64) -> Vec<u64> {
        let enc = |v: R| -> Vec<u64> {
            match v {
                Ok(v) if v.is_nan() => vec![0, f64::NAN.to_bits()],
                Ok(v) => vec![0, v.to_bits()],
                Err(e) => vec![1, e as u64],
            }
        };
        let c = arg as u32;
        match which.rem_euclid(15) {
            0 => enc(r(self.ask(|e| e.loudness_momentary()))),
            1 => enc(r(self.ask(|e| e.loudness_shortterm()))),
            2 => {
                if arg <= 0 {
                    return vec![];
                }
                enc(r(self.ask(|e| e.loudness_window(c))))
            }
            3 => enc(r(self.ask(|e| e.loudness_global()))),
            4 => enc(r(self.ask(|e| e.relative_threshold()))),
            5 => match self.ask(|e| e.gating_block_count_and_energy()) {
                None => vec![2],
                Some((n, v)) => vec![3, n, v.to_bits()],
            },
            6 => enc(r(self.ask(|e| e.loudness_range()))),
            7 => enc(r(self.ask(|e| e.sample_peak(c)))),
            8 => enc(r(self.ask(|e| e.prev_sample_peak(c)))),
            9 => enc(r(self.ask(|e| e.true_peak(c)))),
            10 => enc(r(self.ask(|e| e.prev_true_peak(c)))),
            11 => self.ask(|e| {
                vec![
                    e.mode().bits() as u64,
                    e.channels() as u64,
                    e.rate() as u64,
                    e.max_window() as u64,
                    e.max_history() as u64,
                ]
            }),
            k @ (13 | 14) => {
                // the analyzer combined with itself
                let n = (arg.max(0) * 7 % 41) as usize;
                enc(r(self.ask(|e| {
                    let it = std::iter::repeat(e).take(n);
                    if k == 13 {
                        EbuR128::loudness_global_multiple(it)
                    } else {
                        EbuR128::loudness_range_multiple(it)
                    }
                })))
            }
            _ => {
                let s = self.ask(|e| format!("{e:?}").len());
                vec![s as u64 & 0]
            }
        }
    }

    pub fn observe(&self, wins: &[i64]) -> Obs {
        let n = self.get().channels();
        let per = |f: &dyn Fn(&EbuR128, u32) -> Result<f64, Error>| -> Vec<R> {
            (0..n).map(|c| r(self.ask(|e| f(e, c)))).collect()
        };
        let map: Vec<u32> = self.ask(|e| e.channel_map().iter().map(|c| channel_no(*c)).collect());
        Obs {
            mode: self.ask(|e| e.mode().bits()),
            ch: n,
            rate: self.ask(|e| e.rate()),
            map: map.to_vec(),
            maxwin: self.ask(|e| e.max_window()) as u64,
            maxhist: self.ask(|e| e.max_history()) as u64,
            mom: r(self.ask(|e| e.loudness_momentary())),
            st: r(self.ask(|e| e.loudness_shortterm())),
            win: wins
                .iter()
                .filter(|w| **w > 0)
                .map(|w| {
                    let w = (*w).min(u32::MAX as i64) as u32;
                    (w, r(self.ask(|e| e.loudness_window(w))))
                })
                .collect(),
            global: r(self.ask(|e| e.loudness_global())),
            relthr: r(self.ask(|e| e.relative_threshold())),
            count: self.ask(|e| e.gating_block_count_and_energy()),
            range: r(self.ask(|e| e.loudness_range())),
            sp: per(&|e, c| e.sample_peak(c)),
            psp: per(&|e, c| e.prev_sample_peak(c)),
            tp: per(&|e, c| e.true_peak(c)),
            ptp: per(&|e, c| e.prev_true_peak(c)),
        }
    }
}

// ---------------------------------------------------------------- observations

/// Everything a user can see of an analyzer.
#[derive(Clone, Debug)]
pub struct Obs {
    pub mode: u8,
    pub ch: u32,
    pub rate: u32,
    pub map: Vec<u32>,
    pub maxwin: u64,
    pub maxhist: u64,
    pub mom: R,
    pub st: R,
    pub win: Vec<(u32, R)>,
    pub global: R,
    pub relthr: R,
    pub count: Option<(u64, f64)>,
    pub range: R,
    pub sp: Vec<R>,
    pub psp: Vec<R>,
    pub tp: Vec<R>,
    pub ptp: Vec<R>,
}

pub const WIN: u32 = 1;
pub const INT: u32 = 2;
pub const RNG: u32 = 4;
pub const PEAK: u32 = 8;
pub const PREV: u32 = 16;
pub const CONF: u32 = 32;
pub const ALL: u32 = 63;

/// How far apart two observations may be.
#[derive(Clone, Copy)]
pub struct Tol {
    /// in LU, 0: identical
    pub lu: f64,
    /// energies below this are silence
    pub floor: f64,
    /// of true peaks, relative to the largest sample
    pub tp: f64,
    pub tp_abs: f64,
    /// of sample peaks, relative
    pub sp: f64,
}

pub const EXACT: Tol = Tol {
    lu: 0.0,
    floor: 0.0,
    tp: 0.0,
    tp_abs: 0.0,
    sp: 0.0,
};

pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn to_energy(l: f64) -> f64 {
    10f64.powf((l + 0.691) / 10.0)
}

/// Are two loudness values equal within the tolerance?
pub fn close_lu(a: f64, b: f64, lu: f64, floor: f64) -> bool {
    if same(a, b) {
        return true;
    }
    if a.is_nan() || b.is_nan() {
        return false;
    }
    if a.is_finite() && b.is_finite() && (a - b).abs() <= lu {
        return true;
    }
    let (ea, eb) = (to_energy(a), to_energy(b));
    (ea - eb).abs() <= floor
}

pub fn close_abs(a: f64, b: f64, tol: f64) -> bool {
    same(a, b) || (a - b).abs() <= tol
}

fn cmp_r(what: &str, a: &R, b: &R, f: impl Fn(f64, f64) -> bool) -> Result<(), Viol> {
    let ok = match (a, b) {
        (Ok(a), Ok(b)) => f(*a, *b),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        viol(what, format!("{what}: {} but expected {}", show(a), show(b)))
    }
}

/// Compare two observations of the real code.
pub fn compare(a: &Obs, b: &Obs, cats: u32, t: Tol, scale: &[f64]) -> Result<(), Viol> {
    if cats & CONF != 0 {
        let ca = (a.mode, a.ch, a.rate, &a.map, a.maxwin, a.maxhist);
        let cb = (b.mode, b.ch, b.rate, &b.map, b.maxwin, b.maxhist);
        if ca != cb {
            return viol("config", format!("configuration {ca:?} but expected {cb:?}"));
        }
    }
    let lu = |x: f64, y: f64| close_lu(x, y, t.lu, t.floor);
    if cats & WIN != 0 {
        cmp_r("momentary", &a.mom, &b.mom, lu)?;
        cmp_r("shortterm", &a.st, &b.st, lu)?;
        for (x, y) in a.win.iter().zip(b.win.iter()) {
            cmp_r(&format!("window({}ms)", x.0), &x.1, &y.1, lu)?;
        }
    }
    if cats & INT != 0 {
        cmp_r("global", &a.global, &b.global, lu)?;
        cmp_r("relative_threshold", &a.relthr, &b.relthr, lu)?;
        let ok = match (a.count, b.count) {
            (None, None) => true,
            (Some(x), Some(y)) => x.0 == y.0 && close_rel(x.1, y.1, t.lu * 0.5),
            _ => false,
        };
        if !ok {
            return viol(
                "gating_count",
                format!("gating blocks {:?} but expected {:?}", a.count, b.count),
            );
        }
    }
    if cats & RNG != 0 {
        cmp_r("range", &a.range, &b.range, |x, y| {
            close_abs(x, y, 2.0 * t.lu)
        })?;
    }
    let sc = |c: usize| scale.get(c).copied().unwrap_or(0.0);
    if cats & PEAK != 0 {
        for c in 0..a.sp.len().min(b.sp.len()) {
            cmp_r(&format!("sample_peak[{c}]"), &a.sp[c], &b.sp[c], |x, y| {
                close_rel(x, y, t.sp)
            })?;
            cmp_r(&format!("true_peak[{c}]"), &a.tp[c], &b.tp[c], |x, y| {
                close_abs(x, y, t.tp * sc(c) + t.tp_abs)
            })?;
        }
    }
    if cats & PREV != 0 {
        for c in 0..a.psp.len().min(b.psp.len()) {
            cmp_r(
                &format!("prev_sample_peak[{c}]"),
                &a.psp[c],
                &b.psp[c],
                |x, y| close_rel(x, y, t.sp),
            )?;
            cmp_r(
                &format!("prev_true_peak[{c}]"),
                &a.ptp[c],
                &b.ptp[c],
                |x, y| close_abs(x, y, t.tp * sc(c) + t.tp_abs),
            )?;
        }
    }
    Ok(())
}

pub fn close_rel(a: f64, b: f64, rel: f64) -> bool {
    same(a, b) || (a - b).abs() <= rel * a.abs().max(b.abs()) + if rel > 0.0 { 1e-300 } else { 0.0 }
}

impl Obs {
    pub fn digest(&self, d: &mut Digest) {
        let mut f = |v: &R| match v {
            Ok(v) if v.is_nan() => d.add(1),
            Ok(v) => d.add_f(*v),
            Err(e) => d.add(*e as u64 + 10),
        };
        f(&self.mom);
        f(&self.st);
        for w in &self.win {
            f(&w.1);
        }
        f(&self.global);
        f(&self.relthr);
        f(&self.range);
        for v in [&self.sp, &self.psp, &self.tp, &self.ptp] {
            for v in v {
                f(v);
            }
        }
        d.add(self.count.map_or(0, |c| c.0));
        d.add(self.maxwin);
        d.add(self.maxhist);
    }
}

/// Compare an observation with the reference model. Counts skipped comparisons in `skips`.
pub fn check_model(o: &Obs, m: &Model, cats: u32, skips: &mut u64) -> Result<(), Viol> {
    let tol = m.tol;
    if cats & CONF != 0 {
        let ca = (o.mode, o.ch, o.rate, &o.map, o.maxwin, o.maxhist);
        let cb = (m.mode, m.ch, m.rate, &m.map, m.window, m.history);
        if ca != cb {
            return viol("config", format!("configuration {ca:?} but expected {cb:?}"));
        }
    }
    if cats & WIN != 0 {
        let floor = m.floor();
        let cap = m.ring();
        let want = |what: String, got: &R, frames: u64, must: Option<bool>| -> Result<(), Viol> {
            match got {
                Err(e) => {
                    if must == Some(true) {
                        return viol(
                            "window-error",
                            format!("{what}: Err({}) but must be answered", err_name(*e)),
                        );
                    }
                    if *e != 2 {
                        return viol(
                            "window-error",
                            format!("{what}: Err({}) but expected InvalidMode", err_name(*e)),
                        );
                    }
                    Ok(())
                }
                Ok(v) => {
                    if must == Some(false) {
                        return viol(
                            "window-error",
                            format!("{what}: {v} but must be refused"),
                        );
                    }
                    if frames > cap || frames == 0 {
                        return Ok(());
                    }
                    let e = m.power(frames);
                    let l = if e <= 0.0 {
                        f64::NEG_INFINITY
                    } else {
                        model::loudness(e)
                    };
                    if close_lu(*v, l, m.tol_window(e), floor) {
                        Ok(())
                    } else {
                        viol(
                            what.split('(').next().unwrap_or(""),
                            format!("{what}: {v} but the model says {l}"),
                        )
                    }
                }
            }
        };
        want("momentary".into(), &o.mom, m.s100 * 4, Some(true))?;
        let must = if has(m.mode, model::S) || m.window >= 3000 {
            Some(true)
        } else if m.window < 2700 && m.ring() < m.s100 * 30 {
            Some(false)
        } else {
            None
        };
        want("shortterm".into(), &o.st, m.s100 * 30, must)?;
        for (w, v) in &o.win {
            let frames = m.rate as u64 * *w as u64 / 1000;
            let must = if *w as u64 <= m.window {
                Some(true)
            } else if *w as u64 >= 2 * m.window + 200 && frames > m.ring() + m.s100 {
                Some(false)
            } else {
                None
            };
            want(format!("window({w}ms)"), v, frames, must)?;
        }
    }
    if cats & INT != 0 {
        if !has(m.mode, model::I) {
            for (what, v) in [("global", &o.global), ("relative_threshold", &o.relthr)] {
                if *v != Err(2) {
                    return viol(what, format!("{what}: {} without Mode::I", show(v)));
                }
            }
            if o.count.is_some() {
                return viol("gating_count", "gating blocks without Mode::I");
            }
        } else if m.marg_blocks {
            *skips += 1;
        } else {
            let s = m.stored_blocks();
            let g = model::gate(&[&s], m.eps());
            let floor = 0.0;
            match o.relthr {
                Ok(v) if close_lu(v, g.relthr, tol, floor) => (),
                _ => {
                    return viol(
                        "relative_threshold",
                        format!(
                            "relative threshold {} but the model says {} ({} blocks stored)",
                            show(&o.relthr),
                            g.relthr,
                            s.iter().map(|x| x.1).sum::<u64>()
                        ),
                    )
                }
            }
            match g.global {
                None => *skips += 1,
                Some(l) => {
                    match o.global {
                        Ok(v) if close_lu(v, l, tol, floor) => (),
                        _ => {
                            return viol(
                                "global",
                                format!(
                                    "integrated loudness {} but the model says {} ({} blocks stored)",
                                    show(&o.global),
                                    l,
                                    s.iter().map(|x| x.1).sum::<u64>()
                                ),
                            )
                        }
                    }
                    let (n, e) = g.count.unwrap();
                    let ok = match o.count {
                        None => n == 0,
                        Some((gn, ge)) => gn == n && close_rel(ge, e, tol),
                    };
                    if !ok {
                        return viol(
                            "gating_count",
                            format!(
                                "gating blocks {:?} but the model says {:?}",
                                o.count,
                                (n, e)
                            ),
                        );
                    }
                }
            }
        }
    }
    if cats & RNG != 0 {
        if !has(m.mode, model::LRA) {
            if o.range != Err(2) {
                return viol("range", format!("range: {} without Mode::LRA", show(&o.range)));
            }
        } else if m.marg_st {
            *skips += 1;
        } else {
            match model::range(&[&m.stored_st()], m.eps()) {
                None => *skips += 1,
                Some(want) => {
                    let ok = match o.range {
                        Ok(v) => close_abs(v, want, 2.0 * tol),
                        Err(_) => false,
                    };
                    if !ok {
                        return viol(
                            "range",
                            format!(
                                "loudness range {} but the model says {} ({} values stored)",
                                show(&o.range),
                                want,
                                m.stored_st().iter().map(|x| x.1).sum::<u64>()
                            ),
                        );
                    }
                }
            }
        }
    }
    let peaks = |what: &str, v: &R, m_on: bool, want: f64, tol: f64, alt: Option<f64>| {
        if !m_on {
            if *v != Err(2) {
                return viol(what, format!("{what}: {} without its mode", show(v)));
            }
            return Ok(());
        }
        match v {
            Ok(x) if close_abs(*x, want, tol) => Ok(()),
            Ok(x) if alt.is_some() && close_abs(*x, alt.unwrap(), tol) => Ok(()),
            _ => viol(
                what,
                format!("{what}: {} but the model says {want}", show(v)),
            ),
        }
    };
    let (sp_on, tp_on) = (has(m.mode, model::SP), has(m.mode, model::TP));
    for c in 0..m.ch as usize {
        let t = 3e-5 * m.maxabs[c] + 1e-35;
        if cats & PEAK != 0 {
            if o.sp.len() != m.ch as usize {
                return viol("sample_peak", "wrong number of channels");
            }
            peaks("sample_peak", &o.sp[c], sp_on, m.sp[c], 1e-12 * m.sp[c] + 1e-300, None)
                .map_err(|v| on(v, c))?;
            let w = m.sp[c].max(m.tp[c]);
            peaks("true_peak", &o.tp[c], tp_on, w, t, None).map_err(|v| on(v, c))?;
        }
        if cats & PREV != 0 {
            let alt = if m.last_empty { Some(0.0) } else { None };
            peaks("prev_sample_peak", &o.psp[c], sp_on, m.psp[c], 1e-12 * m.psp[c] + 1e-300, alt)
                .map_err(|v| on(v, c))?;
            let w = m.psp[c].max(m.ptp[c]);
            peaks("prev_true_peak", &o.ptp[c], tp_on, w, t, alt).map_err(|v| on(v, c))?;
        }
    }
    Ok(())
}

fn on(mut v: Viol, c: usize) -> Viol {
    v.msg = format!("channel {c}: {}", v.msg);
    v
}

// ---------------------------------------------------------------- an analyzer with its model

pub const MAX_RING_BYTES: u64 = 48 << 20;

pub struct Pair<'a> {
    pub an: An,
    pub m: Model,
    pub stream: Stream<'a>,
    /// keep the model up to date (otherwise only its configuration)
    pub modelled: bool,
    pub sim_ms: f64,
    pub frames: u64,
}

/// Channel map number `variant` for the channel count.
pub fn map_variant(variant: i64, ch: u32) -> Vec<u32> {
    let v = variant as u64;
    if v % 8 == 0 {
        return model::default_map(ch);
    }
    (0..ch)
        .map(|c| {
            let h = crate::rng::mix2(v, c as u64);
            let mut t = (h % 32) as u32;
            if h >> 40 & 3 == 0 {
                t = 0;
            }
            if t == model::DUAL_MONO && ch != 1 {
                t = 1;
            }
            t
        })
        .collect()
}

impl<'a> Pair<'a> {
    pub fn new(
        acct: u32,
        ch: u32,
        rate: u32,
        mode: u8,
        stream: Stream<'a>,
        modelled: bool,
    ) -> Result<Pair<'a>, Viol> {
        let an = match An::new(acct, ch, rate, mode) {
            Ok(a) => a,
            Err(e) => {
                return viol(
                    "spurious-error",
                    format!("new({ch}, {rate}, {mode:#x}) failed with {}", err_name(e)),
                )
            }
        };
        Ok(Pair {
            an,
            m: Model::new(ch, rate, mode),
            stream,
            modelled,
            sim_ms: 0.0,
            frames: 0,
        })
    }

    pub fn ok(&self, what: &str, r: Result<(), u8>) -> Result<(), Viol> {
        match r {
            Ok(()) => Ok(()),
            Err(e) => viol(
                "spurious-error",
                format!(
                    "{what} failed with {} ({} channels, {} Hz, mode {:#x})",
                    err_name(e),
                    self.m.ch,
                    self.m.rate,
                    self.m.mode
                ),
            ),
        }
    }

    pub fn feed(&mut self, data: &[f64], fmt: i64, layout: i64) -> Result<(), Viol> {
        let (buf, exact) = Buf::new(fmt, data);
        let r = self.an.add(&buf, layout);
        self.ok("add_frames", r)?;
        let n = (data.len() / self.m.ch as usize) as u64;
        self.frames += n;
        self.sim_ms += n as f64 * 1000.0 / self.m.rate as f64;
        if self.modelled {
            self.m.add(&exact);
        }
        Ok(())
    }

    pub fn feed_seed(&mut self, data: &[f64], fmt: i64, layout: i64) -> Result<(), Viol> {
        let (buf, exact) = Buf::new(fmt, data);
        let r = self.an.seed(&buf, layout);
        self.ok("seed_frames", r)?;
        self.frames += (data.len() / self.m.ch as usize) as u64;
        if self.modelled {
            self.m.seed(&exact);
        }
        Ok(())
    }

    /// Apply a state-changing operation; false if the operation is none or does not apply.
    pub fn step(&mut self, op: &Op) -> Result<bool, Viol> {
        match op.k {
            K::Add => {
                let d = self.stream.take(op.arg(0).clamp(0, 4_000_000), self.m.ch);
                self.feed(&d, op.arg(1), op.arg(2))?;
            }
            K::Soak => {
                for _ in 0..op.arg(0).clamp(0, 200_000) {
                    let d = self.stream.take(self.m.s100 as i64, self.m.ch);
                    self.feed(&d, op.arg(1), op.arg(2))?;
                }
            }
            K::Seed => {
                let d = self.stream.take(op.arg(0).clamp(0, 4_000_000), self.m.ch);
                self.feed_seed(&d, op.arg(1), op.arg(2))?;
            }
            K::Reset => {
                self.an.call(|e| e.reset());
                self.m.reset();
            }
            K::SetMap => {
                let map = map_variant(op.arg(0), self.m.ch);
                if self.modelled && !self.m.map_ok(&map) {
                    return Ok(false);
                }
                let r = self.an.set_map(&map);
                self.ok("set_channel_map", r)?;
                self.m.set_map(&map);
            }
            K::SetCh => {
                let i = op.arg(0).rem_euclid(self.m.ch as i64) as usize;
                let mut t = op.arg(1).rem_euclid(32) as u32;
                if t == model::DUAL_MONO && self.m.ch != 1 {
                    t = 2;
                }
                let mut map = self.m.map.clone();
                map[i] = t;
                if self.modelled && !self.m.map_ok(&map) {
                    return Ok(false);
                }
                let r = self
                    .an
                    .call(|e| e.set_channel(i as u32, CHANNELS[t as usize]))
                    .map_err(err_code);
                self.ok("set_channel", r)?;
                self.m.set_map(&map);
            }
            K::ChParams => {
                let ch = op.arg(0).clamp(1, 64) as u32;
                let rate = op.arg(1).clamp(16, 2_822_400) as u32;
                if model::ring_frames(rate, self.m.window) * ch as u64 * 8 > MAX_RING_BYTES {
                    return Ok(false);
                }
                let r = self
                    .an
                    .call(|e| e.change_parameters(ch, rate))
                    .map_err(err_code);
                self.ok("change_parameters", r)?;
                self.m.change_parameters(ch, rate);
            }
            K::MaxWin => {
                let w = op.arg(0).clamp(0, u32::MAX as i64) as u32;
                let eff = self.m.clamp_window(w as u64);
                if model::ring_frames(self.m.rate, eff) * self.m.ch as u64 * 8 > MAX_RING_BYTES {
                    return Ok(false);
                }
                let r = self.an.call(|e| e.set_max_window(w)).map_err(err_code);
                self.ok("set_max_window", r)?;
                self.m.set_max_window(w as u64);
            }
            K::MaxHist => {
                let w = op.arg(0).clamp(0, u32::MAX as i64) as u32;
                let r = self.an.call(|e| e.set_max_history(w)).map_err(err_code);
                self.ok("set_max_history", r)?;
                self.m.set_max_history(w as u64);
            }
            K::Env => {
                set_env(op.arg(0) as u32 | CSR_DEFAULT);
            }
            _ => return Ok(false),
        }
        Ok(true)
    }
}
