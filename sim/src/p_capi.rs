//! P16: histories of C calls, against a twin driven through the Rust API.

use crate::alloc;
use crate::ctx::{Ctx, Res};
use crate::gen::{self, Prof};
use crate::inst::*;
use crate::model;
use crate::p_hist::{at, count_op, stream};
use crate::p_twin::{leaked, sprinkle};
use crate::rng::Rng;
use crate::scen::{Op, Scen, K};
use crate::signal::Buf;
use ebur128::capi::*;
use ebur128::EbuR128;
use std::os::raw::c_ulong;

/// The public part of `ebur128_state`.
#[repr(C)]
struct Public {
    mode: i32,
    channels: u32,
    samplerate: c_ulong,
}

const SENTINEL: u64 = 0x7ff8_dead_beef_0001;

struct CPair<'a> {
    st: *mut State,
    acct: u32,
    /// the Rust twin with its configuration
    r: Pair<'a>,
}

impl Drop for CPair<'_> {
    fn drop(&mut self) {
        let mut st = self.st;
        if !st.is_null() {
            lib(self.acct, || unsafe { ebur128_destroy(&mut st) });
        }
    }
}

fn want_code(what: &str, got: i32, want: i32) -> Res {
    if got == want {
        return Ok(());
    }
    viol("code", format!("{what} returned {got} but expected {want}"))
}

fn code(r: Result<(), u8>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(e) => e as i32,
    }
}

pub fn gen_p16(r: &mut Rng, s: &mut Scen) {
    let must = r.pick(&[0, model::I, model::TP, model::SP, model::I | model::LRA, model::TP | model::I | model::LRA]);
    let rate = gen::any_rate(r);
    let ch = gen::channels(r);
    let c = gen::config(r, s, must, rate, ch);
    s.set("extra", if r.chance(1, 4) { r.range(0, 1 << 20) << 6 } else { 0 });
    let frames = gen::budget(r, &c) * if s.get("big") != 0 { 3 } else { 1 } / 2;
    gen::segments(r, s, frames, c.s100, true);
    let prof = Prof {
        query: 16,
        reset: 0,
        seed: 0,
        map: 8,
        chparams: 6,
        maxwin: 8,
        maxhist: 6,
        rates: true,
    };
    gen::history(r, s, 0, &c, frames, &prof);
    if r.chance(1, 2) {
        s.set("two", 1);
        for op in s.ops.iter_mut() {
            if r.chance(1, 3) {
                op.t = 1;
            }
        }
    }
    let n = r.range(4, 50);
    let s100 = c.s100;
    sprinkle(r, s, n, |r| call_op(r, s100));
    if r.chance(1, 3) {
        // memory runs out now and then
        let n = r.range(1, 4);
        sprinkle(r, s, n, |r| {
            let which = r.range(0, 2);
            let (x, y) = if which == 1 {
                (r.range(400, 900_000), 0)
            } else {
                (gen::channels(r) as i64, r.pick(&[44_100, 48_000, 96_000, 192_000, 8000]))
            };
            Op::new(K::Fail, 0, &[which, x, y])
        });
    }
}

fn odd(r: &mut Rng) -> i64 {
    let e = r.pick(&[0i64, 1, 16, 64, 65, 400, 3000, 48_000, 2_822_400, 1 << 31, 1 << 32, 3 << 32, 1 << 52, i64::MAX, -1, i64::MIN, -(1 << 32)]);
    match r.below(4) {
        0 => e,
        1 => e.wrapping_add(r.range(-3, 3)),
        2 => r.next() as i64,
        _ => e.wrapping_add(r.range(-1, 6000)),
    }
}

fn call_op(r: &mut Rng, s100: i64) -> Op {
    let which = r.range(0, 12);
    let a = match which {
        0 => [which, if r.chance(2, 3) { r.range(0, 8) } else { odd(r) }, if r.chance(1, 2) { r.range(-3, 34) } else { odd(r) }],
        5 => [which, odd(r), r.range(0, 3)],
        7 => [which, r.range(0, 3), if r.chance(1, 2) { r.range(0, 66) } else { odd(r) }],
        8 => [which, r.range(0, 1), r.below(1 << 20) as i64],
        9 => [which, odd(r), odd(r)],
        6 => [which, if r.chance(1, 2) { r.range(1, 9000) } else { odd(r) }, 0],
        4 => [which, r.range(0, 3), r.range(0, 1)],
        _ => [which, odd(r), if r.chance(1, 2) { r.range(1, 40) * s100 * 10 } else { odd(r) }],
    };
    Op::new(K::Call, if r.chance(1, 3) { 1 } else { 0 }, &a)
}

fn open<'a>(s: &'a Scen, acct: u32) -> Result<CPair<'a>, Viol> {
    let (ch, rate, mode) = (s.get("ch") as u32, s.get("rate") as u32, s.get("mode") as u8);
    // bits without a meaning change nothing
    let full = mode as i32 | (s.get("extra") as i32 & !0x7f);
    let st = lib(acct, || unsafe { ebur128_init(ch, rate as c_ulong, full) });
    if st.is_null() {
        return viol("init", format!("ebur128_init({ch}, {rate}, {full:#x}) failed"));
    }
    let c = CPair {
        st,
        acct,
        r: Pair::new(acct + 10, ch, rate, mode, stream(s), false)?,
    };
    public(&c, full)?;
    Ok(c)
}

fn public(c: &CPair, full: i32) -> Res {
    let p = unsafe { &*(c.st as *const Public) };
    let m = &c.r.m;
    let got = (p.mode, p.channels, p.samplerate as u64);
    let want = (full, m.ch, m.rate as u64);
    // unknown mode bits may or may not be kept
    if (got.0 & 0x7f, got.1, got.2) != (want.0 & 0x7f, want.1, want.2) {
        return viol("public-state", format!("public state {got:?} but expected {want:?}"));
    }
    Ok(())
}

impl CPair<'_> {
    fn c<T>(&self, f: impl FnOnce(*mut State) -> T) -> T {
        let st = self.st;
        lib(self.acct, move || f(st))
    }

    /// A query with one output.
    fn ask(&self, what: &str, want: R, f: impl FnOnce(*mut State, *mut f64) -> i32) -> Res {
        let mut out = f64::from_bits(SENTINEL);
        let p = &mut out as *mut f64;
        let code = self.c(|st| f(st, p));
        output(what, code, out, want)
    }

    fn feed(&mut self, data: &[f64], fmt: i64) -> Res {
        let (buf, _) = Buf::new(fmt, data);
        let n = data.len() / self.r.m.ch as usize;
        let got = self.c(|st| unsafe {
            match &buf {
                Buf::I16(v) => ebur128_add_frames_short(st, v.as_ptr(), n),
                Buf::I32(v) => ebur128_add_frames_int(st, v.as_ptr(), n),
                Buf::F32(v) => ebur128_add_frames_float(st, v.as_ptr(), n),
                Buf::F64(v) => ebur128_add_frames_double(st, v.as_ptr(), n),
            }
        });
        want_code("ebur128_add_frames", got, 0)?;
        self.r.feed(data, fmt, 0)
    }

    fn set_channel(&mut self, i: u32, v: i32) -> Res {
        let got = self.c(|st| unsafe { ebur128_set_channel(st, i, v) });
        let want = if (0..32).contains(&v) {
            let t = CHANNELS[v as usize];
            code(self.r.an.call(|e| e.set_channel(i, t)).map_err(err_code))
        } else {
            3
        };
        want_code(&format!("ebur128_set_channel({i}, {v})"), got, want)
    }

    fn params(&mut self, ch: u32, rate: u64, fail_from: usize) -> Res {
        let m = &self.r.m;
        if (1..=64).contains(&ch) && (16..=2_822_400).contains(&rate) {
            let bytes = model::ring_frames(rate as u32, m.window) * ch as u64 * 8;
            if bytes > MAX_RING_BYTES && bytes < alloc::MEMORY as u64 * 5 / 4 {
                return Ok(());
            }
        }
        alloc::set_failure(fail_from, 0);
        let got = self.c(|st| unsafe { ebur128_change_parameters(st, ch, rate as c_ulong) });
        alloc::clear_failure();
        let what = format!("ebur128_change_parameters({ch}, {rate})");
        if ch == m.ch && rate == m.rate as u64 {
            return want_code(&what, got, 4);
        }
        if rate > u32::MAX as u64 {
            return want_code(&what, got, 1);
        }
        alloc::set_failure(fail_from, 0);
        let want = self.r.an.call(|e| e.change_parameters(ch, rate as u32)).map_err(err_code);
        alloc::clear_failure();
        if want.is_ok() {
            self.r.m.change_parameters(ch, rate as u32);
        }
        want_code(&what, got, code(want))
    }

    fn window(&mut self, w: u64, fail_from: usize) -> Res {
        let m = &self.r.m;
        if w <= u32::MAX as u64 {
            let bytes = model::ring_frames(m.rate, m.clamp_window(w)) * m.ch as u64 * 8;
            if bytes > MAX_RING_BYTES && bytes < alloc::MEMORY as u64 * 5 / 4 {
                return Ok(());
            }
        }
        alloc::set_failure(fail_from, 0);
        let got = self.c(|st| unsafe { ebur128_set_max_window(st, w as c_ulong) });
        alloc::clear_failure();
        let what = format!("ebur128_set_max_window({w})");
        if w > u32::MAX as u64 {
            return want_code(&what, got, 1);
        }
        let before = self.r.an.get().max_window();
        alloc::set_failure(fail_from, 0);
        let r = self.r.an.call(|e| e.set_max_window(w as u32)).map_err(err_code);
        alloc::clear_failure();
        let want = match r {
            Err(e) => e as i32,
            Ok(()) if self.r.an.get().max_window() == before => 4,
            Ok(()) => 0,
        };
        if r.is_ok() {
            self.r.m.set_max_window(w);
        }
        want_code(&what, got, want)
    }

    fn history(&mut self, h: u64) -> Res {
        let got = self.c(|st| unsafe { ebur128_set_max_history(st, h as c_ulong) });
        let what = format!("ebur128_set_max_history({h})");
        let before = self.r.an.get().max_history() as u64;
        if h == before {
            return want_code(&what, got, 4);
        }
        if h > u32::MAX as u64 {
            return want_code(&what, got, 1);
        }
        let r = self.r.an.call(|e| e.set_max_history(h as u32)).map_err(err_code);
        let want = match r {
            Err(e) => e as i32,
            Ok(()) if self.r.an.get().max_history() as u64 == before => 4,
            Ok(()) => 0,
        };
        if r.is_ok() {
            self.r.m.set_max_history(h);
        }
        want_code(&what, got, want)
    }

    fn peak(&self, which: i64, c: u32) -> Res {
        let e = self.r.an.get();
        let (what, want) = match which.rem_euclid(4) {
            0 => ("ebur128_sample_peak", e.sample_peak(c)),
            1 => ("ebur128_prev_sample_peak", e.prev_sample_peak(c)),
            2 => ("ebur128_true_peak", e.true_peak(c)),
            _ => ("ebur128_prev_true_peak", e.prev_true_peak(c)),
        };
        let want = want.map_err(err_code);
        self.ask(&format!("{what}({c})"), want, |st, o| unsafe {
            match which.rem_euclid(4) {
                0 => ebur128_sample_peak(st, c, o),
                1 => ebur128_prev_sample_peak(st, c, o),
                2 => ebur128_true_peak(st, c, o),
                _ => ebur128_prev_true_peak(st, c, o),
            }
        })
    }

    fn ask_window(&self, w: u64) -> Res {
        let what = format!("ebur128_loudness_window({w})");
        let want = if w > u32::MAX as u64 {
            Err(1)
        } else {
            self.r.an.ask(|e| e.loudness_window(w as u32)).map_err(err_code)
        };
        self.ask(&what, want, |st, o| unsafe { ebur128_loudness_window(st, w as c_ulong, o) })
    }

    fn all(&self, wins: &[i64], ctx: &mut Ctx) -> Res {
        let o = self.r.an.observe(&[]);
        ctx.see(&o);
        self.ask("ebur128_loudness_momentary", o.mom, |s, p| unsafe { ebur128_loudness_momentary(s, p) })?;
        self.ask("ebur128_loudness_shortterm", o.st, |s, p| unsafe { ebur128_loudness_shortterm(s, p) })?;
        self.ask("ebur128_loudness_global", o.global, |s, p| unsafe { ebur128_loudness_global(s, p) })?;
        self.ask("ebur128_relative_threshold", o.relthr, |s, p| unsafe { ebur128_relative_threshold(s, p) })?;
        self.ask("ebur128_loudness_range", o.range, |s, p| unsafe { ebur128_loudness_range(s, p) })?;
        for w in wins {
            if *w > 0 {
                self.ask_window(*w as u64)?;
            }
        }
        for c in 0..self.r.m.ch {
            for k in 0..4 {
                self.peak(k, c)?;
            }
        }
        ctx.checks += 5 + wins.len() as u64 + 4 * self.r.m.ch as u64;
        Ok(())
    }
}

fn output(what: &str, code: i32, out: f64, want: R) -> Res {
    match want {
        Ok(v) => {
            want_code(what, code, 0)?;
            if !same(out, v) || out.to_bits() == SENTINEL {
                return viol("value", format!("{what} gave {out:?} but the Rust API gives {v:?}"));
            }
        }
        Err(e) => {
            want_code(what, code, e as i32)?;
            if out.to_bits() != SENTINEL {
                return viol("output-written", format!("{what} failed with {code} but wrote {out:?}"));
            }
        }
    }
    Ok(())
}

fn multiple(set: &[&CPair], range: bool) -> Res {
    let mut handles: Vec<*mut State> = set.iter().map(|c| c.st).collect();
    let p = if handles.is_empty() { std::ptr::null_mut() } else { handles.as_mut_ptr() };
    let n = handles.len();
    let mut out = f64::from_bits(SENTINEL);
    let o = &mut out as *mut f64;
    let code = lib(7, || unsafe {
        if range {
            ebur128_loudness_range_multiple(p, n, o)
        } else {
            ebur128_loudness_global_multiple(p, n, o)
        }
    });
    let es: Vec<&EbuR128> = set.iter().map(|c| c.r.an.get()).collect();
    let want = lib(8, || {
        if range {
            EbuR128::loudness_range_multiple(es.iter().copied())
        } else {
            EbuR128::loudness_global_multiple(es.iter().copied())
        }
    });
    let what = format!("ebur128_loudness_{}_multiple of {n}", if range { "range" } else { "global" });
    output(&what, code, out, want.map_err(err_code))
}

/// ebur128_init with odd arguments, against EbuR128::new.
fn init(ch: u32, rate: u64, mode: i32, fail_from: usize) -> Res {
    if (1..=64).contains(&ch) && (16..=2_822_400).contains(&rate) {
        let bytes = model::ring_frames(rate as u32, 3000) * ch as u64 * 8;
        if bytes > MAX_RING_BYTES {
            return Ok(());
        }
    }
    alloc::set_failure(fail_from, 0);
    let mut st = lib(9, || unsafe { ebur128_init(ch, rate as c_ulong, mode) });
    alloc::clear_failure();
    let want = if rate > u32::MAX as u64 {
        false
    } else {
        alloc::set_failure(fail_from, 0);
        let r = An::new(6, ch, rate as u32, mode as u8);
        alloc::clear_failure();
        r.is_ok()
    };
    let got = !st.is_null();
    let mut res = Ok(());
    if got {
        let p = unsafe { &*(st as *const Public) };
        if p.channels != ch || p.samplerate as u64 != rate {
            res = viol("public-state", format!("ebur128_init({ch}, {rate}) reports {} and {}", p.channels, p.samplerate));
        }
        lib(9, || unsafe { ebur128_destroy(&mut st) });
        if !st.is_null() {
            res = viol("destroy", "ebur128_destroy did not clear the handle");
        }
    }
    res?;
    if got != want {
        return viol("init", format!("ebur128_init({ch}, {rate}, {mode:#x}): handle {got}, but expected {want}"));
    }
    if alloc::live(9) != (0, 0) {
        return viol("leak", format!("{:?} bytes and allocations left after init and destroy", alloc::live(9)));
    }
    Ok(())
}

fn call(cs: &mut [CPair], k: usize, op: &Op, ctx: &mut Ctx) -> Res {
    let (x, y) = (op.arg(1), op.arg(2));
    ctx.count(
        "extreme_calls",
        1,
    );
    ctx.checks += 1;
    match op.arg(0) {
        0 => cs[k].set_channel(x as u32, y as i32),
        1 => cs[k].params(x as u32, y as u64, usize::MAX),
        2 => cs[k].window(x as u64, usize::MAX),
        3 => cs[k].history(x as u64),
        4 => {
            // no frames
            let null = y == 0;
            let c = &cs[k];
            macro_rules! p {
                ($t:ty) => {
                    if null { std::ptr::null() } else { [0 as $t; 1].as_ptr() }
                };
            }
            let got = c.c(|st| unsafe {
                match x.rem_euclid(4) {
                    0 => ebur128_add_frames_short(st, p!(i16), 0),
                    1 => ebur128_add_frames_int(st, p!(i32), 0),
                    2 => ebur128_add_frames_float(st, p!(f32), 0),
                    _ => ebur128_add_frames_double(st, p!(f64), 0),
                }
            });
            want_code("ebur128_add_frames of nothing", got, 0)?;
            let buf = Buf::new(x, &[]).0;
            let r = cs[k].r.an.add(&buf, 0);
            cs[k].r.ok("add_frames", r)
        }
        5 => {
            // more samples than there are addresses
            let ch = cs[k].r.m.ch as u64;
            if ch < 2 {
                return Ok(());
            }
            let least = u64::MAX / ch + 1;
            let n = (x as u64).max(least) as usize;
            let d = [0u64; 64];
            let got = cs[k].c(|st| unsafe {
                match y.rem_euclid(4) {
                    0 => ebur128_add_frames_short(st, d.as_ptr() as *const _, n),
                    1 => ebur128_add_frames_int(st, d.as_ptr() as *const _, n),
                    2 => ebur128_add_frames_float(st, d.as_ptr() as *const _, n),
                    _ => ebur128_add_frames_double(st, d.as_ptr() as *const _, n),
                }
            });
            want_code("ebur128_add_frames of too many frames", got, 1)
        }
        6 => {
            if x == 0 || (x > 0 && x <= u32::MAX as i64 && cs[k].r.m.rate as i64 * x < 1000) {
                return Ok(());
            }
            cs[k].ask_window(x as u64)
        }
        7 => cs[k].peak(x, y as u32),
        8 => {
            let n = y.rem_euclid(5) as usize;
            let set: Vec<&CPair> = (0..n).map(|i| &cs[(y >> (4 + i)) as usize % cs.len()]).collect();
            multiple(&set, x != 0)
        }
        9 => {
            let (ch, rate) = (x as u32, y as u64);
            let modes = [0x1, 0x3, 0x5, 0xb, 0x11, 0x31, 0x7f, 0x0, 0x2, 0x40, 0x45];
            init(ch, rate, modes[(x ^ y).rem_euclid(11) as usize] | (x as i32 & 0x7fff_ff80), usize::MAX)
        }
        10 => {
            let mut null: *mut State = std::ptr::null_mut();
            lib(9, || unsafe {
                ebur128_destroy(std::ptr::null_mut());
                ebur128_destroy(&mut null);
            });
            Ok(())
        }
        11 => {
            let (mut a, mut b, mut c) = (-1, -1, -1);
            lib(9, || unsafe { ebur128_get_version(&mut a, &mut b, &mut c) });
            // the C library it stands in for
            if (a, b, c) != (1, 2, 6) {
                return viol("version", format!("version {a}.{b}.{c} instead of 1.2.6"));
            }
            Ok(())
        }
        _ => {
            // the same configuration again
            let m = &cs[k].r.m;
            let (ch, rate, w) = (m.ch, m.rate as u64, m.window);
            cs[k].params(ch, rate, usize::MAX)?;
            cs[k].window(w, usize::MAX)
        }
    }
}

pub fn exec_p16(s: &Scen, ctx: &mut Ctx) -> Res {
    let full = s.get("mode") as i32 & 0x7f | (s.get("extra") as i32 & !0x7f);
    let res = (|| -> Res {
        let mut cs = vec![open(s, 1)?];
        if s.get("two") != 0 {
            cs.push(open(s, 2)?);
        }
        for (i, op) in s.ops.iter().enumerate() {
            count_op(ctx, op);
            (|| -> Res {
                let k = op.t as usize % cs.len();
                match op.k {
                    K::Add => {
                        let ch = cs[k].r.m.ch;
                        let d = cs[k].r.stream.take(op.arg(0).clamp(0, 2_000_000), ch);
                        cs[k].feed(&d, op.arg(1))?;
                        ctx.nontrivial |= !d.is_empty();
                    }
                    K::SetMap => {
                        let ch = cs[k].r.m.ch;
                        for (i, t) in map_variant(op.arg(0), ch).iter().enumerate() {
                            cs[k].set_channel(i as u32, *t as i32)?;
                        }
                    }
                    K::SetCh => {
                        let ch = cs[k].r.m.ch;
                        cs[k].set_channel(op.arg(0).rem_euclid(ch as i64) as u32, op.arg(1) as i32)?;
                    }
                    K::ChParams => cs[k].params(op.arg(0) as u32, op.arg(1) as u64, usize::MAX)?,
                    K::MaxWin => cs[k].window(op.arg(0) as u64, usize::MAX)?,
                    K::MaxHist => cs[k].history(op.arg(0) as u64)?,
                    K::Fail => {
                        ctx.count("allocation_failures", 1);
                        match op.arg(0) {
                            0 => cs[k].params(op.arg(1) as u32, op.arg(2) as u64, 16384)?,
                            1 => cs[k].window(op.arg(1) as u64, 16384)?,
                            _ => init(op.arg(1) as u32, op.arg(2) as u64, 0x7f, 16384)?,
                        }
                    }
                    K::Query => {
                        // as with the Rust API, windows without a single frame have no loudness
                        let rate = cs[k].r.m.rate as i64;
                        let w: Vec<i64> = op.a.iter().copied().filter(|w| *w > 0 && w.saturating_mul(rate) >= 1000).collect();
                        cs[k].all(&w, ctx)?;
                    }
                    K::Call => call(&mut cs, k, op, ctx)?,
                    // no unmasked exceptions: the calls here contain every kind of sample
                    K::Env => set_env((op.arg(0) as u32 & 0xe040) | CSR_DEFAULT),
                    _ => (),
                }
                for c in &cs {
                    public(c, full)?;
                    let c = &c.r;
                    ctx.dig.add(c.m.ch as u64);
                }
                Ok(())
            })()
            .map_err(|v| at(v, i, op))?;
        }
        for c in &cs {
            ctx.sim_ms += c.r.sim_ms;
            ctx.frames += c.r.frames;
            c.all(&[400], ctx)?;
        }
        for c in cs.iter_mut() {
            let acct = c.acct;
            let mut st = c.st;
            c.st = std::ptr::null_mut();
            lib(acct, || unsafe { ebur128_destroy(&mut st) });
            if !st.is_null() {
                return viol("destroy", "ebur128_destroy did not clear the handle");
            }
        }
        Ok(())
    })();
    res?;
    leaked(&[1, 2, 6, 7, 8, 9], ctx)
}

/// P17: lives of C handles; only the memory they leave behind counts.
pub fn exec_p17_capi(s: &Scen, ctx: &mut Ctx) -> Res {
    let full = s.get("mode") as i32 & 0x7f | 1;
    let (ch0, rate0) = (s.get("ch").clamp(1, 64) as u32, s.get("rate").clamp(16, 2_822_400) as u32);
    struct H(*mut State);
    impl Drop for H {
        fn drop(&mut self) {
            lib(1, || unsafe { ebur128_destroy(&mut self.0) });
        }
    }
    let new = || H(lib(1, || unsafe { ebur128_init(ch0, rate0 as c_ulong, full) }));
    let mut h = new();
    let (mut ch, mut rate, mut win) = (ch0, rate0 as u64, 3000);
    let mut st = stream(s);
    for op in &s.ops {
        count_op(ctx, op);
        if h.0.is_null() {
            break;
        }
        let p = h.0;
        match op.k {
            K::Drop => {
                drop(std::mem::replace(&mut h, new()));
                (ch, rate, win) = (ch0, rate0 as u64, 3000);
                ctx.count("handles_replaced", 1);
            }
            K::Add => {
                let d = st.take(op.arg(0).clamp(0, 500_000), ch);
                let n = d.len() / ch as usize;
                let (b, _) = Buf::new(op.arg(1), &d);
                lib(1, || unsafe {
                    match &b {
                        Buf::I16(v) => ebur128_add_frames_short(p, v.as_ptr(), n),
                        Buf::I32(v) => ebur128_add_frames_int(p, v.as_ptr(), n),
                        Buf::F32(v) => ebur128_add_frames_float(p, v.as_ptr(), n),
                        Buf::F64(v) => ebur128_add_frames_double(p, v.as_ptr(), n),
                    }
                });
                ctx.frames += n as u64;
                ctx.sim_ms += n as f64 * 1000.0 / rate as f64;
                ctx.nontrivial |= n > 0;
            }
            K::SetCh | K::SetMap => {
                lib(1, || unsafe { ebur128_set_channel(p, op.arg(0) as u32 % 70, op.arg(1) as i32) });
            }
            K::ChParams | K::Fail if op.k == K::ChParams || op.arg(0) == 0 => {
                let k = (op.k == K::Fail) as usize;
                let (c, q) = (op.arg(k).clamp(0, 70) as u32, op.arg(k + 1).clamp(0, 3_000_000) as u64);
                if model::ring_frames(q as u32, win) * c as u64 * 8 > MAX_RING_BYTES {
                    continue;
                }
                if k == 1 {
                    alloc::set_failure(8192, 0);
                }
                let r = lib(1, || unsafe { ebur128_change_parameters(p, c, q as c_ulong) });
                alloc::clear_failure();
                if r == 0 {
                    (ch, rate) = (c, q);
                }
            }
            K::MaxWin | K::Fail if op.k == K::MaxWin || op.arg(0) == 1 => {
                let k = (op.k == K::Fail) as usize;
                let w = op.arg(k).clamp(0, 1_000_000) as u64;
                if model::ring_frames(rate as u32, w.max(3000)) * ch as u64 * 8 > MAX_RING_BYTES {
                    continue;
                }
                if k == 1 {
                    alloc::set_failure(8192, 0);
                }
                let r = lib(1, || unsafe { ebur128_set_max_window(p, w as c_ulong) });
                alloc::clear_failure();
                if r == 0 {
                    win = w.max(3000);
                }
            }
            K::Fail => {
                alloc::set_failure(8192, 0);
                let o = H(lib(1, || unsafe { ebur128_init(op.arg(1).clamp(1, 64) as u32, 48_000, 0x7f) }));
                alloc::clear_failure();
                drop(o);
                ctx.count("allocation_failures", 1);
            }
            K::MaxHist => {
                lib(1, || unsafe { ebur128_set_max_history(p, op.arg(0) as c_ulong) });
            }
            K::Query => {
                let mut v = 0.0f64;
                let o = &mut v as *mut f64;
                let n = (op.arg(0).max(0) * 7 % 41) as usize;
                let mut set = vec![p; n];
                lib(1, || unsafe {
                    ebur128_loudness_global(p, o);
                    ebur128_relative_threshold(p, o);
                    ebur128_loudness_momentary(p, o);
                    ebur128_loudness_shortterm(p, o);
                    ebur128_loudness_range(p, o);
                    ebur128_loudness_window(p, 400, o);
                    ebur128_sample_peak(p, 0, o);
                    ebur128_true_peak(p, 0, o);
                    ebur128_prev_sample_peak(p, 70, o);
                    ebur128_prev_true_peak(p, 0, o);
                    ebur128_loudness_global_multiple(set.as_mut_ptr(), n, o);
                    ebur128_loudness_range_multiple(set.as_mut_ptr(), n, o);
                });
            }
            _ => (),
        }
    }
    drop(h);
    Ok(())
}
