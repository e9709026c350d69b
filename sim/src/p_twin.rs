//! Properties decided by running twins of the real code: P09, P12, P13, P14, P17, P18, P20.

use crate::alloc;
use crate::ctx::{Ctx, Res};
use crate::gen::{self, Prof};
use crate::inst::*;
use crate::model::{self, has};
use crate::p_hist::{at, count_op, pair, safe_cats, stream};
use crate::rng::{mix2, Rng};
use crate::sched;
use crate::scen::{Op, Scen, K};
use crate::signal::{planes, Buf};
use ebur128::{Channel, EbuR128};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const NEAR: Tol = Tol {
    lu: 1e-9,
    floor: 1e-26,
    tp: 1e-6,
    tp_abs: 1e-35,
    sp: 1e-12,
};

fn setup(r: &mut Rng, s: &mut Scen, must: u8, max_ch: u32) -> gen::Cfg {
    let rate = gen::any_rate(r);
    let ch = gen::channels(r).min(max_ch);
    gen::config(r, s, must, rate, ch)
}

fn frames_for(r: &mut Rng, c: &gen::Cfg, s: &Scen) -> i64 {
    gen::budget(r, c) * if s.get("big") != 0 { 3 } else { 1 }
}

const MIXED: Prof = Prof {
    query: 12,
    reset: 4,
    seed: 6,
    map: 6,
    chparams: 6,
    maxwin: 6,
    maxhist: 5,
    rates: true,
};

/// Put operations produced by `f` at random places of the history.
pub fn sprinkle(r: &mut Rng, s: &mut Scen, n: i64, mut f: impl FnMut(&mut Rng) -> Op) {
    for _ in 0..n {
        let op = f(r);
        let i = r.below(s.ops.len() as u64 + 1) as usize;
        s.ops.insert(i, op);
    }
}

// ---------------------------------------------------------------- P09

pub fn gen_p09(r: &mut Rng, s: &mut Scen) {
    let must = r.pick(&[0, model::I, model::TP, model::I | model::LRA, model::TP | model::I | model::LRA]);
    let c = setup(r, s, must, 64);
    let frames = frames_for(r, &c, s);
    // a long time before the first reset
    let soak = if c.s100 * (c.ch as i64) < 200 && r.chance(1, 7) { r.logrange(100, 12_000) } else { 0 };
    gen::segments(r, s, frames + soak * c.s100, c.s100, true);
    let prof = Prof {
        reset: 0,
        ..MIXED
    };
    gen::history(r, s, 0, &c, frames, &prof);
    let n = r.range(1, 4);
    sprinkle(r, s, n, |_| Op::new(K::Reset, 0, &[]));
    if soak > 0 {
        let f = gen::fmt(r);
        s.ops.insert(0, Op::new(K::Soak, 0, &[soak, f, 0]));
    }
    if r.chance(1, 3) {
        let i = r.below(s.ops.len() as u64) as usize;
        let f = [r.range(1, 3 * c.s100), r.range(2, 3), r.range(0, 1), r.range(0, 6), r.range(0, 50), r.range(1, 20), r.range(0, 63)];
        s.ops.insert(i, Op::new(K::Corrupt, 0, &f));
    }
}

/// A new analyzer with the configuration of `p`, continuing with the same stream.
pub fn fresh<'a>(p: &Pair<'a>, acct: u32) -> Result<Pair<'a>, Viol> {
    let st = crate::signal::Stream {
        segs: p.stream.segs,
        grid: p.stream.grid,
        pos: p.stream.pos,
    };
    let mut t = Pair::new(acct, p.m.ch, p.m.rate, p.m.mode, st, false)?;
    let map = p.m.map.clone();
    let r = t.an.set_map(&map);
    t.ok("set_channel_map", r)?;
    t.m.set_map(&map);
    if p.m.window != t.m.window {
        t.step(&Op::new(K::MaxWin, 0, &[p.m.window as i64]))?;
    }
    if p.m.history != u64::MAX {
        t.step(&Op::new(K::MaxHist, 0, &[p.m.history as i64]))?;
    }
    Ok(t)
}

pub fn exec_p09(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, false)?;
    let mut twin: Option<Pair> = None;
    let mut dirty = false;
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        (|| -> Res {
            match op.k {
                K::Reset => {
                    a.step(op)?;
                    twin = Some(fresh(&a, 2)?);
                    ctx.nontrivial |= dirty;
                    ctx.count("resets_compared", 1);
                }
                K::Corrupt => {
                    let d = corrupt(&mut a, op);
                    let r = a.an.add(&d.0, op.arg(2));
                    a.ok("add_frames", r)?;
                    if let Some(t) = twin.as_mut() {
                        t.stream.pos = a.stream.pos;
                        let r = t.an.add(&d.0, op.arg(2));
                        t.ok("add_frames", r)?;
                    }
                }
                K::Query => (),
                _ => {
                    a.step(op)?;
                    dirty |= op.k == K::Add && op.arg(0) > 0;
                    if let Some(t) = twin.as_mut() {
                        t.step(op)?;
                    }
                }
            }
            if let Some(t) = twin.as_ref() {
                if a.m.ring() * a.m.ch as u64 > 60_000 && op.k == K::Add && i % 4 != 0 {
                    return Ok(());
                }
                let w = [13, 400, a.m.window as i64];
                let (oa, ot) = (a.an.observe(&w), t.an.observe(&w));
                ctx.see(&oa);
                let scale = vec![100.0; oa.ch as usize];
                let mut o2 = oa.clone();
                // the previous call may still be visible after an empty one
                if op.k == K::Add && op.arg(0) == 0 {
                    o2.psp = ot.psp.clone();
                    o2.ptp = ot.ptp.clone();
                }
                compare(&o2, &ot, ALL, NEAR, &scale)?;
            }
            Ok(())
        })()
        .map_err(|v| at(v, i, op))?;
    }
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    Ok(())
}

// ---------------------------------------------------------------- P12

pub fn gen_p12(r: &mut Rng, s: &mut Scen) {
    let must = r.pick(&[0, model::I, model::SP, model::TP | model::I | model::LRA]);
    let c = setup(r, s, must, 64);
    let frames = frames_for(r, &c, s) / 2;
    gen::segments(r, s, frames, c.s100, true);
    gen::history(r, s, 0, &c, frames, &MIXED);
    let n = r.range(3, 40);
    sprinkle(r, s, n, bad_op);
}

pub fn bad_op(r: &mut Rng) -> Op {
    let a = [r.range(0, 19), r.range(0, 3), r.logrange(1, 500), r.below(1 << 31) as i64];
    Op::new(K::Bad, 0, &a)
}

/// Make an invalid request and check its outcome. None: the request does not exist here.
pub fn bad(an: &mut An, m: &model::Model, op: &Op) -> Result<Option<&'static str>, Viol> {
    let (kind, fmt, n, x) = (op.arg(0), op.arg(1), op.arg(2).clamp(1, 100_000), op.arg(3) as u64);
    let ch = m.ch as u64;
    let expect = |what: &'static str, r: Result<(), u8>, code: u8| -> Result<Option<&'static str>, Viol> {
        match r {
            Err(c) if c == code => Ok(Some(what)),
            Err(c) => viol(
                "wrong-error",
                format!("{what}: {} but expected {}", err_name(c), err_name(code)),
            ),
            Ok(()) => viol("accepted", format!("{what} was accepted")),
        }
    };
    let idx = |x: u64| -> u32 {
        match x % 4 {
            0 => ch as u32,
            1 => ch as u32 + 1,
            2 => u32::MAX,
            _ => (ch + x % 1000) as u32,
        }
    };
    let data = |len: u64| -> Vec<f64> { (0..len).map(|i| ((mix2(x, i) % 2001) as f64 - 1000.0) / 1000.0).collect() };
    macro_rules! planar {
        ($lens:expr, $add:expr) => {{
            let lens: Vec<u64> = $lens;
            let p: Vec<Vec<f64>> = lens.iter().map(|l| data(*l)).collect();
            let b: Vec<Buf> = p.iter().map(|v| Buf::new(fmt, v).0).collect();
            macro_rules! go {
                ($var:ident, $fa:ident, $fs:ident) => {{
                    let s: Vec<&[_]> = b
                        .iter()
                        .map(|b| match b {
                            Buf::$var(v) => v.as_slice(),
                            _ => unreachable!(),
                        })
                        .collect();
                    an.call(|e| if $add { e.$fa(&s) } else { e.$fs(&s) })
                        .map_err(err_code)
                }};
            }
            match fmt.rem_euclid(4) {
                0 => go!(I16, add_frames_planar_i16, seed_frames_planar_i16),
                1 => go!(I32, add_frames_planar_i32, seed_frames_planar_i32),
                2 => go!(F32, add_frames_planar_f32, seed_frames_planar_f32),
                _ => go!(F64, add_frames_planar_f64, seed_frames_planar_f64),
            }
        }};
    }
    let chan = |x: u64| CHANNELS[(x % 32) as usize];
    match kind {
        0 => {
            let i = idx(x);
            let r = an.call(|e| e.set_channel(i, chan(x >> 3))).map_err(err_code);
            expect("set_channel with an invalid index", r, 3)
        }
        1 => {
            if ch == 1 {
                return Ok(None);
            }
            let i = (x % ch) as u32;
            let r = an
                .call(|e| e.set_channel(i, Channel::DualMono))
                .map_err(err_code);
            expect("set_channel to dual mono", r, 3)
        }
        2 => {
            let len = match x % 5 {
                0 => 0,
                1 => ch - 1,
                2 => ch + 1,
                3 => 2 * ch,
                _ => 65,
            };
            if len == ch {
                return Ok(None);
            }
            let map: Vec<Channel> = (0..len)
                .map(|i| match chan(mix2(x, i)) {
                    Channel::DualMono => Channel::Right,
                    c => c,
                })
                .collect();
            let r = an.call(|e| e.set_channel_map(&map)).map_err(err_code);
            expect("set_channel_map with a wrong length", r, 3)
        }
        3 => {
            if ch == 1 {
                return Ok(None);
            }
            let mut map: Vec<Channel> = (0..ch).map(|i| chan(mix2(x, i))).collect();
            map[((x >> 8) % ch) as usize] = Channel::DualMono;
            let r = an.call(|e| e.set_channel_map(&map)).map_err(err_code);
            expect("set_channel_map with dual mono", r, 3)
        }
        4 => {
            let c = [0, 65, 66, u32::MAX, 1000][(x % 5) as usize];
            let rate = if x & 8 == 0 { m.rate } else { 48000 };
            let r = an.call(|e| e.change_parameters(c, rate)).map_err(err_code);
            expect("change_parameters to invalid channels", r, 1)
        }
        5 => {
            let q = [0, 15, 2_822_401, u32::MAX, 1][(x % 5) as usize];
            let c = if x & 8 == 0 { m.ch } else { 1 + (x >> 4) as u32 % 64 };
            let r = an.call(|e| e.change_parameters(c, q)).map_err(err_code);
            expect("change_parameters to an invalid rate", r, 1)
        }
        6 | 7 => {
            if ch == 1 {
                return Ok(None);
            }
            let extra = 1 + (x >> 8) % (ch - 1);
            let frames = if x & 1 == 0 { 0 } else { n as u64 };
            let b = Buf::new(fmt, &data(frames * ch + extra)).0;
            let r = if kind == 6 {
                an.add(&b, 0)
            } else {
                an.seed(&b, 0)
            };
            expect("interleaved buffer without whole frames", r, 1)
        }
        8 | 9 => {
            if ch == 1 {
                return Ok(None);
            }
            let mut lens = vec![n as u64; ch as usize];
            let i = ((x >> 8) % ch) as usize;
            lens[i] = match x % 3 {
                0 => 0,
                1 => n as u64 + 1,
                _ => n as u64 - 1,
            };
            expect("ragged planes", planar!(lens, kind == 8), 1)
        }
        10 | 11 => {
            let planes = match x % 4 {
                0 => 0,
                1 => ch - 1,
                2 => ch + 1,
                _ => 1 + (x >> 8) % 70,
            };
            if planes == ch {
                return Ok(None);
            }
            expect(
                "wrong number of planes",
                planar!(vec![n as u64; planes as usize], kind == 10),
                1,
            )
        }
        12 => {
            if has(m.mode, model::I) {
                return Ok(None);
            }
            let r = match x % 3 {
                0 => an.ask(|e| e.loudness_global()).map(|_| ()),
                1 => an.ask(|e| e.relative_threshold()).map(|_| ()),
                _ => an
                    .ask(|e| EbuR128::loudness_global_multiple([e].iter().copied()))
                    .map(|_| ()),
            };
            expect("integrated loudness without its mode", r.map_err(err_code), 2)
        }
        13 => {
            if has(m.mode, model::LRA) {
                return Ok(None);
            }
            let r = match x % 2 {
                0 => an.ask(|e| e.loudness_range()).map(|_| ()),
                _ => an
                    .ask(|e| EbuR128::loudness_range_multiple([e].iter().copied()))
                    .map(|_| ()),
            };
            expect("loudness range without its mode", r.map_err(err_code), 2)
        }
        14 => {
            let on = has(m.mode, model::SP);
            let i = if on || x & 1 == 0 { idx(x >> 1) } else { (x >> 1) as u32 % m.ch };
            let r = match x & 16 {
                0 => an.ask(|e| e.sample_peak(i)).map(|_| ()),
                _ => an.ask(|e| e.prev_sample_peak(i)).map(|_| ()),
            };
            expect("sample peak", r.map_err(err_code), if on { 3 } else { 2 })
        }
        15 => {
            let on = has(m.mode, model::TP);
            let i = if on || x & 1 == 0 { idx(x >> 1) } else { (x >> 1) as u32 % m.ch };
            let r = match x & 16 {
                0 => an.ask(|e| e.true_peak(i)).map(|_| ()),
                _ => an.ask(|e| e.prev_true_peak(i)).map(|_| ()),
            };
            expect("true peak", r.map_err(err_code), if on { 3 } else { 2 })
        }
        16 => {
            if x & 7 < 3 {
                // a little more than the configured maximum: whether it fits into the buffer is up
                // to the implementation, but there is an answer or the documented error
                let w = m.window + 1 + (x >> 3) % 160;
                let r = an.ask(|e| e.loudness_window(w.min(u32::MAX as u64) as u32));
                return match r.map_err(err_code) {
                    Err(2) => Ok(Some("window just above the maximum")),
                    Err(c) => viol("wrong-error", format!("window({w}) with maximum {}: {}", m.window, err_name(c))),
                    Ok(_) if m.rate as u64 * w / 1000 > m.ring() + m.s100 => {
                        viol("accepted", format!("window({w}) was answered with maximum {}", m.window))
                    }
                    Ok(_) => Ok(None),
                };
            }
            let w = match x % 3 {
                0 => u32::MAX as u64,
                1 => 2 * m.window + 200,
                _ => 3 * m.window + (x >> 3) % 100_000,
            };
            if w > u32::MAX as u64 || m.rate as u64 * w / 1000 <= m.ring() + m.s100 {
                return Ok(None);
            }
            let r = an.ask(|e| e.loudness_window(w as u32)).map(|_| ());
            expect("window that does not fit", r.map_err(err_code), 2)
        }
        17 => {
            if has(m.mode, model::S) || m.window >= 2700 || m.ring() >= m.s100 * 30 {
                return Ok(None);
            }
            let r = an.ask(|e| e.loudness_shortterm()).map(|_| ());
            expect("short-term loudness without room for it", r.map_err(err_code), 2)
        }
        _ => {
            // empty deliveries are fine
            let b = Buf::new(fmt, &[]).0;
            let (what, r) = match x % 4 {
                0 => ("empty add_frames", an.add(&b, 0)),
                1 => ("empty planar add_frames", an.add(&b, 1)),
                2 => ("empty seed_frames", an.seed(&b, 0)),
                _ => ("empty planar seed_frames", an.seed(&b, 1)),
            };
            match r {
                Ok(()) => Ok(Some(what)),
                Err(e) => viol("spurious-error", format!("{what} failed with {}", err_name(e))),
            }
        }
    }
}

pub fn exec_p12(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, false)?;
    let mut b = pair(s, 2, false)?;
    // previous peaks are unspecified between an empty delivery and the next one
    let mut prev = true;
    let mut rejected = 0;
    for (i, op) in s.ops.iter().enumerate() {
        (|| -> Res {
            match op.k {
                K::Bad => match bad(&mut a.an, &a.m, op)? {
                    None => return Ok(()),
                    Some(what) => {
                        rejected += 1;
                        if op.arg(0) >= 18 {
                            prev = false;
                            ctx.count("empty_deliveries", 1);
                        } else {
                            ctx.count("rejected_requests", 1);
                            ctx.count(&format!("rejected: {what}"), 1);
                        }
                    }
                },
                _ => {
                    count_op(ctx, op);
                    a.step(op)?;
                    b.step(op)?;
                    prev |= op.k == K::Reset || op.k == K::ChParams || (op.k == K::Add && op.arg(0) > 0);
                }
            }
            if op.k != K::Bad && a.m.ring() * a.m.ch as u64 > 30_000 {
                return Ok(());
            }
            let w = [3, 400, a.m.window as i64];
            let (oa, ob) = (a.an.observe(&w), b.an.observe(&w));
            ctx.see(&oa);
            compare(&oa, &ob, if prev { ALL } else { ALL & !PREV }, EXACT, &[])
        })()
        .map_err(|v| at(v, i, op))?;
    }
    ctx.nontrivial = rejected > 0 && a.frames > 0;
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    Ok(())
}

// ---------------------------------------------------------------- P13

pub fn gen_p13(r: &mut Rng, s: &mut Scen) {
    let must = r.pick(&[0, model::I, model::TP | model::I, model::I | model::LRA, model::LRA]);
    let lra = must & model::LRA == model::LRA && r.chance(3, 4);
    let rate = if lra {
        r.range(84, 130) as u32
    } else {
        gen::any_rate(r)
    };
    let ch = if lra { r.range(1, 2) as u32 } else { gen::channels(r) };
    let c = gen::config(r, s, must, rate, ch);
    if lra && r.chance(3, 4) {
        s.set("mode", (c.mode & !model::HIST) as i64);
    }
    let frames = frames_for(r, &c, s) / 2;
    gen::segments(r, s, frames, c.s100, true);
    if lra {
        // a history worth sorting
        for g in s.segs.iter_mut() {
            g.lvl = g.lvl.max(-4000);
            if g.kind == 0 || g.kind == 4 {
                g.kind = 1;
            }
        }
        let have: i64 = s.segs.iter().map(|g| g.len).sum();
        let need = c.s100 * 7500;
        if have < need {
            let g = gen::seg(r, need - have, false);
            s.segs.push(crate::scen::Seg { kind: 2, lvl: -2000, mask: u64::MAX, ..g });
        }
        let n = r.range(5200, 7000);
        s.op(K::Soak, 0, &[n, 3, 0]);
    }
    let prof = Prof {
        reset: if lra { 0 } else { 3 },
        maxhist: if lra { 0 } else { 3 },
        ..MIXED
    };
    gen::history(r, s, 0, &c, frames, &prof);
    let n = r.range(2, 14);
    sprinkle(r, s, n, |r| {
        let which = if lra && r.chance(1, 2) { r.range(3, 4) } else { r.range(0, 6) };
        let a = match which {
            0 | 1 => {
                let (x, y) = match r.below(3) {
                    0 => (r.range(1, 64), r.logrange(100, 48_000)),
                    1 => (r.range(1, 8), r.pick(&gen::NAMED_RATES[..12]) as i64),
                    _ => (gen::channels(r) as i64, gen::cheap_rate(r) as i64),
                };
                [which, x, y, r.range(0, 1)]
            }
            2 => [which, r.logrange(400, 100_000), 0, r.range(0, 1)],
            5 => [which, u32::MAX as i64 - r.pick(&[0, 1, 2, 1000, 1_000_000, 2_000_000_000]), 0, 0],
            6 => [which, r.range(1, 64), 2_822_400, 0],
            _ => [which, 0, 0, r.range(0, 1)],
        };
        let mut a = a.to_vec();
        a.push(if r.chance(1, 2) { 0 } else { r.range(0, 3) });
        Op::new(K::Fail, 0, &a)
    });
    if lra {
        s.op(K::Fail, 0, &[3, 0, 0, 1, 1]);
        s.op(K::Fail, 0, &[3, 0, 0, 1]);
    }
}

fn no_mem(what: &str, r: Result<(), u8>, fired: u32) -> Result<bool, Viol> {
    match (r, fired) {
        (Err(1), f) if f > 0 => Ok(true),
        (Ok(()), 0) => Ok(false),
        (Ok(()), _) => viol(
            "no-error",
            format!("{what} succeeded although its allocation failed"),
        ),
        (Err(e), f) => viol(
            "wrong-error",
            format!("{what}: {} ({f} allocations failed)", err_name(e)),
        ),
    }
}

/// Perform an operation with failing allocations; true if it failed as it should.
pub fn fail(p: &mut Pair, b: Option<&mut Pair>, op: &Op, ctx: &mut Ctx) -> Result<bool, Viol> {
    let (x, y) = (op.arg(1), op.arg(2));
    // so many large allocations succeed first
    let skip = op.arg(4).clamp(0, 8) as u32;
    let m = &p.m;
    let failed = match op.arg(0) {
        0 => {
            let (c, q) = (x.clamp(1, 64) as u32, y.clamp(16, 2_822_400) as u32);
            if model::ring_frames(q, 3000) * c as u64 * 8 > MAX_RING_BYTES {
                return Ok(false);
            }
            alloc::set_failure(65536, skip);
            let r = An::new(3, c, q, m.mode);
            let fired = alloc::clear_failure();
            no_mem("new", r.map(|_| ()), fired)?
        }
        1 | 6 => {
            let (c, q) = (x.clamp(1, 64) as u32, y.clamp(16, 2_822_400) as u32);
            let bytes = model::ring_frames(q, m.window) * c as u64 * 8;
            // Either the window is so small that failure has to be injected, or the buffer is
            // larger than the simulated memory.
            if bytes > MAX_RING_BYTES && bytes < alloc::MEMORY as u64 * 5 / 4 {
                return Ok(false);
            }
            alloc::set_failure(65536, skip);
            let r = p.an.call(|e| e.change_parameters(c, q)).map_err(err_code);
            let fired = alloc::clear_failure();
            let f = no_mem("change_parameters", r, fired)?;
            if !f {
                p.m.change_parameters(c, q);
                if let Some(b) = b {
                    let r = b.an.call(|e| e.change_parameters(c, q)).map_err(err_code);
                    b.ok("change_parameters", r)?;
                    b.m.change_parameters(c, q);
                }
                return Ok(false);
            }
            f
        }
        2 | 5 => {
            let w = x.clamp(0, u32::MAX as i64) as u32;
            let bytes = model::ring_frames(m.rate, m.clamp_window(w as u64)) * m.ch as u64 * 8;
            if bytes > MAX_RING_BYTES && bytes < alloc::MEMORY as u64 * 5 / 4 {
                return Ok(false);
            }
            alloc::set_failure(4096, skip);
            let r = p.an.call(|e| e.set_max_window(w)).map_err(err_code);
            let fired = alloc::clear_failure();
            let f = no_mem("set_max_window", r, fired)?;
            if !f {
                p.m.set_max_window(w as u64);
                if let Some(b) = b {
                    let r = b.an.call(|e| e.set_max_window(w)).map_err(err_code);
                    b.ok("set_max_window", r)?;
                    b.m.set_max_window(w as u64);
                }
                return Ok(false);
            }
            f
        }
        which => {
            if !has(m.mode, model::LRA) {
                return Ok(false);
            }
            alloc::set_failure(4096, skip);
            let r = if which == 3 {
                p.an.ask(|e| e.loudness_range())
            } else {
                p.an
                    .ask(|e| EbuR128::loudness_range_multiple([e, e].iter().copied()))
            };
            let fired = alloc::clear_failure();
            no_mem("loudness_range", r.map(|_| ()).map_err(err_code), fired)?
        }
    };
    if failed {
        ctx.count("allocation_failures", 1);
        ctx.count(
            ["fail_new", "fail_change_parameters", "fail_set_max_window", "fail_range", "fail_range_multiple", "fail_huge_window", "fail_huge_parameters"]
                [op.arg(0).clamp(0, 6) as usize],
            1,
        );
    }
    Ok(failed)
}

pub fn exec_p13(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, false)?;
    let mut b = pair(s, 2, false)?;
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        (|| -> Res {
            if op.k == K::Fail {
                let failed = fail(&mut a, Some(&mut b), op, ctx)?;
                ctx.nontrivial |= failed && a.frames > 0;
                let w = [100, 400, a.m.window as i64];
                let (oa, ob) = (a.an.observe(&w), b.an.observe(&w));
                ctx.see(&oa);
                compare(&oa, &ob, ALL, EXACT, &[])?;
                if failed && op.arg(3) != 0 && op.arg(0) < 3 {
                    // now there is enough memory
                    let k = match op.arg(0) {
                        0 => {
                            let (c, q) = (op.arg(1).clamp(1, 64) as u32, op.arg(2) as u32);
                            match An::new(3, c, q, a.m.mode) {
                                Ok(_) => (),
                                Err(e) => {
                                    return viol(
                                        "spurious-error",
                                        format!("new failed with {}", err_name(e)),
                                    )
                                }
                            }
                            return Ok(());
                        }
                        1 => K::ChParams,
                        _ => K::MaxWin,
                    };
                    let op2 = Op::new(k, 0, &op.a[1..]);
                    a.step(&op2)?;
                    b.step(&op2)?;
                } else if !failed {
                    return Ok(());
                }
            } else {
                a.step(op)?;
                b.step(op)?;
                if op.k == K::Add && a.m.ring() * a.m.ch as u64 > 30_000 {
                    return Ok(());
                }
            }
            let w = [100, 400, a.m.window as i64];
            let (oa, ob) = (a.an.observe(&w), b.an.observe(&w));
            ctx.see(&oa);
            compare(&oa, &ob, ALL, EXACT, &[])
        })()
        .map_err(|v| at(v, i, op))?;
    }
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    Ok(())
}

// ---------------------------------------------------------------- P14

/// The next frames of the stream with some samples destroyed.
/// Arguments: frames format layout kind position count channel
pub fn corrupt(p: &mut Pair, op: &Op) -> (Buf, Vec<f64>, Vec<bool>) {
    let ch = p.m.ch;
    let n = op.arg(0).clamp(1, 2_000_000);
    let mut d = p.stream.take(n, ch);
    let fmt = op.arg(1).rem_euclid(4);
    let kind = op.arg(3);
    let mut hit = vec![false; ch as usize];
    let chan = op.arg(6).rem_euclid(ch as i64) as usize;
    let mut bits: Vec<(usize, u64)> = vec![];
    for k in 0..op.arg(5).clamp(1, 10_000) {
        let f = (op.arg(4).rem_euclid(n) + k * (1 + op.arg(4).rem_euclid(7))) % n;
        let c = if op.arg(6) >= 32 { (chan as i64 + k) as usize % ch as usize } else { chan };
        let i = f as usize * ch as usize + c;
        hit[c] = true;
        match kind {
            0 => d[i] = f64::NAN,
            1 => d[i] = f64::INFINITY,
            2 => d[i] = f64::NEG_INFINITY,
            3 => d[i] = if fmt == 2 { 1e-41 } else { 4e-320 } * if k & 1 == 0 { 1.0 } else { -1.0 },
            4 => d[i] = if k & 1 == 0 { 1e30 } else { -1e34 },
            5 => d[i] = if fmt == 3 { 1e300 } else { 3e38 },
            _ => bits.push((i, mix2(op.arg(4) as u64, k as u64))),
        }
    }
    let (mut b, mut e) = Buf::new(fmt, &d);
    for (i, h) in bits {
        let bit = (h % 64) as u32;
        match &mut b {
            Buf::I16(v) => {
                v[i] ^= 1 << (bit % 16);
                e[i] = v[i] as f64 / 32768.0
            }
            Buf::I32(v) => {
                v[i] ^= 1 << (bit % 32);
                e[i] = v[i] as f64 / 2147483648.0
            }
            Buf::F32(v) => {
                v[i] = f32::from_bits(v[i].to_bits() ^ (1 << (bit % 32)));
                e[i] = v[i] as f64
            }
            Buf::F64(v) => {
                v[i] = f64::from_bits(v[i].to_bits() ^ (1 << bit));
                e[i] = v[i]
            }
        }
    }
    (b, e, hit)
}

pub fn corrupt_op(r: &mut Rng, s100: i64) -> Op {
    let n = match r.below(5) {
        0 => 1,
        1 => r.range(1, s100.max(2) - 1),
        2 => 30 * s100,
        _ => r.range(1, 6 * s100),
    };
    let a = [
        n,
        if r.chance(1, 5) { r.range(0, 1) } else { r.range(2, 3) },
        r.range(0, 1),
        r.range(0, 7),
        r.range(0, 100_000),
        if r.chance(1, 2) { 1 } else { r.range(2, 200) },
        r.range(0, 63),
    ];
    Op::new(K::Corrupt, 0, &a)
}

pub fn gen_p14(r: &mut Rng, s: &mut Scen) {
    let must = r.pick(&[model::I, model::TP, model::I | model::LRA, model::TP | model::I | model::LRA, model::SP | model::I]);
    let c = setup(r, s, must, 16);
    let frames = frames_for(r, &c, s) / 2;
    gen::segments(r, s, frames, c.s100, true);
    let prof = Prof {
        chparams: 2,
        seed: 2,
        reset: 2,
        ..MIXED
    };
    gen::history(r, s, 0, &c, frames, &prof);
    let n = r.range(1, 6);
    sprinkle(r, s, n, |r| corrupt_op(r, c.s100));
    // end with a reset and clean data
    s.op(K::Reset, 0, &[]);
    for _ in 0..r.range(1, 6) {
        let (k, f, l) = (gen::delivery(r, c.s100).min(20_000), gen::fmt(r), r.range(0, 1));
        s.op(K::Add, 0, &[k, f, l]);
    }
}

pub fn exec_p14(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, true)?;
    let mut b = pair(s, 2, true)?; // gets only clean data
    let mut twin: Option<Pair> = None;
    // channels that got something strange since they were last cleared
    let mut dirty: Vec<bool> = vec![false; a.m.ch as usize];
    let mut any = false;
    // a NaN block has been completed
    let mut nan_stored = false;
    let mut overflow = false;
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        (|| -> Res {
            match op.k {
                K::Query => (),
                K::Corrupt => {
                    let before = a.an.observe(&[]);
                    let (buf, exact, hit) = corrupt(&mut a, op);
                    let n = op.arg(0).clamp(1, 2_000_000) as u64;
                    let r = a.an.add(&buf, op.arg(2));
                    a.ok("add_frames", r)?;
                    if let Some(t) = twin.as_mut() {
                        t.stream.pos = a.stream.pos;
                        let r = t.an.add(&buf, op.arg(2));
                        t.ok("add_frames", r)?;
                    }
                    let blocks0 = (a.m.frames / a.m.s100, a.m.frames);
                    let strange = exact.iter().any(|v| !v.is_finite() || v.abs() > 1e6);
                    a.m.add(&exact);
                    a.frames += n;
                    // whether an overflow ends up as NaN or infinite depends on the order of additions
                    overflow |= exact.iter().any(|v| v.is_finite() && v.abs() > 1e100);
                    if strange {
                        ctx.count(
                            ["corrupt_nan", "corrupt_inf", "corrupt_neg_inf", "corrupt_denormal", "corrupt_huge", "corrupt_max", "corrupt_bits", "corrupt_bits"]
                                [op.arg(3).clamp(0, 7) as usize],
                            1,
                        );
                        ctx.nontrivial = true;
                        any = true;
                        for (d, h) in dirty.iter_mut().zip(&hit) {
                            *d |= *h;
                        }
                        if (blocks0.1 + n) / a.m.s100 == blocks0.0 {
                            // nothing completed: what was complete before must not change
                            let after = a.an.observe(&[]);
                            compare(&after, &before, INT | RNG | CONF, EXACT, &[])?;
                            ctx.count("probe_unfinished_block_corrupted", 1);
                        }
                    } else if op.arg(3) == 3 {
                        ctx.count("corrupt_denormal", 1);
                        ctx.nontrivial = true;
                    } else {
                        ctx.count("corrupt_bits_within_range", 1);
                    }
                }
                K::Reset => {
                    a.step(op)?;
                    b.step(op)?;
                    any = false;
                    nan_stored = false;
                    overflow = false;
                    dirty.fill(false);
                    twin = Some(fresh(&a, 3)?);
                }
                _ => {
                    let ch0 = a.m.ch;
                    let pos = a.stream.pos;
                    let done = a.step(op)?;
                    b.stream.pos = pos;
                    b.step(op)?;
                    if let (true, Some(t)) = (done, twin.as_mut()) {
                        t.step(op)?;
                    }
                    if a.m.ch != ch0 {
                        dirty = vec![false; a.m.ch as usize];
                    }
                }
            }
            let big = a.m.ring() * a.m.ch as u64 > 30_000;
            if big && op.k == K::Add && i % 3 != 0 {
                return Ok(());
            }
            let w = [50, 400, a.m.window as i64];
            let o = a.an.observe(&w);
            ctx.see(&o);
            if let Some(t) = twin.as_ref() {
                let mut ot = t.an.observe(&w);
                if op.k == K::Add && op.arg(0) == 0 {
                    ot.psp = o.psp.clone();
                    ot.ptp = o.ptp.clone();
                }
                compare(&o, &ot, ALL, NEAR, &vec![100.0; o.ch as usize])?;
            }
            // peaks: sample peaks always, true peaks where the interpolator got only sane values
            if has(a.m.mode, model::SP) {
                let mut mo = o.clone();
                for c in 0..a.m.ch as usize {
                    if dirty[c] && has(a.m.mode, model::TP) {
                        if o.tp[c].map_or(true, |v| v.is_nan() || v < a.m.sp[c]) {
                            return viol("true_peak", format!("true peak {} of a corrupted channel with sample peak {}", show(&o.tp[c]), a.m.sp[c]));
                        }
                        // what was measured away from the strange samples counts as well
                        if let Ok(v) = o.tp[c] {
                            if v < a.m.tplow[c] * (1.0 - 1e-3) - 1e-35 {
                                return viol("true-peak-lost", format!("true peak {v} of a corrupted channel, but {} elsewhere", a.m.tplow[c]));
                            }
                        }
                        mo.tp[c] = Ok(a.m.sp[c].max(a.m.tp[c]));
                        mo.ptp[c] = Ok(a.m.psp[c].max(a.m.ptp[c]));
                    }
                }
                let cats = if op.k == K::Corrupt || (op.k == K::Add && op.arg(0) > 0) {
                    PEAK | PREV
                } else {
                    PEAK
                };
                check_model(&mo, &a.m, cats, &mut ctx.skips)?;
            }
            if !any {
                check_model(&o, &a.m, INT | RNG | CONF | WIN, &mut ctx.skips)?;
            } else if has(a.m.mode, model::I) && !has(a.m.mode, model::HIST) {
                nan_stored = a.m.stored_blocks().iter().any(|x| x.0.is_nan());
                if nan_stored {
                    ctx.count("probe_nan_block_stored", 1);
                    if !matches!(o.global, Ok(v) if v.is_nan() || (overflow && v == f64::INFINITY)) {
                        return viol("nan-hidden", format!("integrated loudness {} over a NaN block", show(&o.global)));
                    }
                }
            }
            if any && has(a.m.mode, model::LRA) && !has(a.m.mode, model::HIST) {
                if a.m.stored_st().iter().any(|x| x.0.is_nan()) {
                    ctx.count("probe_nan_shortterm_stored", 1);
                    if !overflow && !matches!(o.range, Ok(v) if v.is_nan()) {
                        return viol("nan-hidden", format!("loudness range {} over a NaN value", show(&o.range)));
                    }
                }
            }
            let _ = nan_stored;
            if op.k != K::Corrupt || i % 4 == 0 {
                let ob = b.an.observe(&w);
                check_model(&ob, &b.m, ALL & !PREV, &mut ctx.skips)
                    .map_err(|v| Viol { class: format!("other-{}", v.class), msg: format!("another analyzer: {}", v.msg) })?;
            }
            Ok(())
        })()
        .map_err(|v| at(v, i, op))?;
    }
    // combining must cope with anything
    let set = [&a, &b];
    if has(a.m.mode, model::I) {
        let _ = a.an.ask(|_| EbuR128::loudness_global_multiple(set.iter().map(|p| p.an.get())));
    }
    if has(a.m.mode, model::LRA) {
        let _ = a.an.ask(|_| EbuR128::loudness_range_multiple(set.iter().map(|p| p.an.get())));
    }
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    Ok(())
}

// ---------------------------------------------------------------- P17

pub fn gen_p17(r: &mut Rng, s: &mut Scen) {
    let kind = r.pick(&[0, 0, 1, 1, 2, 3, 3, 4]);
    s.set("kind", kind);
    let must = r.pick(&[0, model::I, model::TP | model::I, model::I | model::LRA, model::LRA]);
    match kind {
        1 => {
            let rate = r.pick(&[84, 90, 100, 120, 150, 200]);
            let ch = r.range(1, 3) as u32;
            let c = gen::config(r, s, must, rate, ch);
            let mut mode = c.mode;
            if has(mode, model::I) || has(mode, model::LRA) {
                if !has(mode, model::HIST) && r.chance(1, 4) {
                    mode |= model::HIST;
                }
            }
            s.set("mode", mode as i64);
            let n = 40_000 * c.s100;
            let g = gen::seg(r, n, false);
            s.segs.push(crate::scen::Seg { kind: r.range(1, 3), lvl: r.range(-5000, 0), mask: u64::MAX, ..g });
            if r.chance(1, 4) {
                let w = r.range(400, 9000);
                s.op(K::MaxWin, 0, &[w]);
            }
            if !has(mode, model::HIST) && (has(mode, model::I) || has(mode, model::LRA)) {
                let h = r.logrange(400, 60_000);
                s.op(K::MaxHist, 0, &[h]);
            }
            // beyond what any history has room for from the beginning
            let long = if r.chance(1, 2) { r.range(0, 5) } else { -1 };
            let lim = s.ops.iter().any(|o| o.k == K::MaxHist);
            for k in 0..r.range(2, 6) {
                let k = if k == long { r.range(5200, 12_000) } else { r.logrange(30, 3000) };
                let (f, l) = (gen::fmt(r), r.range(0, 1));
                s.op(K::Soak, 0, &[k, f, l]);
                let q = r.range(0, 14);
                s.op(K::One, 0, &[q, if q > 12 { r.range(0, 40) } else { 0 }]);
                if r.chance(1, 5) {
                    s.op(K::Reset, 0, &[]);
                }
                if lim && r.chance(1, 3) {
                    let h = r.logrange(400, 60_000);
                    s.op(K::MaxHist, 0, &[h]);
                }
            }
        }
        2 => {
            let c = setup(r, s, must, 12);
            let frames = frames_for(r, &c, s) / 4;
            gen::segments(r, s, frames, c.s100, true);
            gen::history(r, s, 0, &c, frames, &Prof { query: 0, ..MIXED });
            let n = r.range(1, 6);
            // a cycle of operations, to be repeated
            s.op(K::Phase, 0, &[r.range(20, 120)]);
            let mut cu = gen::cur(&c);
            for _ in 0..n {
                match r.below(7) {
                    0 => gen::reconf(r, s, 0, K::Reset, &mut cu, false),
                    1 => gen::reconf(r, s, 0, K::MaxWin, &mut cu, false),
                    2 => gen::reconf(r, s, 0, K::ChParams, &mut cu, true),
                    3 => gen::reconf(r, s, 0, K::MaxHist, &mut cu, false),
                    4 => gen::reconf(r, s, 0, K::SetMap, &mut cu, false),
                    5 => {
                        let op = bad_op(r);
                        s.ops.push(op)
                    }
                    _ => {
                        for q in 0..15 {
                            s.op(K::One, 0, &[q, 400 + (q > 12) as i64 * r.range(0, 40)]);
                        }
                    }
                }
            }
        }
        _ => {
            let c = setup(r, s, must, 24);
            let frames = frames_for(r, &c, s) / 3;
            gen::segments(r, s, frames, c.s100, true);
            gen::history(r, s, 0, &c, frames, &MIXED);
            let n = r.range(0, 6);
            sprinkle(r, s, n, bad_op);
            if kind == 0 {
                let n = r.range(0, 3);
                sprinkle(r, s, n, |r| {
                    let a = [r.range(0, 2), r.range(1, 16), r.logrange(4000, 48_000), 0];
                    Op::new(K::Fail, 0, &a)
                });
            } else if kind == 4 {
                let n = r.range(1, 8);
                sprinkle(r, s, n, |r| match r.below(3) {
                    0 => Op::new(K::Drop, 0, &[]),
                    1 => Op::new(K::SetCh, 0, &[r.range(0, 66), r.range(-5, 40)]),
                    _ => Op::new(K::Fail, 0, &[r.range(0, 2), r.range(1, 64), r.logrange(4000, 48_000)]),
                });
            } else {
                for _ in 0..r.range(1, 4) {
                    let p = r.logrange(1, 4000) as u64;
                    s.sw.push((p, sched::CRASH));
                }
                s.sw.sort();
            }
        }
    }
}

pub fn exec_p17(s: &Scen, ctx: &mut Ctx) -> Res {
    match s.get("kind") {
        1 => exec_p17_bounded(s, ctx)?,
        2 => exec_p17_cycle(s, ctx)?,
        3 => exec_p17_crash(s, ctx)?,
        4 => crate::p_capi::exec_p17_capi(s, ctx)?,
        _ => {
            let mut a = pair(s, 1, false)?;
            let mut used = vec![];
            for (i, op) in s.ops.iter().enumerate() {
                count_op(ctx, op);
                match op.k {
                    K::Bad => {
                        let _ = bad(&mut a.an, &a.m, op);
                    }
                    K::Fail => {
                        let _ = fail(&mut a, None, op, ctx);
                    }
                    K::Query => {
                        let o = a.an.observe(&op.a);
                        ctx.see(&o);
                        for q in 13..15 {
                            let _ = a.an.one(q, op.arg(0));
                        }
                    }
                    _ => {
                        a.step(op).map_err(|v| at(v, i, op))?;
                    }
                }
                used.push(alloc::live(1).0);
            }
            ctx.nontrivial = a.frames > 0 && used.iter().any(|u| *u > 0);
            ctx.sim_ms += a.sim_ms;
            ctx.frames += a.frames;
        }
    }
    leaked(&[1, 2, 3], ctx)
}

pub fn leaked(accounts: &[u32], ctx: &mut Ctx) -> Res {
    ctx.checks += 1;
    for a in accounts {
        let (bytes, count) = alloc::live(*a);
        if bytes != 0 || count != 0 {
            return viol(
                "leak",
                format!("{bytes} bytes in {count} allocations are left after dropping the analyzer"),
            );
        }
    }
    Ok(())
}

fn exec_p17_bounded(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, false)?;
    let base = alloc::live(1).0;
    // what was once needed may be kept
    let mut most = 0;
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        if op.k == K::One {
            // a first query may set something up
            let _ = a.an.one(op.arg(0), op.arg(1).max(1));
            let before = alloc::live(1);
            let _ = a.an.one(op.arg(0), op.arg(1).max(1));
            if alloc::live(1) != before {
                return viol("query-leak", format!("query {} changed the memory in use from {:?} to {:?}", op.arg(0), before, alloc::live(1)));
            }
            continue;
        }
        let before = alloc::live(1).0;
        a.step(op).map_err(|v| at(v, i, op))?;
        let now = alloc::live(1).0;
        let m = &a.m;
        let mut bound = base + 2048;
        if m.window != if has(m.mode, model::S) { 3000 } else { 400 } {
            bound += m.ring() as i64 * m.ch as i64 * 8;
        }
        let limited = m.history != u64::MAX;
        if limited {
            most = most.max(m.history);
        }
        if !has(m.mode, model::HIST) {
            if has(m.mode, model::I) {
                if !limited {
                    continue;
                }
                bound += 3 * 8 * (most / 100 + 8) as i64;
            }
            if has(m.mode, model::LRA) {
                if !limited {
                    continue;
                }
                bound += 3 * 8 * (most / 3000 + 8) as i64;
            }
        }
        ctx.checks += 1;
        ctx.dig.add(now as u64);
        if op.k == K::Soak {
            ctx.nontrivial |= a.frames > 0;
            ctx.count("soaked_blocks", op.arg(0).max(0) as u64);
            if now > bound {
                return viol(
                    "unbounded",
                    format!("{now} bytes in use after {} frames (before: {before}), which should be bounded by {bound}", a.frames),
                )
                .map_err(|v| at(v, i, op));
            }
        }
    }
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    Ok(())
}

fn exec_p17_cycle(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, false)?;
    let start = s.ops.iter().position(|o| o.k == K::Phase).unwrap_or(s.ops.len());
    for (i, op) in s.ops[..start].iter().enumerate() {
        count_op(ctx, op);
        a.step(op).map_err(|v| at(v, i, op))?;
    }
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    if start >= s.ops.len() {
        return Ok(());
    }
    let times = s.ops[start].arg(0).clamp(4, 500);
    let mut after = vec![];
    for _ in 0..times {
        for op in &s.ops[start + 1..] {
            match op.k {
                K::Bad => {
                    let _ = bad(&mut a.an, &a.m, op);
                }
                K::One => {
                    let _ = a.an.one(op.arg(0), op.arg(1).max(1));
                    let before = alloc::live(1);
                    let _ = a.an.one(op.arg(0), op.arg(1).max(1));
                    if alloc::live(1) != before {
                        return viol("query-leak", format!("query {} changed the memory in use", op.arg(0)));
                    }
                }
                K::Add | K::Soak | K::Seed => (),
                _ => {
                    a.step(op)?;
                }
            }
        }
        after.push(alloc::live(1));
        ctx.checks += 1;
    }
    ctx.nontrivial = a.frames > 0 && s.ops.len() > start + 1;
    ctx.count("cycles", times as u64);
    let (first, last) = (after[1], after[after.len() - 1]);
    if last.0 > first.0 + 256 || last.1 > first.1 + 4 {
        return viol(
            "accumulates",
            format!("{first:?} (bytes, allocations) after two and {last:?} after {times} repetitions of the same operations"),
        );
    }
    Ok(())
}

fn exec_p17_crash(s: &Scen, ctx: &mut Ctx) -> Res {
    let cell = std::sync::Mutex::new((Ctx::new(), Ok(())));
    let mut points = 0;
    let mut next = 0;
    // every crash ends one life of the worker, and the next one starts over
    for life in 0..5 {
        let body = || {
            let mut c = Ctx::new();
            let res = (|| -> Res {
                let mut a = pair(s, 1, false)?;
                for op in &s.ops {
                    match op.k {
                        K::Bad => {
                            let _ = bad(&mut a.an, &a.m, op);
                        }
                        K::Query => {
                            let o = a.an.observe(&op.a);
                            c.see(&o);
                        }
                        _ => {
                            a.step(op)?;
                        }
                    }
                }
                c.sim_ms += a.sim_ms;
                c.frames += a.frames;
                Ok(())
            })();
            *cell.lock().unwrap() = (c, res);
        };
        let rep = sched::run(vec![(true, Box::new(body))], &s.sw, points, next);
        points = rep.points;
        next = rep.next;
        ctx.report(&rep);
        let crashed = rep.crashes > 0;
        for r in rep.results {
            if let Err(p) = r {
                if !p.is::<sched::SimCrash>() {
                    resume_unwind(p);
                }
            }
        }
        if !crashed {
            let (c, res) = std::mem::replace(&mut *cell.lock().unwrap(), (Ctx::new(), Ok(())));
            ctx.merge(c);
            ctx.nontrivial |= life > 0;
            res?;
            break;
        }
        leaked(&[1], ctx)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P18

pub fn gen_p18(r: &mut Rng, s: &mut Scen) {
    let must = r.pick(&[0, model::I, model::TP, model::I | model::LRA, model::TP | model::I | model::LRA]);
    let c = setup(r, s, must, 16);
    let frames = frames_for(r, &c, s) / 2;
    gen::segments(r, s, frames, c.s100, true);
    gen::history(r, s, 0, &c, frames, &Prof { query: 0, ..MIXED });
    s.ops.pop();
    let n = r.range(5, 60);
    let ch = c.ch as i64;
    sprinkle(r, s, n, |r| {
        let q = r.range(0, 14);
        let a = match q {
            2 => gen::window_ms(r, 3000),
            _ => r.range(0, ch + 1),
        };
        Op::new(K::One, 0, &[q, a, r.range(1, 3)])
    });
    if r.chance(1, 2) {
        // the analyzer against one never asked before
        let n = r.range(1, 3);
        sprinkle(r, s, n, |_| Op::new(K::Query, 0, &[]));
    }
    if r.chance(1, 2) {
        let n = r.range(1, 3);
        sprinkle(r, s, n, |r| Op::new(K::Phase, 0, &[r.range(2, 4), r.below(1 << 30) as i64, r.range(3, 25)]));
        schedule(r, s, 2000);
    }
}

/// A random schedule for up to this many preemption points.
pub fn schedule(r: &mut Rng, s: &mut Scen, horizon: i64) {
    let gap = r.logrange(1, (horizon / 8).max(2));
    let n = if r.chance(1, 4) { r.range(1, 4) } else { r.range(3, 200) };
    let mut p = if r.chance(1, 2) { 0 } else { r.range(0, horizon / 2) };
    for _ in 0..n {
        p += 1 + r.range(0, 2 * gap);
        s.sw.push((p as u64, r.below(16) as u32));
    }
    if r.chance(1, 2) {
        // and between two instructions
        for _ in 0..r.range(1, 3) {
            let shared = r.chance(1, 2);
            let k = if shared { r.logrange(1, 24) } else { r.logrange(1, 1500) };
            let e = crate::step::entry(shared, k as u32, r.below(8) as u32);
            s.sw.push((r.range(0, horizon.min(p)) as u64, e));
        }
    }
    s.sw.sort();
}

pub fn exec_p18(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, false)?;
    let fresh = s.ops.iter().filter(|o| o.k == K::Query).take(4).count() as u32;
    // one for every comparison, and the last for the end
    let mut bs = (0..=fresh).map(|k| pair(s, 2 + k, false)).collect::<Result<Vec<_>, _>>()?;
    let (mut points, mut next) = (0, 0);
    let mut asked = 0;
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        (|| -> Res {
            match op.k {
                K::One => {
                    let first = a.an.one(op.arg(0), op.arg(1));
                    for v in &first {
                        ctx.dig.add(*v);
                    }
                    for _ in 1..op.arg(2).clamp(1, 5) {
                        ctx.checks += 1;
                        let again = a.an.one(op.arg(0), op.arg(1));
                        if again != first {
                            return viol("not-repeatable", format!("query {} answered {:x?} and then {:x?}", op.arg(0), first, again));
                        }
                    }
                    asked += 1;
                }
                K::Phase => {
                    // the same queries by several threads at once
                    let n = op.arg(2).clamp(1, 60);
                    let qs: Vec<(i64, i64)> = (0..n)
                        .map(|k| {
                            let h = mix2(op.arg(1) as u64, k as u64);
                            ((h % 15) as i64, 1 + (h >> 20) as i64 % 500)
                        })
                        .collect();
                    let want: Vec<Vec<u64>> = qs.iter().map(|q| a.an.one(q.0, q.1)).collect();
                    let tasks = op.arg(0).clamp(1, 4) as usize;
                    let got: Vec<std::sync::Mutex<Vec<Vec<u64>>>> =
                        (0..tasks).map(|_| Default::default()).collect();
                    let an = &a.an;
                    let rep = {
                        let mut list: Vec<sched::Task> = vec![];
                        for (t, g) in got.iter().enumerate() {
                            let qs = &qs;
                            list.push((
                                false,
                                Box::new(move || {
                                    let mut out = vec![];
                                    for k in 0..qs.len() {
                                        let q = qs[(k + t * 3) % qs.len()];
                                        out.push(an.one(q.0, q.1));
                                    }
                                    *g.lock().unwrap() = out;
                                }),
                            ));
                        }
                        sched::run(list, &s.sw, points, next)
                    };
                    points = rep.points;
                    next = rep.next;
                    ctx.report(&rep);
                    for r in rep.results {
                        if let Err(p) = r {
                            resume_unwind(p);
                        }
                    }
                    for (t, g) in got.iter().enumerate() {
                        let g = g.lock().unwrap();
                        for k in 0..qs.len() {
                            ctx.checks += 1;
                            let j = (k + t * 3) % qs.len();
                            if g.get(k) != Some(&want[j]) {
                                return viol("concurrent-query", format!("query {:?} answered {:x?} concurrently but {:x?} alone", qs[j], g.get(k), want[j]));
                            }
                        }
                    }
                    asked += n;
                }
                K::Query => {
                    if bs.len() > 1 {
                        let b = bs.remove(0);
                        let w = [3, 400, a.m.window as i64];
                        ctx.checks += 1;
                        compare(&a.an.observe(&w), &b.an.observe(&w), ALL, EXACT, &[])?;
                        asked += 1;
                    }
                }
                _ => {
                    a.step(op)?;
                    for b in bs.iter_mut() {
                        b.step(op)?;
                    }
                }
            }
            Ok(())
        })()
        .map_err(|v| at(v, i, op))?;
    }
    let b = bs.remove(0);
    ctx.nontrivial = asked > 0 && a.frames > 0;
    ctx.count("queries", asked as u64);
    let w = [3, 400, a.m.window as i64];
    let (oa, ob) = (a.an.observe(&w), b.an.observe(&w));
    ctx.see(&oa);
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    compare(&oa, &ob, ALL, EXACT, &[])?;
    // and the comparison above was a query as well
    let oa2 = a.an.observe(&w);
    compare(&oa2, &oa, ALL, EXACT, &[])
}

// ---------------------------------------------------------------- P20

pub fn gen_p20(r: &mut Rng, s: &mut Scen) {
    let must = r.pick(&[0, model::I, model::TP, model::I | model::LRA, model::TP | model::I, model::TP | model::I | model::LRA]);
    let rate = if r.chance(1, 6) { r.pick(&[96_000, 176_400, 192_000, 48_000]) } else { gen::any_rate(r) };
    let ch = gen::channels(r);
    let c = gen::config(r, s, must, rate, ch);
    s.set("grid", 1);
    s.set("solo", if c.ch >= 2 && c.ch <= 6 && r.chance(1, 2) { 1 } else { 0 });
    let frames = frames_for(r, &c, s) / 2;
    gen::segments(r, s, frames, c.s100, false);
    for g in s.segs.iter_mut() {
        // make the channels different
        if r.chance(1, 2) {
            g.mask = r.next() | (1 << r.below(c.ch as u64));
        }
        if g.kind == 5 && r.chance(1, 3) {
            g.lvl = 600;
        }
    }
    let prof = Prof {
        chparams: 2,
        rates: true,
        ..MIXED
    };
    gen::history(r, s, 0, &c, frames, &prof);
    let solo = s.get("solo") != 0;
    for op in s.ops.iter_mut() {
        // a mix of everything
        if op.k == K::Add || op.k == K::Seed {
            op.a[1] = gen::fmt(r);
            op.a[2] = r.range(0, 1);
        }
        if op.k == K::ChParams && solo {
            op.a[0] = c.ch as i64;
        }
    }
}

pub fn exec_p20(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, true)?;
    let mut b = pair(s, 2, false)?;
    let n = a.m.ch;
    let mut solos: Vec<Pair> = vec![];
    if s.get("solo") != 0 && n > 1 {
        for c in 0..n {
            let mut p = Pair::new(10 + c, 1, a.m.rate, a.m.mode, stream(s), false)?;
            let map = [a.m.map[c as usize]];
            let r = p.an.set_map(&map);
            p.ok("set_channel_map", r)?;
            solos.push(p);
        }
    }
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        (|| -> Res {
            match op.k {
                K::Add | K::Seed => {
                    let k = op.arg(0).clamp(0, 2_000_000);
                    let d = a.stream.take(k, a.m.ch);
                    b.stream.pos = a.stream.pos;
                    let one: Vec<Vec<f64>> = if solos.is_empty() { vec![] } else { planes(&d, a.m.ch as usize) };
                    if op.k == K::Add {
                        a.feed(&d, op.arg(1), op.arg(2))?;
                        b.feed(&d, 3, 0)?;
                        for (p, d) in solos.iter_mut().zip(&one) {
                            p.feed(d, 3, 0)?;
                        }
                    } else {
                        a.feed_seed(&d, op.arg(1), op.arg(2))?;
                        b.feed_seed(&d, 3, 0)?;
                        for (p, d) in solos.iter_mut().zip(&one) {
                            p.feed_seed(d, 3, 0)?;
                        }
                    }
                    ctx.count(
                        &format!("format_{}_{}", ["i16", "i32", "f32", "f64"][op.arg(1).rem_euclid(4) as usize], if op.arg(2) & 1 == 0 { "interleaved" } else { "planar" }),
                        1,
                    );
                }
                K::Query => (),
                K::ChParams if !solos.is_empty() && op.arg(0) != n as i64 => (),
                _ => {
                    if !a.step(op)? {
                        return Ok(());
                    }
                    b.step(op)?;
                    let map = a.m.map.clone();
                    for (c, p) in solos.iter_mut().enumerate() {
                        match op.k {
                            K::SetMap | K::SetCh => {
                                let r = p.an.set_map(&map[c..c + 1]);
                                p.ok("set_channel_map", r)?;
                            }
                            K::ChParams => {
                                p.step(&Op::new(K::ChParams, 0, &[1, op.arg(1)]))?;
                            }
                            _ => {
                                p.step(op)?;
                            }
                        }
                    }
                }
            }
            if a.m.ring() * a.m.ch as u64 > 30_000 && i % 3 != 0 {
                return Ok(());
            }
            let w = [20, 400, a.m.window as i64];
            let (oa, ob) = (a.an.observe(&w), b.an.observe(&w));
            ctx.see(&oa);
            let cats = safe_cats(&a.m, ALL, &mut ctx.skips);
            let cats = if op.k == K::Add && op.arg(0) == 0 { cats & !PREV } else { cats };
            let tol = Tol {
                lu: if a.m.tol > 1e-5 { 1e-4 } else { 1e-8 },
                floor: a.m.floor(),
                tp: 1e-5,
                tp_abs: 1e-35,
                sp: 1e-12,
            };
            compare(&oa, &ob, cats, tol, &a.m.maxabs)?;
            check_model(&oa, &a.m, ALL & !PREV, &mut ctx.skips)?;
            if !solos.is_empty() {
                let os: Vec<Obs> = solos.iter().map(|p| p.an.observe(&w)).collect();
                for c in 0..n as usize {
                    let mut o = os[c].clone();
                    o.sp = vec![oa.sp[c]];
                    o.tp = vec![oa.tp[c]];
                    compare(&o, &os[c], PEAK, tol, &a.m.maxabs[c..])
                        .map_err(|v| Viol { class: format!("mixed-{}", v.class.split('[').next().unwrap_or("")), msg: format!("channel {c} alone: {}", v.msg) })?;
                }
                let e = |v: &R| match v {
                    Ok(v) => 10f64.powf((v + 0.691) / 10.0),
                    Err(_) => 0.0,
                };
                let sum: f64 = os.iter().map(|o| e(&o.mom)).sum();
                let all = e(&oa.mom);
                let lu = if a.m.tol > 1e-5 { 1e-3 } else { 1e-7 };
                if (sum - all).abs() > lu * sum.max(all) + a.m.floor() {
                    return viol("mixed-momentary", format!("the channels add up to {sum:e} but together they give {all:e}"));
                }
                ctx.count("probe_solo_comparisons", 1);
            }
            Ok(())
        })()
        .map_err(|v| at(v, i, op))?;
    }
    ctx.nontrivial = a.m.maxabs.iter().any(|v| *v > 0.0);
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    Ok(())
}

#[allow(dead_code)]
pub fn quiet<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    catch_unwind(AssertUnwindSafe(f))
}
