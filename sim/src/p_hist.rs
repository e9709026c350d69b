//! Properties about one analyzer and its history, decided against the reference model:
//! P01, P02, P03, P04, P05, P10, P11, P19.

use crate::ctx::{Ctx, Res};
use crate::gen::{self, Prof};
use crate::inst::*;
use crate::model::{self, has};
use crate::rng::Rng;
use crate::scen::{Op, Scen, K};
use crate::signal::{Buf, Stream};

fn frames_for(r: &mut Rng, c: &gen::Cfg, s: &Scen) -> i64 {
    let f = gen::budget(r, c);
    if s.get("big") != 0 {
        (f * 4).min(2_500_000 / c.ch as i64)
    } else {
        f
    }
}

/// Hours of audio at a rate that makes them cheap, looked at only a few times.
fn gen_marathon(prop: &str, r: &mut Rng, s: &mut Scen) {
    let rate = loop {
        let rate = r.range(84, 150) as u32;
        if model::well_behaved(rate) {
            break rate;
        }
    };
    let must = match prop {
        "P03" => model::I,
        "P04" => model::LRA,
        _ => r.pick(&[model::I, model::LRA, model::I | model::LRA]),
    };
    let ch = r.pick(&[1, 1, 1, 2]);
    let mut c = gen::config(r, s, must, rate, ch);
    // a signal that repeats every 100 ms fills a few bins evenly and can be told from rounding
    let periodic = has(c.mode, model::HIST) || r.chance(1, 2);
    if prop == "P11" {
        c.mode &= !model::HIST;
        s.set("mode", c.mode as i64);
    }
    let blocks = match (prop, r.below(10)) {
        ("P04", 0) => r.range(660_000, 720_000),
        (_, 0..=3) => r.range(66_000, 140_000),
        (_, 4..=6) => r.range(6_000, 20_000),
        _ => r.logrange(2_000, 70_000),
    };
    let total = blocks * c.s100;
    let n = r.range(1, 3);
    for i in 0..n {
        let mut g = gen::seg(r, total / n + c.s100, false);
        g.kind = if periodic { 1 } else { r.pick(&[1, 2, 6, 8]) };
        if periodic {
            g.f = 10_000 * r.range(1, 3) / c.s100;
            // the tone must repeat exactly
            if g.f * c.s100 % 10_000 != 0 {
                g.kind = 7;
            }
        }
        g.mask = u64::MAX;
        g.lvl = r.range(-3500, -200) + if i == 0 { 0 } else { r.range(-1500, 0) };
        s.segs.push(g);
    }
    s.set("every", 0);
    let mut left = total;
    while left > 0 {
        let k = r.logrange(total / 20, total).min(left).min(3_900_000);
        let (f, l) = (gen::fmt(r), r.range(0, 1));
        s.op(K::Add, 0, &[k, f, l]);
        left -= k;
        if r.chance(1, 3) {
            gen::query(r, s, 0, 3000);
        }
        if prop == "P11" && r.chance(1, 2) {
            let h = match r.below(3) {
                0 => gen::history_ms(r),
                _ => r.logrange(3000, blocks * 200),
            };
            s.op(K::MaxHist, 0, &[h]);
        }
    }
    gen::query(r, s, 0, 3000);
}

pub fn gen_model(prop: &str, r: &mut Rng, s: &mut Scen) {
    if matches!(prop, "P03" | "P04" | "P11") && r.chance(1, if prop == "P04" { 100 } else { 60 }) {
        return gen_marathon(prop, r, s);
    }
    let (must, prof) = match prop {
        "P02" => (
            0,
            Prof {
                query: 60,
                reset: 3,
                seed: 4,
                map: 6,
                chparams: 4,
                maxwin: 10,
                maxhist: 0,
                rates: true,
            },
        ),
        "P03" => (
            model::I,
            Prof {
                query: 20,
                reset: 2,
                seed: 4,
                map: 5,
                chparams: 3,
                maxwin: 4,
                maxhist: 3,
                rates: true,
            },
        ),
        "P04" => (
            model::LRA,
            Prof {
                query: 20,
                reset: 2,
                seed: 3,
                map: 3,
                chparams: 3,
                maxwin: 4,
                maxhist: 6,
                rates: true,
            },
        ),
        "P06" => (
            r.pick(&[0, model::I, model::TP, model::TP | model::I, model::S, model::SP | model::LRA]),
            Prof {
                query: 20,
                reset: 4,
                seed: 40,
                map: 5,
                chparams: 3,
                maxwin: 3,
                maxhist: 1,
                rates: true,
            },
        ),
        "P05" => (
            if r.chance(2, 3) { model::TP } else { model::SP },
            Prof {
                query: 12,
                reset: 4,
                seed: 6,
                map: 5,
                chparams: 6,
                maxwin: 3,
                maxhist: 1,
                rates: true,
            },
        ),
        "P10" => (
            r.pick(&[0, model::I, model::LRA | model::I, model::TP, model::S | model::SP, model::I | model::TP | model::LRA]),
            Prof {
                query: 30,
                reset: 4,
                seed: 5,
                map: 14,
                chparams: 18,
                maxwin: 14,
                maxhist: 6,
                rates: true,
            },
        ),
        _ => (
            // P11
            r.pick(&[model::I, model::I | model::LRA, model::LRA, model::I | model::S]),
            Prof {
                query: 20,
                reset: 2,
                seed: 1,
                map: 2,
                chparams: 2,
                maxwin: 2,
                maxhist: 16,
                rates: true,
            },
        ),
    };
    let rate = match prop {
        "P05" => match r.below(8) {
            0..=3 => gen::cheap_rate(r),
            4 => r.pick(&[95_999, 96_000, 96_001, 191_999, 192_000, 192_001]),
            5 => r.pick(&[96_000, 176_400, 192_000, 384_000]),
            _ => gen::any_rate(r),
        },
        "P03" | "P04" | "P11" if r.chance(3, 4) => gen::cheap_rate(r),
        _ => gen::any_rate(r),
    };
    let ch = if prop == "P05" || prop == "P06" || prop == "P10" || prop == "P02" {
        gen::channels(r)
    } else {
        gen::channels(r).min(6)
    };
    let c = gen::config(r, s, must, rate, ch);
    let mut c = c;
    if prop == "P11" && r.chance(4, 5) {
        // a limit only matters without the histogram
        c.mode &= !model::HIST;
        s.set("mode", c.mode as i64);
    }
    let mut frames = frames_for(r, &c, s);
    if prop == "P11" || prop == "P04" {
        frames *= 2;
    }
    s.set("every", if r.chance(2, 3) { 1 } else { 0 });
    let exact = matches!(prop, "P03" | "P04" | "P11") && r.chance(1, 5) && model::well_behaved(c.rate);
    if exact {
        gen::programme(r, s, c.rate, c.s100, frames);
    } else {
        gen::segments(r, s, frames, c.s100, prop != "P02");
    }
    let faint = matches!(prop, "P02" | "P05") && r.chance(1, 12);
    if faint {
        // far below anything audible, but not silence
        let d = if r.chance(1, 5) { r.range(72_000, 88_000) } else { r.logrange(3000, 26_000) };
        for g in s.segs.iter_mut() {
            g.lvl -= d;
        }
    }
    gen::history(r, s, 0, &c, frames, &prof);
    if faint && r.chance(3, 4) {
        // integers would round all of it to zero
        for op in s.ops.iter_mut().filter(|op| matches!(op.k, K::Add | K::Seed)) {
            op.a[1] |= 2;
        }
    }
    if exact && r.chance(3, 4) {
        // 16 bits are too coarse for exact levels near the absolute gate
        for op in s.ops.iter_mut().filter(|op| matches!(op.k, K::Add | K::Seed)) {
            op.a[1] = op.a[1].max(1);
        }
    }
    if matches!(prop, "P03" | "P04" | "P11") && r.chance(1, 4) {
        // many blocks of the same signal
        let n = r.logrange(50, 2500);
        let f = gen::fmt(r);
        s.op(K::Soak, 0, &[n.min(300_000 / (c.s100 * c.ch as i64)), f, 0]);
        gen::query(r, s, 0, 3000);
        let s2 = gen::history_ms(r);
        if prop == "P11" {
            s.op(K::MaxHist, 0, &[s2]);
        }
        s.op(K::Add, 0, &[c.s100 * r.range(1, 40), f, 1]);
        gen::query(r, s, 0, 3000);
    }
}

fn cats_of(prop: &str) -> u32 {
    match prop {
        "P02" => WIN,
        "P03" => INT,
        "P04" => RNG,
        "P05" => PEAK | PREV,
        "P10" | "P06" => ALL,
        _ => INT | RNG | CONF,
    }
}

pub fn count_op(ctx: &mut Ctx, op: &Op) {
    ctx.count(&format!("op_{}", op.k.name()), 1);
}

pub fn stream<'a>(s: &'a Scen) -> Stream<'a> {
    Stream::new(&s.segs, s.get("grid") != 0)
}

pub fn pair<'a>(s: &'a Scen, acct: u32, modelled: bool) -> Result<Pair<'a>, Viol> {
    Pair::new(
        acct,
        s.get("ch").clamp(1, 64) as u32,
        s.get("rate").clamp(16, 2_822_400) as u32,
        s.get("mode") as u8 & 0x7f | 1,
        stream(s),
        modelled,
    )
}

pub fn at(v: Viol, i: usize, op: &Op) -> Viol {
    Viol {
        class: v.class,
        msg: format!("after operation {i} ({} {:?}): {}", op.k.name(), op.a, v.msg),
    }
}

pub fn exec_model(prop: &str, s: &Scen, ctx: &mut Ctx) -> Res {
    let cats = cats_of(prop);
    let mut p = pair(s, 1, true)?;
    let every = s.get("every") != 0;
    let wins = |p: &Pair| [1, 100, 400, p.m.window as i64];
    let look = |p: &Pair, w: &[i64], ctx: &mut Ctx| -> Res {
        let o = p.an.observe(w);
        ctx.see(&o);
        check_model(&o, &p.m, cats, &mut ctx.skips)
    };
    look(&p, &wins(&p), ctx)?;
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        let r = if op.k == K::Query {
            look(&p, &op.a, ctx)
        } else {
            let n0 = (p.m.n_blocks, p.m.n_st);
            p.step(op).map_err(|v| at(v, i, op))?;
            if op.k != K::Add && op.k != K::Soak && op.k != K::Seed {
                if p.m.frames > 0 || n0.0 > 0 {
                    ctx.nontrivial |= prop == "P10";
                }
            }
            let expensive = cats & WIN != 0 && p.m.ring() * p.m.ch as u64 > 20_000;
            if every && !(expensive && op.k == K::Add) {
                look(&p, if cats & WIN != 0 { &op.a } else { &[] }, ctx)
            } else {
                Ok(())
            }
        };
        r.map_err(|v| at(v, i, op))?;
        ctx.nontrivial |= match prop {
            "P02" => p.m.frames > p.m.s100 * 4,
            "P03" => p.m.n_blocks > 2,
            "P04" => p.m.n_st >= 1,
            "P06" => op.k == K::Seed && p.m.frames > 0,
            "P05" => p.m.maxabs.iter().any(|v| *v > 0.0),
            "P11" => {
                p.m.history < u64::MAX
                    && (p.m.n_blocks > p.m.history / 100 || p.m.n_st > p.m.history / 3000)
            }
            _ => false,
        };
        if p.m.frames > p.m.ring() {
            ctx.count("probe_ring_wrapped", 1);
        }
    }
    look(&p, &wins(&p), ctx)?;
    ctx.sim_ms += p.sim_ms;
    ctx.frames += p.frames;
    ctx.count("probe_blocks", p.m.n_blocks);
    ctx.count("probe_shortterm_values", p.m.n_st);
    ctx.count("probe_blocks_below_absolute_gate", p.m.n_gated_out);
    let st = p.m.stored_blocks();
    if let (true, Some((n, _))) = (has(p.m.mode, model::I), model::gate(&[&st], 0.0).count) {
        let total: u64 = st.iter().map(|x| x.1).sum();
        ctx.count("probe_blocks_below_relative_gate", total - n.min(total));
    }
    Ok(())
}

// ---------------------------------------------------------------- P01

pub fn gen_p01(r: &mut Rng, s: &mut Scen) {
    let must = r.pick(&[
        0,
        model::I,
        model::I | model::LRA,
        model::TP | model::I,
        model::I | model::LRA | model::TP,
    ]);
    let rate = if r.chance(1, 8) {
        r.pick(&[96_000, 192_000, 48_000, 176_400])
    } else {
        gen::any_rate(r)
    };
    let giant = r.chance(1, 8);
    let (rate, must) = if giant {
        let rate = if r.chance(1, 6) { 48_000 } else { gen::cheap_rate(r) };
        (rate, if r.chance(1, 2) { r.pick(&[0, model::SP, model::TP]) } else { must })
    } else {
        (rate, must)
    };
    let ch = if giant { r.pick(&[1, 1, 2, 3]) } else { gen::channels(r) };
    let c = gen::config(r, s, must, rate, ch);
    let frames = if giant {
        // one call with minutes or hours of audio
        let hi = if r.chance(1, 8) { 1_200_000 } else { 300_000 };
        r.logrange(66_000, hi) / ch as i64
    } else {
        frames_for(r, &c, s)
    };
    gen::segments(r, s, frames, c.s100, true);
    let mut left = frames;
    let mut cu = gen::cur(&c);
    if giant {
        let first = if r.chance(1, 2) { r.range(0, 40 * c.s100).min(left) } else { 0 };
        for k in [first, left - first] {
            let (sa, sb) = (0, r.pick(&[2, 3, 4, 5]));
            let (a, b) = (r.below(1 << 30) as i64, r.below(1 << 30) as i64);
            let (f, l) = (gen::fmt(r), r.range(0, 1));
            s.op(K::Add, 0, &[k, f, l, sa, a, sb, b]);
        }
        left = 0;
    }
    let with = [r.chance(1, 3), r.chance(1, 4), r.chance(1, 4), r.chance(1, 3)];
    let mut n = 0;
    while left > 0 && n < 60 {
        n += 1;
        match r.below(12) {
            0 if with[0] => {
                let k = r.range(0, 2 * cu.s100).min(left);
                let (sa, sb) = (r.range(0, 6), r.range(0, 6));
                let (a, b) = (r.below(1 << 30) as i64, r.below(1 << 30) as i64);
                let (f, l) = (gen::fmt(r), r.range(0, 1));
                s.op(K::Seed, 0, &[k, f, l, sa, a, sb, b]);
            }
            1 if with[1] => gen::reconf(r, s, 0, K::MaxWin, &mut cu, false),
            2 if with[2] => gen::reconf(r, s, 0, K::ChParams, &mut cu, true),
            3 if with[3] => {
                let k = r.pick(&[K::SetMap, K::SetMap, K::Reset, K::MaxHist]);
                gen::reconf(r, s, 0, k, &mut cu, false)
            }
            _ => {
                let k = if r.chance(1, 3) {
                    r.logrange(1, left)
                } else {
                    gen::delivery(r, cu.s100)
                }
                .min(left);
                let (sa, sb) = (r.range(0, 6), r.range(0, 6));
                let (a, b) = (r.below(1 << 30) as i64, r.below(1 << 30) as i64);
                let (f, l) = (gen::fmt(r), r.range(0, 1));
                s.op(K::Add, 0, &[k, f, l, sa, a, sb, b]);
                left -= k.max(1);
            }
        }
    }
}

/// Leave out what rounding may decide.
pub fn safe_cats(m: &model::Model, cats: u32, skips: &mut u64) -> u32 {
    let mut c = cats;
    if c & INT != 0 && has(m.mode, model::I) {
        let s = m.stored_blocks();
        if m.marg_blocks || model::gate(&[&s], m.eps()).global.is_none() {
            c &= !INT;
            *skips += 1;
        }
    }
    if c & RNG != 0 && has(m.mode, model::LRA) {
        let s = m.stored_st();
        if m.marg_st || model::range(&[&s], m.eps()).is_none() {
            c &= !RNG;
            *skips += 1;
        }
    }
    c
}

pub fn exec_p01(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut a = pair(s, 1, true)?;
    let mut b = pair(s, 2, false)?;
    let mut fragments = 0u64;
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        match op.k {
            K::Add | K::Seed => {
                let n = op.arg(0).clamp(0, 4_000_000);
                let ch = a.m.ch;
                let data = a.stream.take(n, ch);
                b.stream.pos = a.stream.pos;
                let s100 = a.m.s100 as i64;
                let edge = s100 - (a.m.frames as i64 % s100);
                let pa = gen::parts(n, op.arg(3).clamp(0, 6), op.arg(4), s100, edge);
                let pb = gen::parts(n, op.arg(5).clamp(0, 6), op.arg(6), s100, edge);
                let mut go = |p: &mut Pair, parts: &[i64]| -> Res {
                    let mut pos = 0usize;
                    fragments += parts.len() as u64;
                    for k in parts {
                        let e = pos + (*k * ch as i64) as usize;
                        if op.k == K::Add {
                            p.feed(&data[pos..e], op.arg(1), op.arg(2))?
                        } else {
                            p.feed_seed(&data[pos..e], op.arg(1), op.arg(2))?
                        }
                        pos = e;
                    }
                    Ok(())
                };
                go(&mut a, &pa).map_err(|v| at(v, i, op))?;
                go(&mut b, &pb).map_err(|v| at(v, i, op))?;
            }
            _ => {
                // what one may do is decided by the model
                if a.step(op).map_err(|v| at(v, i, op))? {
                    b.step(op).map_err(|v| at(v, i, op))?;
                }
            }
        }
        let expensive = a.m.ring() * a.m.ch as u64 > 100_000 && i + 1 < s.ops.len() && i % 5 != 4;
        if expensive {
            continue;
        }
        let w = [7, 100, 1000, a.m.window as i64];
        let (oa, ob) = (a.an.observe(&w), b.an.observe(&w));
        ctx.see(&oa);
        let cats = safe_cats(&a.m, ALL & !PREV, &mut ctx.skips);
        let tol = Tol {
            lu: if a.m.tol > 1e-5 { 1e-4 } else { 1e-7 },
            floor: a.m.floor(),
            tp: 1e-5,
            tp_abs: 1e-35,
            sp: 1e-12,
        };
        compare(&oa, &ob, cats, tol, &a.m.maxabs).map_err(|v| at(v, i, op))?;
        if op.k == K::Add {
            check_model(&oa, &a.m, PREV, &mut ctx.skips).map_err(|v| at(v, i, op))?;
        }
    }
    ctx.nontrivial = fragments > 3 && a.m.maxabs.iter().any(|v| *v > 0.0);
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    ctx.count("fragments", fragments);
    ctx.count("probe_blocks", a.m.n_blocks);
    Ok(())
}

// ---------------------------------------------------------------- P19

fn odd_rate(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => r.pick(&[16, 17, 18, 19, 20, 21, 24, 25, 26, 34, 35, 44, 45]),
        1 => r.range(16, 100),
        2..=3 => r.logrange(16, 4000),
        4 => r.pick(&gen::NAMED_RATES) as i64,
        5 => r.logrange(4000, 2_822_400),
        6 => r.pick(&[76, 77, 3363, 3364, 1681, 1682, 38, 39]),
        7 => 2_822_400 - r.range(0, 2),
        _ => gen::cheap_rate(r) as i64,
    }
}

pub fn gen_p19(r: &mut Rng, s: &mut Scen) {
    let mode = gen::mode(r, 0) as i64;
    let mut rate = odd_rate(r);
    let mut ch = if r.chance(1, 6) {
        r.range(1, 64)
    } else {
        gen::channels(r) as i64
    };
    if rate > 100_000 {
        ch = ch.min(r.pick(&[1, 2, 8]));
        // within the simulated memory
        ch = ch.min(200_000_000 / (model::ring_frames(rate as u32, 3000) as i64 * 8));
    }
    s.set("ch", ch);
    s.set("rate", rate);
    s.set("mode", mode);
    let len = 60_000 / ch;
    gen::segments(r, s, len, (rate + 5) / 10, true);
    let mut left = len;
    let mut win = 3000;
    for _ in 0..r.range(4, 60) {
        let s100 = (rate + 5) / 10;
        match r.below(14) {
            0 => {
                // creation of anything
                let c = r.pick(&[0, 1, 2, 64, 65, 66, 4294967295, 3, 128]);
                let q = match r.below(3) {
                    0 => r.pick(&[0, 1, 15, 16, 2_822_400, 2_822_401, 4294967295]),
                    _ => odd_rate(r),
                };
                let m = r.range(0, 127);
                s.op(K::New, 0, &[c, q, m]);
            }
            1 => {
                rate = odd_rate(r);
                ch = if r.chance(1, 2) {
                    ch
                } else {
                    gen::channels(r) as i64
                };
                if rate > 100_000 {
                    ch = ch.min(8);
                }
                s.op(K::ChParams, 0, &[ch, rate]);
            }
            2 => {
                win = match r.below(5) {
                    0 => r.range(0, 500),
                    1 => r.range(2500, 3500),
                    2 => r.logrange(400, 100_000),
                    3 => r.range(0, 50) * 100,
                    _ => r.range(3000, 6000),
                };
                s.op(K::MaxWin, 0, &[win]);
            }
            3 => {
                let h = gen::history_ms(r);
                s.op(K::MaxHist, 0, &[h])
            }
            4 => s.op(K::Reset, 0, &[]),
            5 => {
                let v = r.range(0, 1000);
                s.op(K::SetMap, 0, &[v])
            }
            6 => {
                let k = r.range(0, 300).min(left.max(0));
                let (f, l) = (gen::fmt(r), r.range(0, 1));
                s.op(K::Seed, 0, &[k, f, l])
            }
            7..=9 => gen::query(r, s, 0, win.max(400)),
            _ => {
                let k = gen::delivery(r, s100).min(left.max(0));
                let (f, l) = (gen::fmt(r), r.range(0, 1));
                s.op(K::Add, 0, &[k, f, l]);
                left -= k.max(1);
            }
        }
    }
    gen::query(r, s, 0, win.max(400));
}

pub fn exec_p19(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut p = pair(s, 1, false)?;
    for (i, op) in s.ops.iter().enumerate() {
        count_op(ctx, op);
        let r = (|| -> Res {
            match op.k {
                K::New => {
                    let (c, q, m) = (op.arg(0), op.arg(1), op.arg(2) as u8 & 0x7f);
                    let fine = (1..=64).contains(&c) && (16..=2_822_400).contains(&q);
                    if fine && model::ring_frames(q as u32, 3000) * c as u64 * 8 > MAX_RING_BYTES {
                        return Ok(());
                    }
                    let r = An::new(2, c as u32, q as u32, m);
                    ctx.checks += 1;
                    match r {
                        Ok(_) if !fine || m & !model::HIST == 0 => {
                            return viol("creation", format!("new({c}, {q}, {m:#x}) succeeded"))
                        }
                        Err(e) if fine && m & 1 == 1 => {
                            return viol(
                                "creation",
                                format!("new({c}, {q}, {m:#x}) failed with {}", err_name(e)),
                            )
                        }
                        Ok(a) => {
                            let e = a.get();
                            if (e.channels() as i64, e.rate() as i64, e.mode().bits()) != (c, q, m)
                            {
                                return viol("config", "new analyzer has another configuration");
                            }
                            ctx.count("creations", 1);
                        }
                        Err(_) => ctx.count("creations_refused", 1),
                    }
                }
                K::Query => answers(&p, &op.a, ctx)?,
                _ => {
                    p.step(op)?;
                    if op.k != K::Add {
                        answers(&p, &[400, p.m.window as i64], ctx)?
                    }
                }
            }
            Ok(())
        })();
        r.map_err(|v| at(v, i, op))?;
        ctx.nontrivial |= op.k == K::Add && p.frames > p.m.s100;
    }
    answers(&p, &[1, 400, p.m.window as i64], ctx)?;
    ctx.sim_ms += p.sim_ms;
    ctx.frames += p.frames;
    Ok(())
}

/// Is every enabled query answered and every other one refused?
fn answers(p: &Pair, wins: &[i64], ctx: &mut Ctx) -> Res {
    let o = p.an.observe(wins);
    // values may be anything at extreme rates, so only the outcome counts
    ctx.see(&o);
    let m = &p.m;
    let conf = (o.mode, o.ch, o.rate, &o.map, o.maxwin, o.maxhist);
    let want = (m.mode, m.ch, m.rate, &m.map, m.window, m.history);
    if conf != want {
        return viol("config", format!("configuration {conf:?} but expected {want:?}"));
    }
    let check = |what: &str, v: &R, must: Option<bool>| -> Res {
        match (v, must) {
            (Ok(_), Some(false)) => viol("not-refused", format!("{what} is not enabled but answered")),
            (Err(e), Some(true)) => viol(
                "spurious-error",
                format!(
                    "{what} failed with {} ({} ch, {} Hz, mode {:#x}, window {} ms)",
                    err_name(*e),
                    m.ch,
                    m.rate,
                    m.mode,
                    m.window
                ),
            ),
            (Err(e), _) if *e != 2 => {
                viol("wrong-error", format!("{what} failed with {}", err_name(*e)))
            }
            _ => Ok(()),
        }
    };
    let on = |f: u8| Some(has(m.mode, f));
    check("momentary", &o.mom, Some(true))?;
    let st = if has(m.mode, model::S) || m.window >= 3000 {
        Some(true)
    } else if m.window < 2700 && m.ring() < m.s100 * 30 {
        Some(false)
    } else {
        None
    };
    check("short-term", &o.st, st)?;
    for (w, v) in &o.win {
        let frames = m.rate as u64 * *w as u64 / 1000;
        let must = if *w as u64 <= m.window {
            Some(true)
        } else if *w as u64 >= 2 * m.window + 200 && frames > m.ring() + m.s100 {
            Some(false)
        } else {
            None
        };
        check(&format!("window({w})"), v, must)?;
    }
    check("global", &o.global, on(model::I))?;
    check("relative threshold", &o.relthr, on(model::I))?;
    check("range", &o.range, on(model::LRA))?;
    if !has(m.mode, model::I) && o.count.is_some() {
        return viol("not-refused", "gating block count without Mode::I");
    }
    for c in 0..m.ch as usize {
        check("sample peak", &o.sp[c], on(model::SP))?;
        check("previous sample peak", &o.psp[c], on(model::SP))?;
        check("true peak", &o.tp[c], on(model::TP))?;
        check("previous true peak", &o.ptp[c], on(model::TP))?;
    }
    Ok(())
}

#[allow(dead_code)]
pub fn unused(_: Buf) {}
