//! Properties about several analyzers and threads: P06, P07, P08, P15.

use crate::alloc;
use crate::ctx::{Ctx, Res};
use crate::gen::{self, Prof};
use crate::inst::*;
use crate::model::{self, has, Stored};
use crate::p_capi;
use crate::p_hist::{at, count_op, stream};
use crate::p_twin::{bad, bad_op, fail, schedule, sprinkle};
use crate::rng::{mix2, Rng};
use crate::sched::{self, SimCrash, Task};
use crate::scen::{Op, Scen, K};
use crate::signal::Buf;
use ebur128::EbuR128;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Unwinding of a user-supplied iterator.
pub struct UserPanic;

// ---------------------------------------------------------------- P06

pub fn gen_p06(r: &mut Rng, s: &mut Scen) {
    if r.chance(1, 3) {
        // seeding at any time of an analysis
        s.set("mid", 1);
        return crate::p_hist::gen_model("P06", r, s);
    }
    let rate = loop {
        let rate = match r.below(10) {
            0..=6 => gen::cheap_rate(r),
            7 => r.pick(&[4000, 8000, 11025]),
            8 => r.logrange(3400, 16_000) as u32,
            _ => r.pick(&[44_100, 48_000, 22_050, 32_000]),
        };
        let s100 = (rate + 5) / 10;
        if s100 >= 24 && model::tail(rate, s100) < 1e-8 {
            break rate;
        }
    };
    let ch = if r.chance(1, 6) { gen::channels(r) } else { gen::channels(r).min(6) };
    let must = if r.chance(1, 2) { model::I | model::TP } else { model::I };
    let c = gen::config(r, s, must, rate, ch);
    let per = c.s100 * c.ch as i64;
    let max_blocks = (160_000 / per).clamp(12, 600) * if s.get("big") != 0 { 2 } else { 1 };
    let total = r.logrange(10, max_blocks);
    gen::segments(r, s, total * c.s100 + c.s100, c.s100, false);
    let tasks = r.range(1, 4);
    s.set("tasks", tasks);
    s.set("map", if r.chance(1, 3) { r.range(1, 1000) } else { 0 });
    // chunks: blocks, task, style of fragmentation, seed, format, layout
    let mut done = 0;
    // all workers see the same samples: a common format, or samples that all formats can represent
    let common = if r.chance(1, 2) { Some(gen::fmt(r)) } else { None };
    s.set("grid", common.is_none() as i64);
    let typical = r.logrange(1, total);
    while done < total && s.ops.len() < 90 {
        let mut len = if r.chance(1, 2) { typical } else { r.range(1, (2 * typical).max(2)) };
        if done == 0 {
            len = len.max(4);
        }
        let len = len.min(total - done).max(if done == 0 { 4 } else { 1 });
        let a = [len, r.range(0, tasks - 1), r.range(0, 6), r.below(1 << 30) as i64, common.unwrap_or_else(|| gen::fmt(r)), r.range(0, 1)];
        s.op(K::Chunk, 0, &a);
        done += len;
    }
    if r.chance(1, 4) {
        // a tail that does not fill a block
        s.set("tail", r.range(1, c.s100 - 1));
    }
    if r.chance(5, 6) {
        schedule(r, s, (total * (4 + 4 * c.ch as i64)).max(50));
    }
    if r.chance(2, 3) {
        let horizon = total * (4 + 4 * c.ch as i64);
        for _ in 0..r.range(1, 6) {
            let p = r.range(1, horizon.max(4));
            s.sw.push((p as u64, sched::CRASH));
        }
        s.sw.sort();
    }
    // order of the analyzers when they are combined
    s.set("order", r.below(1 << 20) as i64);
}

pub fn exec_p06(s: &Scen, ctx: &mut Ctx) -> Res {
    if s.get("mid") != 0 {
        return crate::p_hist::exec_model("P06", s, ctx);
    }
    let (rate, ch) = (s.get("rate") as u32, s.get("ch").clamp(1, 64) as u32);
    let mode = s.get("mode") as u8 | model::I;
    let s100 = (rate as i64 + 5) / 10;
    let map = map_variant(s.get("map"), ch);
    let chunks: Vec<(i64, i64, Op)> = {
        let mut at = 0;
        let mut v = vec![];
        for op in s.ops.iter().filter(|o| o.k == K::Chunk) {
            let len = op.arg(0).clamp(if at == 0 { 4 } else { 1 }, 100_000);
            v.push((at, at + len, op.clone()));
            at += len;
        }
        v
    };
    if chunks.is_empty() {
        return Ok(());
    }
    let last = chunks.len() - 1;
    let total = chunks[last].1 * s100 + s.get("tail");
    let st = stream(s);
    // one sequential pass
    let mut seq = Pair::new(100, ch, rate, mode, stream(s), true)?;
    // rounding is decided with the accuracy of the comparison
    seq.m.tol = 4e-5;
    let r = seq.an.set_map(&map);
    seq.ok("set_channel_map", r)?;
    seq.m.set_map(&map);
    let mut pos = 0;
    while pos < total {
        let n = (total - pos).min(s100 * 50);
        let d = seq.stream.take(n, ch);
        // whole signal through the same formats as the workers use
        let mut exact = vec![];
        let mut p = 0;
        while p < n {
            let b = (pos + p) / s100;
            let c = chunks.iter().position(|c| b < c.1).unwrap_or(last);
            let e = ((b + 1) * s100 - pos).min(n);
            let x = Buf::new(chunks[c].2.arg(4), &d[(p * ch as i64) as usize..(e * ch as i64) as usize]).1;
            exact.extend(x);
            p = e;
        }
        seq.feed(&exact, 3, 0)?;
        pos += n;
    }
    // the workers
    let tasks = s.get("tasks").clamp(1, 6) as usize;
    type Slot = Mutex<Option<Result<(An, Obs), Viol>>>;
    let slots: Vec<Slot> = chunks.iter().map(|_| Mutex::new(None)).collect();
    let restarts = Mutex::new(0u64);
    let work = |i: usize| -> Result<(An, Obs), Viol> {
        let (from, to, ref op) = chunks[i];
        let mut a = Pair::new(1 + i as u32 % 90, ch, rate, mode, stream(s), false)?;
        let r = a.an.set_map(&map);
        a.ok("set_channel_map", r)?;
        let mut pos = from * s100;
        let end = if i == last { total } else { to * s100 };
        let fmt = op.arg(4);
        if i > 0 {
            pos = (from - 4) * s100;
            let d = st.at(pos, s100, ch);
            for part in cut(&d, ch, op.arg(2), op.arg(3), s100, s100) {
                a.feed_seed(part, fmt, op.arg(5))?;
            }
            pos += s100;
            // seeding is no measurement
            let o = a.an.observe(&[100]);
            let silent = |r: &R| matches!(r, Ok(v) if *v == f64::NEG_INFINITY) || r.is_err();
            if !silent(&o.mom) || !silent(&o.st) || !silent(&o.global) || o.win.iter().any(|w| !silent(&w.1)) {
                return viol("seed-counted", format!("loudness {} / {} / {} after nothing but seeding", show(&o.mom), show(&o.st), show(&o.global)));
            }
            if o.sp.iter().chain(&o.tp).chain(&o.psp).chain(&o.ptp).any(|p| matches!(p, Ok(v) if *v != 0.0)) {
                return viol("seed-counted", "peak after nothing but seeding");
            }
        }
        let d = st.at(pos, end - pos, ch);
        for part in cut(&d, ch, op.arg(2), op.arg(3) + 1, s100, s100) {
            a.feed(part, fmt, op.arg(5))?;
        }
        let o = a.an.observe(&[]);
        Ok((a.an, o))
    };
    let rep = {
        let mut list: Vec<Task> = vec![];
        for t in 0..tasks {
            let (chunks, slots, work, restarts) = (&chunks, &slots, &work, &restarts);
            list.push((
                true,
                Box::new(move || {
                    for i in 0..chunks.len() {
                        if chunks[i].2.arg(1).rem_euclid(tasks as i64) as usize != t {
                            continue;
                        }
                        // a crashed worker is started again
                        loop {
                            match catch_unwind(AssertUnwindSafe(|| work(i))) {
                                Ok(r) => {
                                    *slots[i].lock().unwrap() = Some(r);
                                    break;
                                }
                                Err(p) if p.is::<SimCrash>() => {
                                    *restarts.lock().unwrap() += 1;
                                }
                                Err(p) => resume_unwind(p),
                            }
                        }
                    }
                }),
            ));
        }
        sched::run(list, &s.sw, 0, 0)
    };
    ctx.report(&rep);
    let mut results = vec![];
    for r in rep.results {
        if let Err(p) = r {
            if !p.is::<SimCrash>() {
                resume_unwind(p);
            }
            // crashed outside of any chunk, e.g. while publishing: nothing was lost
        }
    }
    for (i, slot) in slots.iter().enumerate() {
        match slot.lock().unwrap().take() {
            Some(r) => results.push(r?),
            None => results.push(work(i)?),
        }
    }
    ctx.count("worker_restarts", *restarts.lock().unwrap());
    ctx.count("chunks", chunks.len() as u64);
    ctx.sim_ms += seq.sim_ms * 2.0;
    ctx.frames += seq.frames * 2;
    ctx.nontrivial = chunks.len() > 1 && seq.m.n_blocks > 1;
    // combine in any order
    let mut order: Vec<usize> = (0..results.len()).collect();
    let mut r = Rng::new(s.get("order") as u64);
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let set: Vec<&An> = order.iter().map(|i| &results[*i].0).collect();
    let got = set[0]
        .ask(|_| EbuR128::loudness_global_multiple(set.iter().map(|a| a.get())))
        .map_err(err_code);
    let so = seq.an.observe(&[]);
    ctx.see(&so);
    for (_, o) in &results {
        ctx.see(o);
    }
    let stored = seq.m.stored_blocks();
    let g = model::gate(&[&stored], seq.m.eps());
    if seq.m.marg_blocks || g.global.is_none() {
        ctx.skips += 1;
    } else {
        let (x, y) = (got, so.global);
        let ok = match (x, y) {
            (Ok(x), Ok(y)) => close_lu(x, y, 1e-4, 0.0),
            _ => false,
        };
        if !ok {
            return viol("parallel", format!("{} chunks give {} but a sequential pass {}", chunks.len(), show(&x), show(&y)));
        }
        // every block counted once, whatever it contains
        if let Some((_, _)) = so.count {
            let n: u64 = stored.iter().map(|x| x.1).sum();
            let parts: u64 = results
                .iter()
                .map(|r| match has(mode, model::I) {
                    true => r.1.count.map_or(0, |c| c.0),
                    false => 0,
                })
                .sum();
            ctx.count("probe_blocks", n);
            ctx.count("probe_worker_blocks", parts);
        }
    }
    for c in 0..ch as usize {
        let best = |f: &dyn Fn(&Obs) -> &R| -> R {
            let mut m = 0.0f64;
            for (_, o) in &results {
                match f(o) {
                    Ok(v) => m = m.max(*v),
                    Err(e) => return Err(*e),
                }
            }
            Ok(m)
        };
        let sp = best(&|o| &o.sp[c]);
        let tp = best(&|o| &o.tp[c]);
        let near = |a: &R, b: &R, t: f64| match (a, b) {
            (Ok(a), Ok(b)) => close_abs(*a, *b, t),
            (a, b) => a == b,
        };
        if !near(&sp, &so.sp[c], 1e-12) {
            return viol("parallel-sample-peak", format!("channel {c}: sample peak {} but sequentially {}", show(&sp), show(&so.sp[c])));
        }
        if !near(&tp, &so.tp[c], 1e-5 * seq.m.maxabs[c] + 1e-30) {
            return viol("parallel-true-peak", format!("channel {c}: true peak {} but sequentially {}", show(&tp), show(&so.tp[c])));
        }
    }
    Ok(())
}

fn cut(d: &[f64], ch: u32, style: i64, seed: i64, s100: i64, edge: i64) -> Vec<&[f64]> {
    let n = d.len() as i64 / ch as i64;
    let mut out = vec![];
    let mut pos = 0usize;
    for k in gen::parts(n, style.clamp(0, 6), seed, s100, edge) {
        let e = pos + (k * ch as i64) as usize;
        out.push(&d[pos..e]);
        pos = e;
    }
    out
}

// ---------------------------------------------------------------- P07

pub fn gen_p07(r: &mut Rng, s: &mut Scen) {
    let n = match r.below(8) {
        0 => r.range(15, 40),
        1..=3 => r.range(1, 3),
        _ => r.range(2, 8),
    };
    let flavour = r.below(4);
    let base = r.pick(&[model::I, model::LRA, model::I | model::LRA, model::I | model::LRA]);
    let base_hist = r.chance(1, 3);
    let same = r.chance(1, 2);
    let rate0 = r.range(84, 200) as u32;
    let mut max = 0;
    for t in 0..n as u32 {
        let mut mode = base | model::M;
        if base_hist {
            mode |= model::HIST;
        }
        match flavour {
            0 => (),
            1 => {
                if r.chance(1, 2) {
                    mode ^= model::HIST
                }
            }
            2 => {
                if r.chance(1, 6) {
                    mode = gen::mode(r, 0)
                }
            }
            _ => mode = gen::mode(r, 0),
        }
        if r.chance(1, 5) {
            mode |= model::TP;
        }
        let rate = if same { rate0 } else { loop { let q = gen::cheap_rate(r); if q < 450 { break q } } };
        let ch = if same { 1 } else { r.range(1, 3) };
        s.op(K::New, t, &[ch, rate as i64, mode as i64]);
        let s100 = (rate as i64 + 5) / 10;
        let blocks = match r.below(6) {
            0 => 0,
            1 => r.range(1, 4),
            2..=4 => r.range(4, 60),
            _ => r.range(30, 300),
        };
        let f = gen::fmt(r);
        let start = r.range(0, 300 * s100);
        s.op(K::Move, t, &[start]);
        if blocks > 0 {
            s.op(K::Add, t, &[blocks * s100 + r.range(0, s100 - 1), f, r.range(0, 1)]);
        }
        if r.chance(1, 6) {
            let h = r.range(400, 20_000);
            s.op(K::MaxHist, t, &[h]);
        }
        max = max.max(start + (blocks + 1) * s100);
    }
    if r.chance(1, 5) && model::well_behaved(rate0) {
        gen::programme(r, s, rate0, (rate0 as i64 + 5) / 10, max);
    } else {
        gen::segments(r, s, max, (rate0 as i64 + 5) / 10, true);
    }
    let combine = |r: &mut Rng| -> Op {
        let k = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => n,
            3 => r.range(0, n),
            4 => r.range(0, 2 * n),
            _ => r.range(1, n),
        };
        let mut a = vec![r.range(0, 1), r.range(0, 8), r.range(0, 40)];
        let perm = r.chance(2, 3);
        let mut pool: Vec<i64> = (0..n).collect();
        for i in 0..k {
            if perm && !pool.is_empty() {
                let j = r.below(pool.len() as u64) as usize;
                a.push(pool.swap_remove(j));
            } else {
                a.push(r.range(0, n - 1));
            }
            let _ = i;
        }
        Op::new(K::Combine, 0, &a)
    };
    for _ in 0..r.range(3, 20) {
        match r.below(10) {
            0 => {
                let t = r.below(n as u64) as u32;
                s.op(K::Add, t, &[r.range(1, 900), 3, 0]);
            }
            1 => {
                let t = r.below(n as u64) as u32;
                match r.below(4) {
                    // drop what is unfinished, but no block
                    0 => {
                        let a = [r.range(1, 3), r.range(84, 200)];
                        s.op(K::ChParams, t, &a);
                    }
                    1 => s.op(K::MaxWin, t, &[r.range(400, 4000)]),
                    _ => s.op(K::Reset, t, &[]),
                }
            }
            2 if s.get("threads") == 0 && r.chance(1, 3) => {
                // combine on several threads at once
                s.op(K::Phase, 0, &[r.range(2, 4), r.range(1, 5)]);
                for _ in 0..5 {
                    let o = combine(r);
                    s.ops.push(o);
                }
                schedule(r, s, 300);
            }
            _ => {
                let o = combine(r);
                s.ops.push(o);
            }
        }
    }
}

struct Comb<'a, 'b> {
    pairs: &'a [Pair<'b>],
    which: i64,
    style: i64,
    k: i64,
    members: Vec<usize>,
}

/// Combine through an iterator that misbehaves according to the style.
fn combine(c: &Comb) -> Result<R, ()> {
    struct Lying<I>(I, (usize, Option<usize>));
    impl<I: Iterator> Iterator for Lying<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.1
        }
    }
    let refs: Vec<&EbuR128> = c.members.iter().map(|i| c.pairs[*i].an.get()).collect();
    let all = c.pairs;
    let style = c.style;
    let k = c.k;
    let mut other = if style == 4 { An::new(250, 1, 100, model::I | model::LRA).ok() } else { None };
    let n = refs.len();
    let mut i = 0;
    let it = refs.iter().copied().map(|e| {
        if style < 2 {
            return e;
        }
        user(|| {
            let j = i;
            i += 1;
            match style {
                2 => {
                    // query others and itself while being consumed
                    let p = &all[(j + k as usize) % all.len()];
                    let _ = p.an.one(k + j as i64, 1);
                    let _ = e.loudness_momentary();
                }
                3 => {
                    // combine recursively
                    let p = &all[(j + k as usize) % all.len()];
                    let _ = p.an.ask(|e| EbuR128::loudness_global_multiple([e, e].iter().copied()));
                    let _ = p.an.ask(|e| EbuR128::loudness_range_multiple([e, e].iter().copied()));
                }
                4 => {
                    // advance, reset and rebuild another analyzer
                    if let Some(o) = other.as_mut() {
                        let _ = o.add(&Buf::F64(vec![0.25; 37 * (1 + k as usize)]), 0);
                        let _ = o.one(3, 0);
                        let _ = o.one(6, 0);
                        if j % 3 == 2 {
                            o.call(|e| e.reset());
                        }
                        if j % 4 == 3 {
                            other = An::new(250, 2, 84, model::I | model::LRA | model::HIST).ok();
                        }
                    }
                }
                5 => {
                    if j as i64 == k % (n as i64 + 1) {
                        resume_unwind(Box::new(UserPanic));
                    }
                }
                _ => (),
            }
        });
        e
    });
    let go = |it: &mut dyn Iterator<Item = &EbuR128>| -> R {
        // lifetimes of trait objects: collect nothing, just pass it on
        if c.which == 0 {
            EbuR128::loudness_global_multiple(it).map_err(err_code)
        } else {
            EbuR128::loudness_range_multiple(it).map_err(err_code)
        }
    };
    let run = || -> R {
        lib(251, || match style {
            0 => {
                if c.which == 0 {
                    EbuR128::loudness_global_multiple(refs.iter().copied()).map_err(err_code)
                } else {
                    EbuR128::loudness_range_multiple(refs.iter().copied()).map_err(err_code)
                }
            }
            6 => go(&mut Lying(it, (0, None))),
            7 => go(&mut Lying(it, (n, Some(n)))),
            8 => go(&mut Lying(it, (0, Some(n + 3)))),
            _ => {
                let mut it = it;
                go(&mut it)
            }
        })
    };
    match catch_unwind(AssertUnwindSafe(run)) {
        Ok(r) => Ok(r),
        Err(p) if p.is::<UserPanic>() => Err(()),
        Err(p) => resume_unwind(p),
    }
}

fn check_combined(c: &Comb, got: R, skips: &mut u64) -> Res {
    let ps: Vec<&Pair> = c.members.iter().map(|i| &c.pairs[*i]).collect();
    let need = if c.which == 0 { model::I } else { model::LRA };
    let mixed = c.which != 0
        && ps.iter().any(|p| has(p.m.mode, model::HIST))
        && ps.iter().any(|p| !has(p.m.mode, model::HIST));
    if ps.iter().any(|p| !has(p.m.mode, need)) || mixed {
        return match got {
            Err(2) => Ok(()),
            v => viol("combine-error", format!("{} instead of InvalidMode", show(&v))),
        };
    }
    let stored: Vec<Stored> = ps
        .iter()
        .map(|p| if c.which == 0 { p.m.stored_blocks() } else { p.m.stored_st() })
        .collect();
    let refs: Vec<&Stored> = stored.iter().collect();
    if ps.iter().any(|p| if c.which == 0 { p.m.marg_blocks } else { p.m.marg_st }) {
        *skips += 1;
        return Ok(());
    }
    let v = match got {
        Ok(v) => v,
        Err(e) => return viol("combine-error", format!("failed with {}", err_name(e))),
    };
    let eps = 2.5e-7;
    if c.which == 0 {
        match model::gate(&refs, eps).global {
            None => *skips += 1,
            Some(l) => {
                if !close_lu(v, l, 1e-6, 0.0) {
                    return viol("combined-global", format!("{v} but over the union of all blocks it is {l}"));
                }
            }
        }
    } else {
        match model::range(&refs, eps) {
            None => *skips += 1,
            Some(want) => {
                if !close_abs(v, want, 2e-6) {
                    return viol("combined-range", format!("{v} but over the union of all values it is {want}"));
                }
            }
        }
    }
    if ps.len() == 1 {
        let own = ps[0].an.one(if c.which == 0 { 3 } else { 6 }, 0);
        let own = f64::from_bits(own[1]);
        if !close_lu(v, own, 1e-9, 0.0) && !close_abs(v, own, 1e-9) {
            return viol("combined-single", format!("{v} but on its own the analyzer says {own}"));
        }
    }
    Ok(())
}

pub fn exec_p07(s: &Scen, ctx: &mut Ctx) -> Res {
    let mut pairs: Vec<Pair> = vec![];
    let (mut points, mut next) = (0, 0);
    let mut i = 0;
    let parse = |op: &Op, n: usize| -> (i64, i64, i64, Vec<usize>) {
        let m = op.a.iter().skip(3).map(|x| x.rem_euclid(n.max(1) as i64) as usize).collect();
        (op.arg(0).rem_euclid(2), op.arg(1).clamp(0, 8), op.arg(2).clamp(0, 1000), m)
    };
    while i < s.ops.len() {
        let op = &s.ops[i];
        count_op(ctx, op);
        let t = op.t as usize;
        match op.k {
            K::New => {
                let p = Pair::new(
                    1 + pairs.len() as u32 % 200,
                    op.arg(0).clamp(1, 64) as u32,
                    op.arg(1).clamp(16, 2_822_400) as u32,
                    op.arg(2) as u8 & 0x7f | 1,
                    stream(s),
                    true,
                )?;
                pairs.push(p);
            }
            K::Move => {
                if let Some(p) = pairs.get_mut(t) {
                    p.stream.pos = op.arg(0).max(0);
                }
            }
            K::Combine => {
                let (which, style, k, members) = parse(op, pairs.len());
                if pairs.is_empty() {
                    i += 1;
                    continue;
                }
                let before: Vec<Obs> = pairs.iter().map(|p| p.an.observe(&[400])).collect();
                let ledger: Vec<(i64, i64)> = (1..=pairs.len() as u32).map(|a| alloc::live(a % 200)).collect();
                let c = Comb { pairs: &pairs, which, style, k, members };
                let r = combine(&c);
                ctx.count(["iter_slice", "iter_plain", "iter_querying", "iter_recursive", "iter_advancing_others", "iter_unwinding", "iter_no_hint", "iter_exact_hint", "iter_loose_hint"][style as usize], 1);
                match r {
                    Err(()) => ctx.count("iterator_unwinds", 1),
                    Ok(v) => {
                        ctx.checks += 1;
                        ctx.dig.add(match v {
                            Ok(v) => v.to_bits(),
                            Err(e) => e as u64,
                        });
                        if !(style == 5 && c.members.is_empty()) {
                            check_combined(&c, v, &mut ctx.skips).map_err(|v| at(v, i, op))?;
                        }
                        ctx.nontrivial |= c.members.len() > 1;
                        if c.members.len() > 16 {
                            ctx.count("probe_more_than_16", 1);
                        }
                        if v.is_err() {
                            ctx.count("probe_refused", 1);
                        }
                    }
                }
                let ledger2: Vec<(i64, i64)> = (1..=pairs.len() as u32).map(|a| alloc::live(a % 200)).collect();
                if ledger != ledger2 || alloc::live(250) != (0, 0) || alloc::live(251) != (0, 0) {
                    return viol("combine-leak", "combining changed the memory in use").map_err(|v| at(v, i, op));
                }
                for (p, b) in pairs.iter().zip(&before) {
                    let o = p.an.observe(&[400]);
                    compare(&o, b, ALL, EXACT, &[]).map_err(|v| {
                        at(Viol { class: format!("combine-changed-{}", v.class), msg: format!("combining changed an analyzer: {}", v.msg) }, i, op)
                    })?;
                }
            }
            K::Phase => {
                // the following combinations on several threads at once
                let tasks = op.arg(0).clamp(1, 4) as usize;
                let mut list = vec![];
                let mut j = i + 1;
                while j < s.ops.len() && s.ops[j].k == K::Combine && list.len() < 16 {
                    list.push(parse(&s.ops[j], pairs.len()));
                    j += 1;
                }
                if !pairs.is_empty() && !list.is_empty() {
                    let outs: Vec<Mutex<(u64, Res)>> = (0..tasks).map(|_| Mutex::new((0, Ok(())))).collect();
                    let rep = {
                        let mut run: Vec<Task> = vec![];
                        for (t, out) in outs.iter().enumerate() {
                            let (pairs, list) = (&pairs, &list);
                            run.push((
                                false,
                                Box::new(move || {
                                    let mut skips = 0;
                                    let mut res = Ok(());
                                    for n in 0..list.len() {
                                        let (which, _, k, ref members) = list[(n + t) % list.len()];
                                        let style = [0, 1, 2, 3][((k + n as i64) % 4) as usize];
                                        let c = Comb { pairs, which, style, k, members: members.clone() };
                                        if let Ok(v) = combine(&c) {
                                            res = check_combined(&c, v, &mut skips);
                                            if res.is_err() {
                                                break;
                                            }
                                        }
                                    }
                                    *out.lock().unwrap() = (skips, res);
                                }),
                            ));
                        }
                        sched::run(run, &s.sw, points, next)
                    };
                    points = rep.points;
                    next = rep.next;
                    ctx.report(&rep);
                    for r in rep.results {
                        if let Err(p) = r {
                            resume_unwind(p);
                        }
                    }
                    for o in &outs {
                        let o = std::mem::replace(&mut *o.lock().unwrap(), (0, Ok(())));
                        ctx.skips += o.0;
                        ctx.checks += list.len() as u64;
                        o.1.map_err(|v| Viol { class: format!("concurrent-{}", v.class), msg: v.msg }).map_err(|v| at(v, i, op))?;
                    }
                }
            }
            _ => {
                if let Some(p) = pairs.get_mut(t) {
                    p.step(op).map_err(|v| at(v, i, op))?;
                }
            }
        }
        i += 1;
    }
    for p in &pairs {
        ctx.sim_ms += p.sim_ms;
        ctx.frames += p.frames;
    }
    Ok(())
}

// ---------------------------------------------------------------- P08

struct Wrap<T: ?Sized>(std::marker::PhantomData<T>);
trait Otherwise {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Otherwise for Wrap<T> {}
struct WrapSend<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> Otherwise for WrapSend<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> WrapSend<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> Wrap<T> {
    const SYNC: bool = true;
}

const IS_SEND: bool = WrapSend::<EbuR128>::SEND;
const IS_SYNC: bool = Wrap::<EbuR128>::SYNC;

/// Analyzers made, changed and dropped all the time, for a few configurations: what instances may
/// share behind the scenes is used by all, and preempted between two accesses to it.
fn churn(r: &mut Rng, s: &mut Scen) {
    let n = r.range(2, 4) as u32;
    let mode = gen::mode(r, r.clone().pick(&[0, model::I, model::I | model::LRA, model::TP]));
    let rates: Vec<i64> = (0..r.range(2, 3))
        .map(|_| loop {
            let q = if r.chance(1, 8) { r.pick(&[44_100, 48_000, 96_000]) } else { gen::cheap_rate(r) };
            if model::well_behaved(q) {
                break q as i64;
            }
        })
        .collect();
    let chs = if r.chance(1, 2) { vec![r.range(1, 3)] } else { vec![1, r.range(2, 8)] };
    for t in 0..n {
        let a = [r.pick(&chs), r.pick(&rates), mode as i64];
        s.op(K::New, t, &a);
    }
    let s100 = (rates[0] + 5) / 10;
    gen::segments(r, s, 20_000, s100, false);
    s.op(K::Phase, 0, &[0, r.range(2, 4), r.below(1 << 20) as i64]);
    let mut count = 0;
    for t in 0..n {
        for _ in 0..r.range(4, 16) {
            let op = match r.below(12) {
                0..=3 => Op::new(K::ChParams, t, &[r.pick(&chs), r.pick(&rates)]),
                4..=6 => Op::new(K::New, t + 100, &[r.pick(&chs), r.pick(&rates), mode as i64]),
                7 => Op::new(K::Drop, t, &[]),
                8 => Op::new(K::Reset, t, &[]),
                9 => Op::new(K::Query, t, &[r.range(1, 400), 400, 3000]),
                _ => Op::new(K::Add, t, &[r.range(1, 6 * s100), gen::fmt(r), r.range(0, 1)]),
            };
            s.ops.push(op);
            count += 1;
        }
    }
    let mut p = 0;
    let gap = r.range(1, 12);
    while p < count * 12 && s.sw.len() < 60 {
        let e = if r.chance(3, 4) {
            crate::step::entry(r.chance(7, 8), r.logrange(1, 19) as u32, r.below(8) as u32)
        } else {
            r.below(16) as u32
        };
        s.sw.push((p as u64, e));
        p += 1 + r.range(0, gap);
    }
}

pub fn gen_p08(r: &mut Rng, s: &mut Scen) {
    if r.chance(1, 5) {
        return churn(r, s);
    }
    let n = r.range(2, 5) as u32;
    let cheap = r.chance(5, 6);
    let mut cfg = vec![];
    let alike = r.chance(1, 2);
    for t in 0..n {
        let rate = if cheap { gen::cheap_rate(r) } else { r.pick(&[8000, 48_000, 44_100, 96_000, 192_000]) };
        let rate = if r.chance(1, 12) { r.pick(&[95_999, 96_000, 176_400, 192_000]) } else { rate };
        // rates that something keyed by part of the rate may confuse
        let rate = match cfg.first() {
            Some(&(q, _, _)) if r.chance(1, 10) => {
                let k: u32 = r.pick(&[1 << 16, 1 << 12, 256, 1000, 1]);
                if q > k && r.chance(1, 2) { q - k } else { q + k }
            }
            _ => rate,
        };
        let rate = if rate > 20_000 || model::well_behaved(rate) { rate } else { 48_000 };
        let ch = gen::channels(r).min(if rate > 20_000 { 2 } else { 8 });
        let mode = gen::mode(r, r.clone().pick(&[0, model::I, model::I | model::LRA, model::TP]));
        let (rate, ch, mode) = if alike && t > 0 { cfg[0] } else { (rate, ch, mode) };
        cfg.push((rate, ch, mode));
        s.op(K::New, t, &[ch as i64, rate as i64, mode as i64]);
    }
    let tasks = r.range(2, 4);
    let phases = r.range(1, 4);
    gen::segments(r, s, 60_000, (cfg[0].0 as i64 + 5) / 10, true);
    let mut points = 0;
    for _ in 0..phases {
        s.op(K::Phase, 0, &[0, tasks, r.below(1 << 20) as i64]);
        for t in 0..n {
            let (rate, ch, mode) = cfg[t as usize];
            let c = gen::Cfg { ch, rate, mode, s100: (rate as i64 + 5) / 10 };
            let budget = (12_000 / ch as i64).max(6 * c.s100).min(40_000);
            let prof = Prof { query: 14, reset: 4, seed: 5, map: 5, chparams: 4, maxwin: 4, maxhist: 4, rates: cheap };
            let len0 = s.ops.len();
            gen::history(r, s, t, &c, budget, &prof);
            points += (budget / c.s100) * (4 + 3 * ch as i64) + 3 * (s.ops.len() - len0) as i64;
            if r.chance(1, 3) {
                // other things happen in between
                for _ in 0..r.range(1, 4) {
                    let i = len0 + r.below((s.ops.len() - len0) as u64) as usize;
                    let op = match r.below(4) {
                        0 => Op { t, ..bad_op(r) },
                        1 => Op::new(K::New, t + 100, &[ch as i64, rate as i64, mode as i64]),
                        2 => Op::new(K::Drop, t, &[]),
                        _ => Op { t, ..crate::p_twin::corrupt_op(r, c.s100) },
                    };
                    s.ops.insert(i, op);
                }
            }
        }
        if r.chance(1, 3) {
            s.op(K::Phase, 0, &[1, tasks, r.below(1 << 20) as i64]);
            for t in 0..n {
                for _ in 0..r.range(1, 6) {
                    let a = [r.range(0, 15), r.range(0, 600)];
                    s.op(K::One, t, &a);
                }
            }
            points += 100;
        }
    }
    schedule(r, s, points.max(50));
}

type Log = Vec<u64>;

struct Actor<'a> {
    p: Option<Pair<'a>>,
    log: Log,
    err: Option<Viol>,
    cfg: (u32, u32, u8),
    acct: u32,
}

impl<'a> Actor<'a> {
    fn apply(&mut self, op: &Op, segs: &'a Scen) {
        if self.err.is_some() {
            return;
        }
        if let Err(v) = self.try_apply(op, segs) {
            self.err = Some(at(v, self.log.len(), op));
        }
    }
    fn try_apply(&mut self, op: &Op, s: &'a Scen) -> Res {
        if self.p.is_none() {
            let (ch, rate, mode) = self.cfg;
            self.p = Some(Pair::new(self.acct, ch, rate, mode, stream(s), false)?);
        }
        let p = self.p.as_mut().unwrap();
        match op.k {
            K::Drop => {
                // dropped and made anew
                let pos = p.stream.pos;
                self.p = None;
                let (ch, rate, mode) = self.cfg;
                let mut q = Pair::new(self.acct, ch, rate, mode, stream(s), false)?;
                q.stream.pos = pos;
                self.p = Some(q);
            }
            K::New => {
                // a short-lived analyzer
                let mut o = Pair::new(self.acct + 40, op.arg(0).clamp(1, 64) as u32, op.arg(1).clamp(16, 2_822_400) as u32, op.arg(2) as u8 & 0x7f | 1, stream(s), false)?;
                let d = o.stream.take(500, o.m.ch);
                o.feed(&d, 3, 0)?;
                let mut dig = crate::rng::Digest::new();
                o.an.observe(&[]).digest(&mut dig);
                self.log.push(dig.0);
            }
            K::Bad => {
                let _ = bad(&mut p.an, &p.m, op);
            }
            K::Corrupt => {
                let (b, _, _) = crate::p_twin::corrupt(p, op);
                let r = p.an.add(&b, op.arg(2));
                p.ok("add_frames", r)?;
            }
            K::Query => {
                let mut dig = crate::rng::Digest::new();
                p.an.observe(&op.a).digest(&mut dig);
                self.log.push(dig.0);
            }
            K::One => self.log.extend(p.an.one(op.arg(0), op.arg(1))),
            _ => {
                p.step(op)?;
            }
        }
        Ok(())
    }
}

fn shared_query(set: &[&An], op: &Op) -> Vec<u64> {
    let t = op.t as usize % set.len();
    let enc = |r: Result<f64, ebur128::Error>| match r {
        Ok(v) if v.is_nan() => vec![9],
        Ok(v) => vec![1, v.to_bits()],
        Err(e) => vec![2, err_code(e) as u64],
    };
    match op.arg(0) {
        13 => enc(set[t].ask(|_| EbuR128::loudness_global_multiple(set.iter().map(|a| a.get())))),
        14 => enc(set[t].ask(|_| EbuR128::loudness_range_multiple(set.iter().map(|a| a.get())))),
        15 => {
            let mut d = crate::rng::Digest::new();
            set[t].observe(&[op.arg(1)]).digest(&mut d);
            vec![d.0]
        }
        k => set[t].one(k, op.arg(1).max(1)),
    }
}

type Phase<'a> = (i64, i64, i64, Vec<&'a Op>);

fn p08_plan(s: &Scen) -> (Vec<(u32, u32, u8)>, Vec<Phase<'_>>) {
    let mut cfgs: Vec<(u32, u32, u8)> = vec![];
    let mut phases: Vec<Phase> = vec![];
    for op in s.ops.iter() {
        if op.k == K::New && op.t < 100 {
            cfgs.push((op.arg(0).clamp(1, 64) as u32, op.arg(1).clamp(16, 2_822_400) as u32, op.arg(2) as u8 & 0x7f | 1));
        } else if op.k == K::Phase {
            phases.push((op.arg(0), op.arg(1).clamp(1, 6), op.arg(2), vec![]));
        } else if let Some(p) = phases.last_mut() {
            p.3.push(op);
        }
    }
    (cfgs, phases)
}

/// Everything that an analyzer answered and would answer.
fn p08_digest(a: &Actor) -> u64 {
    let mut d = crate::rng::Digest::new();
    for v in &a.log {
        d.add(*v);
    }
    if let Some(p) = &a.p {
        p.an.observe(&[10, 400, p.m.window as i64]).digest(&mut d);
    }
    d.0
}

/// The answers of analyzer `t` in a process in which nothing else ever happened.
pub fn p08_apart(text: &str, t: u64) -> String {
    let s = match Scen::parse(text) {
        Ok(s) => s,
        Err(e) => return format!("HARNESS {e}"),
    };
    let (cfgs, phases) = p08_plan(&s);
    let n = cfgs.len();
    let t = t as usize;
    let mut a = Actor { p: None, log: vec![], err: None, cfg: cfgs[t], acct: 1 };
    for (kind, _, _, ops) in &phases {
        if *kind != 0 {
            a.apply(&Op::new(K::Env, 0, &[0]), &s);
            continue;
        }
        for op in ops {
            if (op.t % 100) as usize % n == t {
                a.apply(op, &s);
            }
        }
    }
    match &a.err {
        Some(v) => format!("ERR {} {}", v.class.replace(' ', "_"), v.msg),
        None => format!("OK {:x}", p08_digest(&a)),
    }
}

pub fn exec_p08(s: &Scen, ctx: &mut Ctx) -> Res {
    if !IS_SEND {
        return viol("not-send", "EbuR128 cannot be sent to another thread");
    }
    if !IS_SYNC {
        return viol("not-sync", "EbuR128 cannot be shared by threads");
    }
    let (cfgs, phases) = p08_plan(s);
    let n = cfgs.len();
    if n == 0 {
        return Ok(());
    }
    for (_, _, _, ops) in &phases {
        for op in ops {
            count_op(ctx, op);
        }
    }
    let make = |acct: u32| -> Vec<Actor> {
        cfgs.iter()
            .enumerate()
            .map(|(i, c)| Actor { p: None, log: vec![], err: None, cfg: *c, acct: acct + i as u32 })
            .collect()
    };
    // together, under the scheduler
    let mut actors: Vec<Option<Actor>> = make(1).into_iter().map(Some).collect();
    let mut shared: Vec<Vec<Vec<u64>>> = vec![];
    let (mut points, mut next) = (0, 0);
    for (kind, tasks, seed, ops) in &phases {
        let tasks = *tasks as usize;
        if *kind == 0 {
            // every analyzer belongs to one task in this phase
            let mut groups: Vec<Vec<(usize, Actor)>> = (0..tasks).map(|_| vec![]).collect();
            for (i, a) in actors.iter_mut().enumerate() {
                let g = mix2(*seed as u64, i as u64) as usize % tasks;
                groups[g].push((i, a.take().unwrap()));
            }
            let back: Mutex<Vec<(usize, Actor)>> = Mutex::new(vec![]);
            let rep = {
                let mut list: Vec<Task> = vec![];
                for mut g in groups {
                    let back = &back;
                    list.push((
                        false,
                        Box::new(move || {
                            for op in ops {
                                let t = (op.t % 100) as usize % n;
                                if let Some(a) = g.iter_mut().find(|a| a.0 == t) {
                                    a.1.apply(op, s);
                                }
                            }
                            back.lock().unwrap().extend(g);
                        }),
                    ));
                }
                sched::run(list, &s.sw, points, next)
            };
            points = rep.points;
            next = rep.next;
            ctx.report(&rep);
            for r in rep.results {
                if let Err(p) = r {
                    resume_unwind(p);
                }
            }
            for (i, a) in back.into_inner().unwrap() {
                actors[i] = Some(a);
            }
        } else {
            // everybody reads everything
            for a in actors.iter_mut() {
                // make sure that they exist
                a.as_mut().unwrap().apply(&Op::new(K::Env, 0, &[0]), s);
            }
            let set: Vec<&An> = actors.iter().filter_map(|a| a.as_ref().unwrap().p.as_ref().map(|p| &p.an)).collect();
            if set.is_empty() {
                shared.push(vec![]);
                continue;
            }
            let outs: Vec<Mutex<Vec<u64>>> = (0..tasks).map(|_| Default::default()).collect();
            let rep = {
                let mut list: Vec<Task> = vec![];
                for (t, out) in outs.iter().enumerate() {
                    let set = &set;
                    list.push((
                        false,
                        Box::new(move || {
                            let mut v = vec![];
                            for k in 0..ops.len() {
                                v.extend(shared_query(set, ops[(k + t) % ops.len()]));
                            }
                            *out.lock().unwrap() = v;
                        }),
                    ));
                }
                sched::run(list, &s.sw, points, next)
            };
            points = rep.points;
            next = rep.next;
            ctx.report(&rep);
            for r in rep.results {
                if let Err(p) = r {
                    resume_unwind(p);
                }
            }
            shared.push(outs.into_iter().map(|o| o.into_inner().unwrap()).collect());
        }
    }
    // each on its own
    let mut alone = make(1 + 80);
    let mut shared_no = 0;
    for (kind, tasks, _, ops) in &phases {
        if *kind == 0 {
            for t in 0..n {
                for op in ops {
                    if (op.t % 100) as usize % n == t {
                        alone[t].apply(op, s);
                    }
                }
            }
        } else {
            for a in alone.iter_mut() {
                a.apply(&Op::new(K::Env, 0, &[0]), s);
            }
            let set: Vec<&An> = alone.iter().filter_map(|a| a.p.as_ref().map(|p| &p.an)).collect();
            if set.is_empty() {
                shared_no += 1;
                continue;
            }
            for t in 0..*tasks as usize {
                let mut v = vec![];
                for k in 0..ops.len() {
                    v.extend(shared_query(&set, ops[(k + t) % ops.len()]));
                }
                ctx.checks += 1;
                if shared[shared_no].get(t) != Some(&v) {
                    return viol("shared-read", format!("concurrent queries answered {:x?} but alone {v:x?}", shared[shared_no].get(t)));
                }
            }
            shared_no += 1;
        }
    }
    for (i, (a, b)) in actors.iter().zip(&alone).enumerate() {
        let a = a.as_ref().unwrap();
        if let Some(v) = &b.err {
            return Err(v.clone());
        }
        if let Some(v) = &a.err {
            return viol(&format!("together-{}", v.class), format!("analyzer {i}: {}", v.msg));
        }
        ctx.checks += a.log.len() as u64;
        for v in &a.log {
            ctx.dig.add(*v);
        }
        if a.log != b.log {
            let k = a.log.iter().zip(&b.log).position(|(x, y)| x != y).unwrap_or(0);
            return viol("interference", format!("answer {k} of analyzer {i} is different when others are at work"));
        }
        if let (Some(p), Some(q)) = (&a.p, &b.p) {
            let w = [10, 400, p.m.window as i64];
            let (x, y) = (p.an.observe(&w), q.an.observe(&w));
            ctx.see(&x);
            compare(&x, &y, ALL, EXACT, &[]).map_err(|v| Viol { class: "interference".into(), msg: format!("analyzer {i} with others at work: {}", v.msg) })?;
            ctx.sim_ms += p.sim_ms;
            ctx.frames += p.frames;
            ctx.nontrivial |= p.frames > 0;
        }
    }
    // each in a process of its own
    let text = s.to_text();
    for (i, a) in actors.iter().enumerate() {
        let a = a.as_ref().unwrap();
        if let Some(ans) = crate::iso::ask(&text, i as u64) {
            ctx.checks += 1;
            ctx.count("compared_with_fresh_process", 1);
            let mut f = ans.splitn(3, ' ');
            match (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next()) {
                ("OK", d, _) if d == format!("{:x}", p08_digest(a)) => (),
                ("OK", ..) => {
                    return viol("interference", format!("analyzer {i} gives other results than in a process of its own"))
                }
                ("ERR", c, m) => return viol(c, m.unwrap_or("")),
                ("DIED", n, _) => return viol("died", format!("analyzer {i} alone: the process was ended by signal {n}")),
                _ => panic!("bad answer from the other process: {ans}"),
            }
        }
    }
    ctx.nontrivial &= ctx.n.get("preemptions").copied().unwrap_or(0) > 0;
    Ok(())
}

// ---------------------------------------------------------------- P15

fn env_value(r: &mut Rng) -> i64 {
    (match r.below(12) {
        0 => 0,
        1..=2 => FTZ,
        3..=4 => DAZ,
        5..=7 => FTZ | DAZ,
        8 => 0x2000,
        9 => 0x4000,
        10 => 0x6000,
        _ => FTZ | DAZ | 0x2000 * r.below(4) as u32,
    } | if r.chance(1, 3) { OM } else { 0 }) as i64
}

pub fn gen_p15(r: &mut Rng, s: &mut Scen) {
    if r.chance(1, 6) {
        // the same through the C API, in a caller that flushes denormals or rounds its own way
        p_capi::gen_p16(r, s);
        s.set("capi", 1);
        for _ in 0..r.range(1, 4) {
            let i = r.below(s.ops.len() as u64 + 1) as usize;
            let e = if r.chance(3, 4) { r.pick(&[FTZ, DAZ, FTZ | DAZ]) as i64 } else { env_value(r) };
            s.ops.insert(i, Op::new(K::Env, 0, &[e]));
        }
        return;
    }
    let n = r.range(1, 3) as u32;
    let tasks = r.range(1, 3);
    s.set("tasks", tasks);
    let mut points = 0;
    let mut s100_0 = 10;
    for t in 0..n {
        let rate = gen::any_rate(r);
        let ch = gen::channels(r).min(12);
        let mode = gen::mode(r, r.clone().pick(&[0, model::I, model::I | model::LRA, model::TP]));
        let ch = if rate > 50_000 { ch.min(3) } else { ch };
        s.op(K::New, t, &[ch as i64, rate as i64, mode as i64]);
        let c = gen::Cfg { ch, rate, mode, s100: (rate as i64 + 5) / 10 };
        s100_0 = c.s100;
        let budget = (25_000 / ch as i64).max(6 * c.s100).min(60_000);
        let prof = Prof { query: 20, reset: 4, seed: 6, map: 5, chparams: 4, maxwin: 5, maxhist: 4, rates: true };
        let len0 = s.ops.len();
        let e = env_value(r);
        s.op(K::Env, t, &[e]);
        gen::history(r, s, t, &c, budget, &prof);
        points += budget / c.s100 * (4 + 3 * ch as i64);
        for _ in 0..r.range(0, 8) {
            let i = len0 + r.below((s.ops.len() - len0) as u64 + 1) as usize;
            let op = match r.below(6) {
                0..=2 => Op::new(K::Env, t, &[env_value(r)]),
                3 => Op { t, ..bad_op(r) },
                4 => Op::new(K::Fail, t, &[r.range(0, 4), r.range(1, 16), r.logrange(4000, 48_000), 0]),
                _ => Op::new(K::Combine, t, &[r.range(0, 1), r.range(0, 3)]),
            };
            s.ops.insert(i, op);
        }
        if r.chance(1, 5) {
            // overflows and numbers that are none; nothing can be compared after that
            for _ in 0..r.range(1, 4) {
                let mut op = Op { t, ..crate::p_twin::corrupt_op(r, c.s100) };
                if r.chance(1, 2) {
                    op.a[3] = 5;
                }
                op.a[0] = op.a[0].min(20_000);
                s.ops.push(op);
                s.op(K::Env, t, &[env_value(r)]);
                let (k, f, l) = (gen::delivery(r, c.s100).min(5000), gen::fmt(r), r.range(0, 1));
                s.op(K::Add, t, &[k, f, l]);
            }
        }
    }
    gen::segments(r, s, 60_000, s100_0, true);
    // very quiet and silent passages, where flushing matters
    for g in s.segs.iter_mut() {
        if r.chance(1, 4) {
            g.lvl = r.range(-640_000, -9_000).max(if r.chance(1, 2) { -70_000 } else { -640_000 });
        } else if r.chance(1, 5) {
            g.kind = 0;
        }
    }
    if tasks > 1 {
        schedule(r, s, points.max(50));
    }
}

pub fn exec_p15(s: &Scen, ctx: &mut Ctx) -> Res {
    if s.get("capi") != 0 {
        // What the calls return is P16's; here only the environment counts.
        let res = p_capi::exec_p16(s, ctx);
        set_env(CSR_DEFAULT);
        ctx.checks += 1;
        if let Some((want, got)) = env_broken() {
            return viol("environment", format!("floating-point control settings {got:#x} instead of {want:#x} after a call of the C API"));
        }
        if res.is_err() {
            ctx.count("capi_runs_cut_short", 1);
        }
        return Ok(());
    }
    let mut cfgs: Vec<(u32, u32, u8)> = vec![];
    for op in s.ops.iter().filter(|o| o.k == K::New) {
        cfgs.push((op.arg(0).clamp(1, 64) as u32, op.arg(1).clamp(16, 2_822_400) as u32, op.arg(2) as u8 & 0x7f | 1));
    }
    let n = cfgs.len();
    if n == 0 {
        return Ok(());
    }
    let tasks = s.get("tasks").clamp(1, 4) as usize;
    type Out = (Ctx, Res);
    let outs: Vec<Mutex<Out>> = (0..n).map(|_| Mutex::new((Ctx::new(), Ok(())))).collect();
    // One analyzer: the perturbed run, with a twin that runs the same calls with the default
    // environment.
    let body = |t: usize| -> Out {
        let mut c = Ctx::new();
        let r = env_run(s, t, cfgs[t], &mut c);
        set_env(CSR_DEFAULT);
        (c, r)
    };
    let rep = {
        let mut list: Vec<Task> = vec![];
        for k in 0..tasks {
            let (outs, body) = (&outs, &body);
            list.push((
                false,
                Box::new(move || {
                    for t in 0..n {
                        if t % tasks == k {
                            let o = body(t);
                            *outs[t].lock().unwrap() = o;
                        }
                    }
                }),
            ));
        }
        sched::run(list, &s.sw, 0, 0)
    };
    ctx.report(&rep);
    for r in rep.results {
        if let Err(p) = r {
            resume_unwind(p);
        }
    }
    for o in outs {
        let (c, r) = o.into_inner().unwrap();
        ctx.merge(c);
        r?;
    }
    Ok(())
}

fn env_run(s: &Scen, t: usize, cfg: (u32, u32, u8), ctx: &mut Ctx) -> Res {
    let (ch, rate, mode) = cfg;
    let mut env = CSR_DEFAULT;
    // the caller wants to be told about overflows
    let mut unmask = 0;
    let broken = |ctx: &mut Ctx| -> Res {
        ctx.checks += 1;
        if let Some((want, got)) = env_broken() {
            return viol("environment", format!("floating-point control settings {got:#x} instead of {want:#x} after the call"));
        }
        Ok(())
    };
    let mut a = Pair::new(1 + 2 * t as u32, ch, rate, mode, stream(s), false)?;
    let mut b = Pair::new(2 + 2 * t as u32, ch, rate, mode, stream(s), false)?;
    // with other rounding there is nothing to compare any more
    let mut rounded = false;
    let mut wild = false;
    for (i, op) in s.ops.iter().enumerate() {
        if op.t as usize != t || op.k == K::New {
            continue;
        }
        count_op(ctx, op);
        (|| -> Res {
            set_env(env);
            match op.k {
                K::Env => {
                    env = op.arg(0) as u32 & 0xe040 | CSR_DEFAULT;
                    unmask = if wild { 0 } else { op.arg(0) as u32 & OM };
                    if unmask != 0 {
                        ctx.count("env_unmasked_exception", 1);
                    }
                    set_env(env);
                    ctx.count(
                        match env & 0xe040 {
                            0 => "env_default",
                            x if x & 0x6000 != 0 => "env_rounding",
                            x if x == FTZ => "env_ftz",
                            x if x == DAZ => "env_daz",
                            _ => "env_ftz_daz",
                        },
                        1,
                    );
                    rounded |= env & 0x6000 != 0;
                    ctx.nontrivial |= env != CSR_DEFAULT;
                    return Ok(());
                }
                K::Bad => {
                    let _ = bad(&mut a.an, &a.m, op);
                    broken(ctx)?;
                    return Ok(());
                }
                K::Fail => {
                    if rounded {
                        return Ok(());
                    }
                    let r = fail(&mut a, Some(&mut b), op, ctx);
                    broken(ctx)?;
                    r?;
                }
                K::Corrupt => {
                    // whatever the samples are
                    let (buf, _, _) = crate::p_twin::corrupt(&mut a, op);
                    set_env(env);
                    let r = a.an.add(&buf, op.arg(2));
                    a.ok("add_frames", r)?;
                    broken(ctx)?;
                    rounded = true;
                    // what is infinite may overflow now
                    wild = true;
                    unmask = 0;
                    ctx.count("env_corrupt", 1);
                }
                K::Combine => {
                    let c = Comb { pairs: std::slice::from_ref(&a), which: op.arg(0), style: [0, 5, 2, 3][op.arg(1).rem_euclid(4) as usize], k: 0, members: vec![0] };
                    let r = combine(&c);
                    if r.is_err() {
                        ctx.count("iterator_unwinds", 1);
                    }
                    broken(ctx)?;
                    return Ok(());
                }
                K::Query => (),
                _ => {
                    if matches!(op.k, K::Add | K::Seed) {
                        set_env(env & !unmask);
                    }
                    a.step(op)?;
                    broken(ctx)?;
                    set_env(CSR_DEFAULT);
                    b.step(op)?;
                }
            }
            if a.m.ring() * a.m.ch as u64 > 40_000 && op.k != K::Query && i % 4 != 0 {
                return Ok(());
            }
            let w = [15, 400, a.m.window as i64];
            set_env(env);
            let oa = a.an.observe(&w);
            broken(ctx)?;
            if rounded {
                // rounding does not make errors
                let w = |r: &R| r.is_ok();
                if !w(&oa.mom) {
                    return viol("environment-error", format!("momentary loudness {} with other rounding", show(&oa.mom)));
                }
                return Ok(());
            }
            set_env(CSR_DEFAULT);
            let ob = b.an.observe(&w);
            ctx.see(&oa);
            let cats = if op.k == K::Add && op.arg(0) == 0 { ALL & !PREV } else { ALL };
            let tol = Tol { lu: 1e-9, floor: 1e-30, tp: 1e-6, tp_abs: 1e-30, sp: 1e-9 };
            // what is denormal may be flushed in a peak
            let mut oa2 = oa.clone();
            let flush = |v: &mut Vec<R>, w: &Vec<R>| {
                for (x, y) in v.iter_mut().zip(w) {
                    if let (Ok(p), Ok(q)) = (&x, &y) {
                        if p.abs() < 1e-30 && q.abs() < 1e-30 {
                            *x = *y;
                        }
                    }
                }
            };
            flush(&mut oa2.sp, &ob.sp);
            flush(&mut oa2.psp, &ob.psp);
            compare(&oa2, &ob, cats, tol, &vec![4.0; oa.ch as usize])
        })()
        .map_err(|v| at(v, i, op))?;
    }
    set_env(CSR_DEFAULT);
    ctx.nontrivial &= a.frames > 0;
    ctx.sim_ms += a.sim_ms;
    ctx.frames += a.frames;
    Ok(())
}

pub fn sprinkle_unused(r: &mut Rng, s: &mut Scen) {
    sprinkle(r, s, 0, bad_op);
}
