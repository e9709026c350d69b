//! Building blocks of the scenario generators.

use crate::model::{self, has};
use crate::rng::Rng;
use crate::scen::{Scen, Seg, K};

pub const NAMED_RATES: [u32; 22] = [
    4000, 8000, 11025, 16000, 22050, 32000, 44100, 48000, 48005, 88200, 95999, 96000, 96001,
    176400, 191999, 192000, 192001, 384000, 768000, 1411200, 2822399, 2822400,
];

/// A low sample rate at which the K-weighting filter is well behaved, so that minutes of simulated
/// time are cheap.
pub fn cheap_rate(r: &mut Rng) -> u32 {
    loop {
        let rate = match r.below(6) {
            0 => r.range(84, 140),
            1 => r.range(140, 260),
            2 => r.range(259, 420),
            3 => r.range(420, 840),
            4 => r.range(1122, 1681),
            _ => r.pick(&[120, 150, 200, 240, 400, 420, 500, 800, 1200, 1600]),
        } as u32;
        if model::well_behaved(rate) {
            return rate;
        }
    }
}

pub fn any_rate(r: &mut Rng) -> u32 {
    match r.below(20) {
        0..=13 => cheap_rate(r),
        14..=17 => r.pick(&NAMED_RATES[..9]),
        18 => r.pick(&NAMED_RATES),
        _ => r.logrange(3400, 200_000) as u32,
    }
}

pub fn channels(r: &mut Rng) -> u32 {
    match r.below(20) {
        0..=3 => 1,
        4..=9 => 2,
        10 => 3,
        11 => 4,
        12 => 5,
        13..=14 => 6,
        15 => 7,
        16 => 8,
        17 => r.range(9, 15) as u32,
        18 => r.pick(&[16, 17, 24]),
        _ => r.pick(&[2, 6, 8, 33, 64]),
    }
}

/// A random valid mode that includes `must`.
pub fn mode(r: &mut Rng, must: u8) -> u8 {
    let mut m = model::M | must;
    if r.chance(1, 4) {
        // just what is needed
    } else if r.chance(1, 3) {
        m |= model::S | model::I | model::LRA | model::TP;
    } else {
        for f in [model::S, model::I, model::LRA, model::SP, model::TP] {
            if r.chance(1, 2) {
                m |= f;
            }
        }
    }
    if r.chance(2, 5) {
        m |= model::HIST;
    }
    m
}

pub struct Cfg {
    pub ch: u32,
    pub rate: u32,
    pub mode: u8,
    pub s100: i64,
}

/// Pick the configuration and note it in the scenario.
pub fn config(r: &mut Rng, s: &mut Scen, must: u8, rate: u32, ch: u32) -> Cfg {
    let mode = mode(r, must);
    // keep the buffers of expensive combinations reasonable
    let ch = if rate > 200_000 { ch.min(3) } else { ch };
    let ch = if rate > 50_000 { ch.min(8) } else { ch };
    s.set("ch", ch as i64);
    s.set("rate", rate as i64);
    s.set("mode", mode as i64);
    Cfg {
        ch,
        rate,
        mode,
        s100: (rate as i64 + 5) / 10,
    }
}

pub fn level(r: &mut Rng, hot: bool) -> i64 {
    match r.below(10) {
        0..=3 => r.range(-2000, 0),
        4..=5 => r.range(-4500, -2000),
        6 => r.range(-7500, -4500),
        7 => r.range(-9500, -6500),
        8 => r.pick(&[0, -600, -1000, -2000, -2300]),
        _ => {
            if hot {
                r.range(0, 3500)
            } else {
                r.range(-1200, 0)
            }
        }
    }
}

pub fn seg(r: &mut Rng, len: i64, hot: bool) -> Seg {
    let kind = [1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 0][r.below(13) as usize];
    Seg {
        len,
        kind,
        lvl: level(r, hot),
        f: r.logrange(20, 4500),
        mask: if r.chance(1, 4) { r.next() | 1 } else { u64::MAX },
        seed: r.below(1 << 31),
    }
}

/// Fill the signal with segments of random length until it has `frames`.
pub fn segments(r: &mut Rng, s: &mut Scen, frames: i64, s100: i64, hot: bool) {
    let longest = match r.below(3) {
        0 => 5,
        1 => 40,
        _ => 200,
    };
    let mut have = 0;
    while have < frames {
        let mut len = r.logrange(1, longest) * s100;
        if r.chance(1, 4) {
            len += r.range(-(s100 / 2), s100 / 2);
        }
        let len = len.max(1);
        let g = seg(r, len, hot);
        s.segs.push(g);
        have += len;
        if s.segs.len() > 60 && have < frames {
            // the rest in one
            let mut g = seg(r, frames - have, hot);
            if matches!(g.kind, 0 | 4) {
                g.kind = r.range(1, 2);
            }
            s.segs.push(g);
            break;
        }
    }
}

/// Programme of steady parts on the first channel, whose loudness is chosen exactly (0.01 LU): around the
/// gates, around each other's relative gates, and at the ends of the histogram.
pub fn programme(r: &mut Rng, s: &mut Scen, rate: u32, s100: i64, frames: i64) {
    let (b, a) = crate::model::k_weighting(rate as f64);
    let response = |w: f64| {
        let at = |c: &[f64; 5]| {
            let (mut re, mut im) = (0.0, 0.0);
            for (k, v) in c.iter().enumerate() {
                re += v * (w * k as f64).cos();
                im -= v * (w * k as f64).sin();
            }
            re * re + im * im
        };
        at(&b) / at(&a)
    };
    let top = match r.below(8) {
        0 => r.range(-7010, -6970),
        1 => r.range(-5060, -4900),
        2 => r.range(-6100, -5900),
        3 => r.range(2900, 3100),
        4 => r.range(-500, 2500),
        _ => r.range(-6900, -500),
    };
    let mut seed = r.below(1 << 30);
    while crate::rng::mix2(seed, 0) % 5 > 1 {
        seed += 1;
    }
    let mut have = 0;
    let second = r.chance(1, 2);
    // two levels whose mean puts a relative gate right on the quieter one
    let (quiet, loud) = (r.logrange(4, 60), r.logrange(4, 60));
    let low = match r.below(3) {
        0 => r.range(-7000, -6985),
        _ => r.range(-6990, 900),
    };
    let share = loud as f64 / (quiet + loud) as f64;
    let gate = r.pick(&[1000, 2000]) + r.range(-12, 12);
    let high = low + gate - (1000.0 * share.log10()).round() as i64;
    let aligned = r.chance(1, 2);
    while have < frames && s.segs.len() < 60 {
        let turn = s.segs.len() % 2;
        let lu = if aligned { [high, low][turn] } else { match r.below(9) {
            0..=2 => top,
            3 => top - 1000 + r.range(-60, 60),
            4 => top - 2000 + r.range(-150, 60),
            5 => r.range(-7015, -6985),
            6 => top - r.range(0, 3000),
            7 => r.pick(&[-7000, -6995, -6990, -6985, 2985, 2990, 2995, 3000, 3005]),
            _ => top - r.range(0, 400),
        } };
        let (kind, f) = if r.chance(2, 3) { (7, 1) } else { (1, r.range(600, 4000)) };
        let power = if kind == 7 {
            response(std::f64::consts::PI)
        } else {
            0.5 * response(2.0 * std::f64::consts::PI * f as f64 / 10000.0)
        };
        let lvl = (lu as f64 + 69.1 - 1000.0 * power.log10()).round() as i64;
        let mut len = r.logrange(4, 120) * s100;
        if aligned {
            len = [quiet, loud][turn] * 10 * s100;
        } else if second || r.chance(1, 3) {
            len = (len / (10 * s100)).max(3) * 10 * s100;
        } else if r.chance(1, 4) {
            len += r.range(0, s100);
        }
        s.segs.push(Seg { len, kind, lvl, f, mask: 1, seed });
        have += len;
    }
}

/// How many frames to simulate for a budget in channel samples.
pub fn budget(r: &mut Rng, c: &Cfg) -> i64 {
    let b = match r.below(12) {
        0 => 300_000,
        1..=3 => 120_000,
        _ => 40_000,
    };
    let f = b / c.ch as i64;
    // at least enough for a few blocks if that is affordable
    f.max((c.s100 * 7).min(700_000 / c.ch as i64))
}

/// Length of a delivery.
pub fn delivery(r: &mut Rng, s100: i64) -> i64 {
    match r.below(16) {
        0 => 1,
        1 => 0,
        2 => r.range(1, 7),
        3..=4 => r.range(1, s100.max(2)),
        5 => s100,
        6 => s100 + r.range(-1, 1),
        7 => 4 * s100 + r.range(-1, 1),
        8..=9 => r.range(1, 8) * s100,
        10..=11 => r.range(1, 10 * s100),
        12 => r.range(1, 12) * s100 + r.range(-1, 1),
        13 => 30 * s100 + r.range(-1, 1),
        _ => r.logrange(1, 60 * s100),
    }
    .max(0)
}

pub fn fmt(r: &mut Rng) -> i64 {
    r.range(0, 3)
}

pub fn window_ms(r: &mut Rng, cur: i64) -> i64 {
    match r.below(14) {
        0 => cur,
        1 => cur + r.range(1, 60),
        2 => 2 * cur + 200 + r.range(0, 5000),
        3 => r.pick(&[1, 2, 3, 5, 10, 20]),
        4 => r.pick(&[100, 200, 400, 1000, 3000]),
        5 => r.pick(&[399, 401, 2999, 3001, 99, 101]),
        6 => i64::from(u32::MAX) - r.range(0, 2),
        _ => r.range(1, cur.max(2)),
    }
}

/// Weights of the operations of a history.
#[derive(Clone, Copy)]
pub struct Prof {
    pub query: u32,
    pub reset: u32,
    pub seed: u32,
    pub map: u32,
    pub chparams: u32,
    pub maxwin: u32,
    pub maxhist: u32,
    /// may change to other sample rates
    pub rates: bool,
}

pub struct Cur {
    pub ch: i64,
    pub rate: i64,
    pub win: i64,
    pub s100: i64,
}

pub fn cur(c: &Cfg) -> Cur {
    Cur {
        ch: c.ch as i64,
        rate: c.rate as i64,
        win: if has(c.mode, model::S) { 3000 } else { 400 },
        s100: c.s100,
    }
}

pub fn query(r: &mut Rng, s: &mut Scen, t: u32, win: i64) {
    let a = [window_ms(r, win), window_ms(r, win), window_ms(r, win)];
    s.op(K::Query, t, &a);
}

/// One state-changing operation other than a delivery.
pub fn reconf(r: &mut Rng, s: &mut Scen, t: u32, k: K, c: &mut Cur, rates: bool) {
    match k {
        K::Reset => s.op(K::Reset, t, &[]),
        K::SetMap => {
            if r.chance(1, 3) {
                let (i, v) = (r.range(0, c.ch - 1), r.range(0, 31));
                s.op(K::SetCh, t, &[i, v]);
            } else {
                let v = if r.chance(1, 4) { 0 } else { r.range(1, 1000) };
                s.op(K::SetMap, t, &[v]);
            }
        }
        K::ChParams => {
            let (mut ch, mut rate) = (c.ch, c.rate);
            let what = r.below(8);
            if what != 0 && what < 5 {
                ch = channels(r).min(12) as i64;
            }
            if what >= 4 && rates {
                rate = if c.rate > 3400 && r.chance(1, 2) {
                    r.pick(&NAMED_RATES[..9]) as i64
                } else {
                    cheap_rate(r) as i64
                };
            }
            c.ch = ch;
            c.rate = rate;
            c.s100 = (rate + 5) / 10;
            s.op(K::ChParams, t, &[ch, rate]);
        }
        K::MaxWin => {
            let w = match r.below(10) {
                0 => 0,
                1 => c.win,
                2 => r.range(0, 400),
                3 => r.pick(&[400, 3000, 399, 401, 2999, 3001, 2000]),
                4..=6 => r.range(400, 5000),
                7 => r.logrange(1000, 60_000),
                // beyond 2^32 when multiplied by the rate
                8 if matches!(s.prop.as_str(), "P02" | "P10" | "P19") && c.ch == 1 && r.chance(1, 3) => {
                    (r.range(4_295_000, 5_000_000) * 1000 / c.rate).min(4_000_000_000)
                }
                8 if r.chance(1, 3) => r.logrange(60_000, 3_000_000).min(40_000_000 / (c.s100 * c.ch).max(1)),
                _ => r.range(3000, 12_000),
            };
            c.win = w.max(400);
            s.op(K::MaxWin, t, &[w]);
        }
        K::MaxHist => {
            let h = history_ms(r);
            s.op(K::MaxHist, t, &[h]);
        }
        _ => (),
    }
}

pub fn history_ms(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => r.pick(&[0, 1, 399, 400, 2999, 3000, 3001]),
        1 => r.pick(&[u32::MAX as i64, u32::MAX as i64 - 1, 1_000_000_000]),
        2..=4 => r.range(400, 3500),
        5..=7 => r.range(3000, 20_000),
        _ => r.logrange(3000, 600_000),
    }
}

/// A random history: deliveries mixed with the operations of the profile.
pub fn history(r: &mut Rng, s: &mut Scen, t: u32, c: &Cfg, frames: i64, p: &Prof) {
    let mut cu = cur(c);
    // swarm: per run only some kinds of operations take part
    let on = |r: &mut Rng, w: u32| if w > 0 && r.chance(3, 5) { w } else { 0 };
    let w = [
        60,
        on(r, p.query).max(p.query / 4),
        on(r, p.reset),
        on(r, p.seed),
        on(r, p.map),
        on(r, p.chparams),
        on(r, p.maxwin),
        on(r, p.maxhist),
    ];
    let fixed = if r.chance(1, 3) { Some((fmt(r), r.range(0, 1))) } else { None };
    // deliveries after which the ring is where it was
    let around = r.chance(1, 10);
    let mut left = frames;
    let mut n = 0;
    while left > 0 && n < 220 {
        n += 1;
        match r.weighted(&w) {
            0 => {
                let k = if around && r.chance(1, 2) {
                    (cu.rate * cu.win / 1000 + cu.s100 - 1) / cu.s100.max(1) * cu.s100
                } else {
                    delivery(r, cu.s100)
                };
                let k = k.min(left);
                let (f, l) = fixed.unwrap_or_else(|| (fmt(r), r.range(0, 1)));
                s.op(K::Add, t, &[k, f, l]);
                left -= k.max(1);
            }
            1 => query(r, s, t, cu.win),
            2 => reconf(r, s, t, K::Reset, &mut cu, false),
            3 => {
                let k = if r.chance(1, 8) { 0 } else { r.range(1, 3 * cu.s100) }.min(left);
                let (f, l) = (fmt(r), r.range(0, 1));
                s.op(K::Seed, t, &[k, f, l]);
                left -= k.max(1);
            }
            4 => reconf(r, s, t, K::SetMap, &mut cu, false),
            5 => reconf(r, s, t, K::ChParams, &mut cu, p.rates),
            6 => reconf(r, s, t, K::MaxWin, &mut cu, false),
            _ => reconf(r, s, t, K::MaxHist, &mut cu, false),
        }
    }
    query(r, s, t, cu.win);
}

/// Split `n` frames into deliveries.
pub fn parts(n: i64, style: i64, seed: i64, s100: i64, to_boundary: i64) -> Vec<i64> {
    let mut r = Rng::new(seed as u64 ^ 0x5151);
    let mut out = vec![];
    let mut left = n;
    match style {
        0 => out.push(n),
        1 => {
            if n > 6000 {
                return parts(n, 2, seed, s100, to_boundary);
            }
            out.extend(std::iter::repeat(1).take(n as usize));
        }
        2 => {
            let max = (n / 400).max(50);
            while left > 0 {
                let k = r.range(1, max).min(left);
                out.push(k);
                left -= k;
            }
        }
        3 => {
            // cuts next to block boundaries
            let mut edge = to_boundary;
            while left > 0 {
                let k = (edge + r.range(-1, 1)).clamp(1, left);
                out.push(k);
                left -= k;
                edge = edge - k + s100 * r.range(1, 5);
            }
        }
        4 => {
            while left > 0 {
                let k = s100.min(left).max(1);
                out.push(k);
                left -= k;
            }
        }
        5 => {
            while left > 0 {
                let k = r.logrange(1, left).min(left);
                out.push(k);
                left -= k;
            }
        }
        _ => {
            while left > 0 {
                if r.chance(1, 3) {
                    out.push(0);
                }
                let k = r.range(1, 3 * s100).min(left);
                out.push(k);
                left -= k;
            }
            out.push(0);
        }
    }
    out
}
