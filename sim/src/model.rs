//! Executable reference model of the analyzer, written from ITU-R BS.1770, EBU Tech 3341/3342 and
//! the documentation of the library: everything is kept as plain lists and computed on demand.

use std::collections::VecDeque;
use std::f64::consts::PI;

pub const M: u8 = 1;
pub const S: u8 = 3;
pub const I: u8 = 5;
pub const LRA: u8 = 11;
pub const SP: u8 = 17;
pub const TP: u8 = 49;
pub const HIST: u8 = 64;

pub fn has(mode: u8, m: u8) -> bool {
    mode & m == m
}

pub const UNUSED: u32 = 0;
pub const DUAL_MONO: u32 = 6;

pub fn weight(ch: u32) -> f64 {
    match ch {
        0 => 0.0,
        // Ls, Rs, M+060, M-060, M+090, M-090
        4 | 5 | 9 | 10 | 11 | 12 => 1.41,
        6 => 2.0,
        _ => 1.0,
    }
}

pub fn default_map(channels: u32) -> Vec<u32> {
    match channels {
        4 => vec![1, 2, 4, 5],
        5 => vec![1, 2, 3, 4, 5],
        n => (0..n)
            .map(|c| match c {
                0 => 1,
                1 => 2,
                2 => 3,
                4 => 4,
                5 => 5,
                _ => 0,
            })
            .collect(),
    }
}

pub fn loudness(e: f64) -> f64 {
    10.0 * e.log10() - 0.691
}

fn energy(l: f64) -> f64 {
    10f64.powf((l + 0.691) / 10.0)
}

/// K-weighting as one fourth-order section.
pub fn k_weighting(rate: f64) -> ([f64; 5], [f64; 5]) {
    let k = (PI * 1681.974450955533 / rate).tan();
    let q = 0.7071752369554196;
    let vh = 10f64.powf(3.999843853973347 / 20.0);
    let vb = vh.powf(0.4996667741545416);
    let a0 = 1.0 + k / q + k * k;
    let pb = [
        (vh + vb * k / q + k * k) / a0,
        2.0 * (k * k - vh) / a0,
        (vh - vb * k / q + k * k) / a0,
    ];
    let pa = [1.0, 2.0 * (k * k - 1.0) / a0, (1.0 - k / q + k * k) / a0];
    let k = (PI * 38.13547087602444 / rate).tan();
    let q = 0.5003270373238773;
    let d = 1.0 + k / q + k * k;
    let rb = [1.0, -2.0, 1.0];
    let ra = [1.0, 2.0 * (k * k - 1.0) / d, (1.0 - k / q + k * k) / d];
    let mut b = [0.0; 5];
    let mut a = [0.0; 5];
    for i in 0..3 {
        for j in 0..3 {
            b[i + j] += pb[i] * rb[j];
            a[i + j] += pa[i] * ra[j];
        }
    }
    (b, a)
}

/// Are the poles of the filter inside the unit circle by a margin? (Schur-Cohn)
pub fn stable(rate: u32) -> bool {
    let (b, a) = k_weighting(rate as f64);
    if b.iter().chain(a.iter()).any(|v| !v.is_finite() || v.abs() > 1e4) {
        return false;
    }
    let mut p: Vec<f64> = a.to_vec();
    while p.len() > 1 {
        let n = p.len() - 1;
        let k = p[n] / p[0];
        if k.abs() >= 0.99999999999 {
            return false;
        }
        p = (0..n).map(|i| p[i] - k * p[n - i]).collect();
    }
    true
}

/// Slowest pole radius must leave the filter usable for tests at low rates.
pub fn well_behaved(rate: u32) -> bool {
    if !stable(rate) {
        return false;
    }
    if rate >= 4000 {
        return true;
    }
    // the impulse response must have died down after a second
    let (b, a) = k_weighting(rate as f64);
    let mut w = [0.0f64; 5];
    let mut tail: f64 = 0.0;
    let mut peak: f64 = 0.0;
    for n in 0..(2 * rate) {
        let x = if n == 0 { 1.0 } else { 0.0 };
        w[0] = x - a[1] * w[1] - a[2] * w[2] - a[3] * w[3] - a[4] * w[4];
        let y = b[0] * w[0] + b[1] * w[1] + b[2] * w[2] + b[3] * w[3] + b[4] * w[4];
        w.copy_within(0..4, 1);
        peak = peak.max(y.abs());
        if n > rate {
            tail = tail.max(y.abs());
        }
    }
    peak < 100.0 && tail < 1e-9
}

/// Largest magnitude left of the impulse response after that many frames, relative to its peak.
pub fn tail(rate: u32, from: u32) -> f64 {
    let (b, a) = k_weighting(rate as f64);
    let mut w = [0.0f64; 5];
    let (mut tail, mut peak) = (0.0f64, 0.0f64);
    for n in 0..from + rate / 4 {
        let x = if n == 0 { 1.0 } else { 0.0 };
        w[0] = x - a[1] * w[1] - a[2] * w[2] - a[3] * w[3] - a[4] * w[4];
        let y = b[0] * w[0] + b[1] * w[1] + b[2] * w[2] + b[3] * w[3] + b[4] * w[4];
        w.copy_within(0..4, 1);
        peak = peak.max(y.abs());
        if n > from {
            tail = tail.max(y.abs());
        }
    }
    tail / peak
}

struct Taps {
    factor: usize,
    n: usize,
    h: Vec<f64>,
}

impl Taps {
    fn new(rate: u32) -> Option<Taps> {
        let factor = if rate < 96000 {
            4
        } else if rate < 192000 {
            2
        } else {
            return None;
        };
        let h = (0..48)
            .map(|j| {
                let w = 0.5 * (1.0 - (2.0 * PI * j as f64 / 48.0).cos());
                let m = j as f64 - 24.0;
                if m == 0.0 {
                    w
                } else {
                    let x = m * PI / factor as f64;
                    w * x.sin() / x
                }
            })
            .collect();
        Some(Taps {
            factor,
            n: 48 / factor,
            h,
        })
    }
}

/// A list of stored energies with multiplicities.
pub type Stored = Vec<(f64, u64)>;

#[derive(Clone, Debug, Default)]
pub struct Gated {
    /// None: too close to a gate to tell
    pub global: Option<f64>,
    pub count: Option<(u64, f64)>,
    pub relthr: f64,
}

/// Two-stage gating over everything that is stored.
pub fn gate(s: &[&Stored], eps: f64) -> Gated {
    let mut n = 0u64;
    let mut sum = 0.0;
    for (e, c) in s.iter().flat_map(|s| s.iter()) {
        n += c;
        sum += e * *c as f64;
    }
    if n == 0 {
        return Gated {
            global: Some(f64::NEG_INFINITY),
            count: Some((0, 0.0)),
            relthr: -70.0,
        };
    }
    if sum.is_nan() {
        return Gated {
            global: Some(f64::NAN),
            count: Some((0, 0.0)),
            relthr: f64::NAN,
        };
    }
    let thr = 0.1 * (sum / n as f64);
    let (mut gn, mut ge) = (0, 0.0);
    let mut marginal = false;
    for (e, c) in s.iter().flat_map(|s| s.iter()) {
        if (e / thr - 1.0).abs() < eps {
            marginal = true;
        }
        if *e >= thr {
            gn += c;
            ge += e * *c as f64;
        }
    }
    Gated {
        global: if marginal {
            None
        } else if gn == 0 {
            Some(f64::NEG_INFINITY)
        } else {
            Some(loudness(ge / gn as f64))
        },
        count: if marginal { None } else { Some((gn, ge)) },
        relthr: loudness(thr),
    }
}

/// The loudness range; None: too close to a gate to tell.
pub fn range(s: &[&Stored], eps: f64) -> Option<f64> {
    let mut v: Vec<(f64, u64)> = s.iter().flat_map(|s| s.iter().copied()).collect();
    let n: u64 = v.iter().map(|x| x.1).sum();
    if n == 0 {
        return Some(0.0);
    }
    if v.iter().any(|x| x.0.is_nan()) {
        return Some(f64::NAN);
    }
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let power = v.iter().map(|x| x.0 * x.1 as f64).sum::<f64>() / n as f64;
    let thr = 0.01 * power;
    if v.iter().any(|x| (x.0 / thr - 1.0).abs() < eps) {
        return None;
    }
    let v: Vec<(f64, u64)> = v.into_iter().filter(|x| !(x.0 < thr)).collect();
    let n: u64 = v.iter().map(|x| x.1).sum();
    if n == 0 {
        return Some(0.0);
    }
    let at = |i: u64| -> f64 {
        let mut left = i;
        for x in &v {
            if left < x.1 {
                return x.0;
            }
            left -= x.1;
        }
        v[v.len() - 1].0
    };
    // nearest rank, halves upwards: EBU Tech 3342
    let idx = |percent: u64| ((n - 1) * percent + 50) / 100;
    Some(loudness(at(idx(95))) - loudness(at(idx(10))))
}

pub struct Model {
    pub mode: u8,
    pub ch: u32,
    pub rate: u32,
    pub map: Vec<u32>,
    pub window: u64,
    pub history: u64,
    pub s100: u64,
    b: [f64; 5],
    a: [f64; 5],
    gain: f64,
    st: Vec<[f64; 5]>,
    /// filtered samples since the buffer was emptied, without the first `dropped`
    filt: Vec<Vec<f64>>,
    dropped: u64,
    /// frames since the buffer was emptied
    pub frames: u64,
    /// channel was unused while something was processed since the filter was cleared
    gap: Vec<bool>,
    pub fed_since_clear: bool,
    taps: Option<Taps>,
    tpbuf: Vec<Vec<f64>>,
    pub sp: Vec<f64>,
    pub tp: Vec<f64>,
    /// what the true peak is at least: only from windows of ordinary samples
    pub tplow: Vec<f64>,
    pub psp: Vec<f64>,
    pub ptp: Vec<f64>,
    /// largest magnitude since reset, for tolerances
    pub maxabs: Vec<f64>,
    pub last_empty: bool,
    blocks: VecDeque<f64>,
    st_blocks: VecDeque<f64>,
    hist: Vec<u64>,
    st_hist: Vec<u64>,
    /// a stored value was too close to a gate or bin boundary to tell
    pub marg_blocks: bool,
    pub marg_st: bool,
    pub n_blocks: u64,
    pub n_st: u64,
    pub n_gated_out: u64,
    pub tol: f64,
    bounds: &'static [f64],
}

fn bounds() -> &'static [f64] {
    use std::sync::OnceLock;
    static B: OnceLock<Vec<f64>> = OnceLock::new();
    B.get_or_init(|| (0..=1000).map(|i| energy(i as f64 / 10.0 - 70.0)).collect())
}

fn center(i: usize) -> f64 {
    energy(i as f64 / 10.0 - 69.95)
}

fn centers() -> &'static [f64] {
    use std::sync::OnceLock;
    static B: OnceLock<Vec<f64>> = OnceLock::new();
    B.get_or_init(|| (0..1000).map(center).collect())
}

pub fn ring_frames(rate: u32, window: u64) -> u64 {
    let s100 = (rate as u64 + 5) / 10;
    let n = (rate as u64 * window / 1000).max(s100 * (window / 100));
    (n + s100 - 1) / s100 * s100
}

impl Model {
    pub fn new(ch: u32, rate: u32, mode: u8) -> Model {
        let mut m = Model {
            mode,
            ch,
            rate,
            map: default_map(ch),
            window: if has(mode, S) { 3000 } else { 400 },
            history: u64::MAX,
            s100: 0,
            b: [0.0; 5],
            a: [0.0; 5],
            gain: 1.0,
            st: vec![],
            filt: vec![],
            dropped: 0,
            frames: 0,
            gap: vec![],
            fed_since_clear: false,
            taps: None,
            tpbuf: vec![],
            sp: vec![0.0; ch as usize],
            tp: vec![0.0; ch as usize],
            tplow: vec![0.0; ch as usize],
            psp: vec![],
            ptp: vec![],
            maxabs: vec![0.0; ch as usize],
            last_empty: false,
            blocks: VecDeque::new(),
            st_blocks: VecDeque::new(),
            hist: vec![0; 1000],
            st_hist: vec![0; 1000],
            marg_blocks: false,
            marg_st: false,
            n_blocks: 0,
            n_st: 0,
            n_gated_out: 0,
            tol: 1e-6,
            bounds: bounds(),
        };
        m.set_rate(rate);
        m.clear_filter();
        m.clear_buffer();
        m
    }

    fn set_rate(&mut self, rate: u32) {
        self.rate = rate;
        self.s100 = (rate as u64 + 5) / 10;
        let (b, a) = k_weighting(rate as f64);
        self.b = b;
        self.a = a;
        self.gain = (0..=200)
            .map(|i| match i {
                0 => 0.0,
                200 => PI,
                _ => PI * 10f64.powf((i - 200) as f64 / 25.0),
            })
            .chain((1..100).map(|i| PI * i as f64 / 100.0))
            .map(|w| {
                let re: f64 = (0..5).map(|k| a[k] * (w * k as f64).cos()).sum();
                let im: f64 = (0..5).map(|k| a[k] * (w * k as f64).sin()).sum();
                1.0 / re.hypot(im)
            })
            .fold(1.0, f64::max);
        self.taps = if has(self.mode, TP) {
            Taps::new(rate)
        } else {
            None
        };
        self.tol = if rate <= 200_000 {
            self.tol.max(1e-6)
        } else {
            1e-3
        };
    }

    fn clear_filter(&mut self) {
        let n = self.ch as usize;
        self.st = vec![[0.0; 5]; n];
        self.gap = vec![false; n];
        self.fed_since_clear = false;
        self.tpbuf = vec![vec![0.0; self.taps.as_ref().map_or(0, |t| t.n)]; n];
        self.psp = vec![0.0; n];
        self.ptp = vec![0.0; n];
        self.last_empty = false;
    }

    fn clear_buffer(&mut self) {
        self.filt = vec![vec![]; self.ch as usize];
        self.dropped = 0;
        self.frames = 0;
    }

    pub fn eps(&self) -> f64 {
        self.tol * 0.25
    }

    pub fn ring(&self) -> u64 {
        ring_frames(self.rate, self.window)
    }

    pub fn reset(&mut self) {
        self.clear_filter();
        self.clear_buffer();
        self.sp.fill(0.0);
        self.tp.fill(0.0);
        self.tplow.fill(0.0);
        self.maxabs.fill(0.0);
        self.blocks.clear();
        self.st_blocks.clear();
        self.hist.fill(0);
        self.st_hist.fill(0);
        self.marg_blocks = false;
        self.marg_st = false;
        self.n_blocks = 0;
        self.n_st = 0;
    }

    pub fn change_parameters(&mut self, ch: u32, rate: u32) {
        if ch == self.ch && rate == self.rate {
            return;
        }
        if ch != self.ch {
            self.ch = ch;
            self.map = default_map(ch);
            self.sp = vec![0.0; ch as usize];
            self.tp = vec![0.0; ch as usize];
            self.tplow = vec![0.0; ch as usize];
            self.maxabs = vec![0.0; ch as usize];
        }
        self.set_rate(rate);
        self.clear_filter();
        self.clear_buffer();
    }

    pub fn clamp_window(&self, ms: u64) -> u64 {
        ms.max(if has(self.mode, S) { 3000 } else { 400 })
    }

    pub fn set_max_window(&mut self, ms: u64) {
        let w = self.clamp_window(ms);
        if w != self.window {
            self.window = w;
            self.clear_buffer();
        }
    }

    pub fn clamp_history(&self, ms: u64) -> u64 {
        ms.max(if has(self.mode, LRA) { 3000 } else { 400 })
    }

    pub fn set_max_history(&mut self, ms: u64) {
        self.history = self.clamp_history(ms);
        self.trim();
    }

    fn trim(&mut self) {
        while self.blocks.len() as u64 > self.history / 100 {
            self.blocks.pop_front();
        }
        while self.st_blocks.len() as u64 > self.history / 3000 {
            self.st_blocks.pop_front();
        }
    }

    /// May the map be changed to this without running into unspecified behaviour? Channels that
    /// were unused while audio was processed must stay so until the filters are cleared.
    pub fn map_ok(&self, map: &[u32]) -> bool {
        map.iter()
            .zip(self.gap.iter())
            .all(|(t, gap)| *t == UNUSED || !*gap)
    }

    pub fn set_map(&mut self, map: &[u32]) {
        self.map.copy_from_slice(map);
    }

    fn filter(&mut self, c: usize, x: f64) -> f64 {
        let (a, b, w) = (&self.a, &self.b, &mut self.st[c]);
        w[0] = x - a[1] * w[1] - a[2] * w[2] - a[3] * w[3] - a[4] * w[4];
        let y = b[0] * w[0] + b[1] * w[1] + b[2] * w[2] + b[3] * w[3] + b[4] * w[4];
        w.copy_within(0..4, 1);
        y
    }

    fn oversample(&mut self, c: usize, x: f64) -> f64 {
        let t = match self.taps {
            None => return 0.0,
            Some(ref t) => t,
        };
        let buf = &mut self.tpbuf[c];
        buf.copy_within(0..t.n - 1, 1);
        buf[0] = x as f32 as f64;
        let mut max = 0.0f64;
        for f in 0..t.factor {
            let mut y = 0.0;
            for (k, v) in buf.iter().enumerate() {
                y += t.h[k * t.factor + f] * v;
            }
            max = max.max(y.abs());
        }
        max
    }

    pub fn seed(&mut self, data: &[f64]) {
        let n = self.ch as usize;
        if data.is_empty() {
            return;
        }
        self.fed_since_clear = true;
        for c in 0..n {
            if self.map[c] == UNUSED {
                self.gap[c] = true;
            }
            for f in data.chunks_exact(n) {
                if self.map[c] != UNUSED {
                    self.filter(c, f[c]);
                }
                self.oversample(c, f[c]);
                self.maxabs[c] = self.maxabs[c].max(f[c].abs());
            }
        }
    }

    pub fn add(&mut self, data: &[f64]) {
        let n = self.ch as usize;
        if data.is_empty() {
            self.last_empty = true;
            return;
        }
        self.last_empty = false;
        self.fed_since_clear = true;
        self.psp.fill(0.0);
        self.ptp.fill(0.0);
        for c in 0..n {
            if self.map[c] == UNUSED {
                self.gap[c] = true;
            }
        }
        let keep = self.ring() as usize;
        let frames = data.len() / n;
        let mut done = 0;
        while done < frames {
            // up to the next multiple of 100 ms
            let left = (self.s100 - self.frames % self.s100) as usize;
            let now = left.min(frames - done);
            for c in 0..n {
                for f in data[done * n..(done + now) * n].chunks_exact(n) {
                    let x = f[c];
                    let y = if self.map[c] != UNUSED {
                        self.filter(c, x)
                    } else {
                        0.0
                    };
                    self.filt[c].push(y);
                    let t = self.oversample(c, x);
                    self.psp[c] = self.psp[c].max(x.abs());
                    self.ptp[c] = self.ptp[c].max(t);
                    if t > self.tplow[c] && self.tpbuf[c].iter().all(|v| v.abs() <= 1e6) {
                        self.tplow[c] = t;
                    }
                    self.maxabs[c] = self.maxabs[c].max(x.abs());
                }
            }
            done += now;
            self.frames += now as u64;
            if self.frames % self.s100 == 0 {
                let k = self.frames / self.s100;
                if k >= 4 && has(self.mode, I) {
                    let e = self.power(self.s100 * 4);
                    self.n_blocks += 1;
                    self.store(e, false);
                }
                if k >= 30 && k % 10 == 0 && has(self.mode, LRA) {
                    let e = self.power(self.s100 * 30);
                    self.n_st += 1;
                    self.store(e, true);
                }
            }
            if self.filt[0].len() > 4 * keep + 4096 {
                let cut = self.filt[0].len() - keep;
                for f in self.filt.iter_mut() {
                    f.drain(..cut);
                }
                self.dropped += cut as u64;
            }
        }
        for c in 0..n {
            self.sp[c] = self.sp[c].max(self.psp[c]);
            self.tp[c] = self.tp[c].max(self.ptp[c]);
        }
    }

    fn store(&mut self, e: f64, st: bool) {
        let eps = self.eps();
        let b = self.bounds;
        let mut marginal = (e / b[0] - 1.0).abs() < eps;
        let below = e < b[0];
        if below {
            self.n_gated_out += 1;
        }
        if has(self.mode, HIST) {
            if !below {
                let i = if e.is_nan() {
                    0
                } else {
                    let i = b.partition_point(|x| *x <= e);
                    (i - 1).min(999)
                };
                if (e / b[i] - 1.0).abs() < eps || (e / b[i + 1] - 1.0).abs() < eps {
                    marginal = true;
                }
                if st {
                    self.st_hist[i] += 1
                } else {
                    self.hist[i] += 1
                }
            }
        } else if !below {
            if st {
                self.st_blocks.push_back(e)
            } else {
                self.blocks.push_back(e)
            }
            self.trim();
        }
        if marginal {
            if st {
                self.marg_st = true
            } else {
                self.marg_blocks = true
            }
        }
    }

    /// Weighted mean power of the last n frames.
    pub fn power(&self, n: u64) -> f64 {
        let mut sum = 0.0;
        for c in 0..self.ch as usize {
            let w = weight(self.map[c]);
            if w == 0.0 {
                continue;
            }
            let f = &self.filt[c];
            let from = f.len().saturating_sub(n as usize);
            let mut s = 0.0;
            for v in &f[from..] {
                s += v * v;
            }
            sum += s * w;
        }
        sum / n as f64
    }

    /// Smallest energy that can be told from silence, given rounding and the loudest sample.
    pub fn floor(&self) -> f64 {
        let m = self.maxabs.iter().fold(0.0f64, |a, b| a.max(*b));
        1e-290 + m * m * if self.rate <= 200_000 { 1e-15 } else { 1e-11 }
    }

    /// Tolerance in LU for a window of energy `e`. The recursive part of the filter holds values up to
    /// max 1/|A| times the loudest sample, so that is how much an output may differ by rounding
    /// alone when its terms are added up in another order.
    pub fn tol_window(&self, e: f64) -> f64 {
        let m = self.maxabs.iter().fold(0.0f64, |a, b| a.max(*b));
        let gain = self.gain;
        let n = 8.0 * f64::EPSILON * m * gain;
        let lu = 8.7 * n * (2.0 * self.ch as f64).sqrt() / e.sqrt();
        if lu.is_nan() { self.tol } else { self.tol.max(lu) }
    }

    fn as_stored(&self, st: bool) -> Stored {
        if has(self.mode, HIST) {
            let h = if st { &self.st_hist } else { &self.hist };
            h.iter()
                .enumerate()
                .filter(|(_, c)| **c > 0)
                .map(|(i, c)| (centers()[i], *c))
                .collect()
        } else {
            let q = if st { &self.st_blocks } else { &self.blocks };
            q.iter().map(|e| (*e, 1)).collect()
        }
    }

    pub fn stored_blocks(&self) -> Stored {
        self.as_stored(false)
    }
    pub fn stored_st(&self) -> Stored {
        self.as_stored(true)
    }
}
