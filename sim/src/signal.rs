//! Synthesises the audio of a scenario: a pure function of (segments, position, channel).

use crate::rng::{mix, mix2};
use crate::scen::Seg;
use std::f64::consts::PI;

pub const I16: i64 = 0;
pub const I32: i64 = 1;
pub const F32: i64 = 2;
pub const F64: i64 = 3;

pub struct Stream<'a> {
    pub segs: &'a [Seg],
    /// quantise everything to the 16-bit grid, so that all formats carry identical samples
    pub grid: bool,
    pub pos: i64,
}

fn gain(seg: &Seg, ch: u32) -> f64 {
    if seg.mask & (1u64 << (ch % 64)) == 0 {
        return 0.0;
    }
    let g = match mix2(seg.seed, ch as u64) % 5 {
        0 | 1 => 1.0,
        2 => 0.5,
        3 => 0.25,
        _ => -0.8,
    };
    g * 10f64.powf(seg.lvl as f64 / 2000.0)
}

fn unit(h: u64) -> f64 {
    (h >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}

fn shape(seg: &Seg, off: i64, ch: u32) -> f64 {
    match seg.kind {
        0 => 0.0,
        1 => {
            let f = seg.f as f64 / 10000.0 * (1.0 + 0.01 * (ch % 7) as f64);
            (2.0 * PI * f * off as f64 + (ch % 5) as f64).sin()
        }
        2 => unit(mix2(seg.seed ^ off as u64, ch as u64 + 77)),
        3 => {
            let period = (10000 / seg.f.max(1)).max(2);
            if off % period < period / 2 {
                1.0
            } else {
                -1.0
            }
        }
        4 => {
            // a single pulse
            let at = mix(seg.seed) as i64 & 0x7fff_ffff;
            if off == at % seg.len.max(1) {
                1.0
            } else {
                0.0
            }
        }
        5 => 1.0,
        6 => {
            // fading tone
            let f = seg.f as f64 / 10000.0;
            let e = (off % 4096) as f64 / 4096.0;
            (2.0 * PI * f * off as f64).sin() * e
        }
        7 => {
            if off & 1 == 0 {
                1.0
            } else {
                -1.0
            }
        }
        _ => {
            // sparse pulses
            let h = mix2(seg.seed ^ (off as u64).wrapping_mul(31), ch as u64);
            if h % 97 == 0 {
                unit(mix(h))
            } else {
                0.0
            }
        }
    }
}

impl<'a> Stream<'a> {
    pub fn new(segs: &'a [Seg], grid: bool) -> Stream<'a> {
        Stream { segs, grid, pos: 0 }
    }

    /// The samples of `frames` frames starting at `pos`, interleaved.
    pub fn at(&self, pos: i64, frames: i64, channels: u32) -> Vec<f64> {
        let ch = channels as usize;
        let mut out = vec![0.0; frames as usize * ch];
        let mut start = 0i64;
        for seg in self.segs {
            let len = seg.len.max(0);
            let (a, b) = (start.max(pos), (start + len).min(pos + frames));
            if a < b && seg.kind != 0 {
                for c in 0..channels {
                    let g = gain(seg, c);
                    if g == 0.0 {
                        continue;
                    }
                    for p in a..b {
                        let v = g * shape(seg, p - start, c);
                        out[(p - pos) as usize * ch + c as usize] = v;
                    }
                }
            }
            start += len;
            if start >= pos + frames {
                break;
            }
        }
        if self.grid {
            for v in out.iter_mut() {
                *v = to_i16(*v) as f64 / 32768.0;
            }
        }
        out
    }

    pub fn take(&mut self, frames: i64, channels: u32) -> Vec<f64> {
        let v = self.at(self.pos, frames, channels);
        self.pos += frames;
        v
    }
}

fn to_i16(v: f64) -> i16 {
    (v * 32768.0).round().clamp(-32768.0, 32767.0) as i16
}

fn to_i32(v: f64) -> i32 {
    (v * 2147483648.0).round().clamp(-2147483648.0, 2147483647.0) as i32
}

/// Samples in one of the formats the library accepts, with the exact values as f64 alongside.
pub enum Buf {
    I16(Vec<i16>),
    I32(Vec<i32>),
    F32(Vec<f32>),
    F64(Vec<f64>),
}

impl Buf {
    pub fn new(fmt: i64, data: &[f64]) -> (Buf, Vec<f64>) {
        match fmt.rem_euclid(4) {
            I16 => {
                let v: Vec<i16> = data.iter().map(|v| to_i16(*v)).collect();
                let e = v.iter().map(|v| *v as f64 / 32768.0).collect();
                (Buf::I16(v), e)
            }
            I32 => {
                let v: Vec<i32> = data.iter().map(|v| to_i32(*v)).collect();
                let e = v.iter().map(|v| *v as f64 / 2147483648.0).collect();
                (Buf::I32(v), e)
            }
            F32 => {
                let v: Vec<f32> = data.iter().map(|v| *v as f32).collect();
                let e = v.iter().map(|v| *v as f64).collect();
                (Buf::F32(v), e)
            }
            _ => (Buf::F64(data.to_vec()), data.to_vec()),
        }
    }
}

pub fn planes<T: Copy>(v: &[T], channels: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = (0..channels)
        .map(|_| Vec::with_capacity(v.len() / channels))
        .collect();
    for f in v.chunks_exact(channels) {
        for (c, s) in f.iter().enumerate() {
            out[c].push(*s);
        }
    }
    out
}
