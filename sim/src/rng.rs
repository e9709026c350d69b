//! The only source of randomness of the simulator: everything is derived from one integer.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93))
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
            *v = mix(z);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        if b <= a {
            return a;
        }
        a + self.below((b - a + 1) as u64) as i64
    }
    /// a..=b, logarithmically distributed
    pub fn logrange(&mut self, a: i64, b: i64) -> i64 {
        let a = a.max(1);
        if b <= a {
            return a;
        }
        let v = (a as f64) * ((b as f64 + 0.999) / a as f64).powf(self.f64());
        (v as i64).clamp(a, b)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    /// index drawn according to the weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
}

/// Order-sensitive digest of an execution (FNV-like over 64-bit words).
#[derive(Clone, Copy)]
pub struct Digest(pub u64);

impl Digest {
    pub fn new() -> Digest {
        Digest(0xcbf2_9ce4_8422_2325)
    }
    pub fn add(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v.wrapping_mul(0x1000_0000_01b3));
    }
    pub fn add_f(&mut self, v: f64) {
        self.add(v.to_bits());
    }
    pub fn add_s(&mut self, s: &str) {
        for b in s.as_bytes() {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        self.add(s.len() as u64);
    }
}
