//! xoshiro256** with the helpers the workload generators need.

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
            x ^ (x >> 31)
        };
        Rng { s: [next(), next(), next(), next()] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b - a == u64::MAX {
            return self.u64();
        }
        a + self.below(b - a + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn fill(&mut self, v: &mut [u8]) {
        for c in v.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0; N];
        self.fill(&mut a);
        a
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.idx(i + 1));
        }
    }
    /// A number biased to small values and to the edges of the 64-bit space.
    pub fn edgy_u64(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => self.below(300),
            2 => u64::MAX - self.below(4),
            3 => {
                let k = self.below(64);
                (1u64 << k).wrapping_sub(self.below(3)).wrapping_add(self.below(2))
            }
            4 => u64::from(self.u32()),
            5 => self.below(100_000),
            6 => i64::MAX as u64 - self.below(2) + self.below(3),
            _ => self.u64(),
        }
    }
    pub fn edgy_u32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => self.below(300) as u32,
            2 => u32::MAX - self.below(4) as u32,
            3 => {
                let k = self.below(32);
                (1u32 << k).wrapping_sub(self.below(3) as u32)
            }
            _ => self.u32(),
        }
    }
    /// A length biased to 0, 1, block boundaries and small values, at most `max`.
    pub fn len(&mut self, max: usize) -> usize {
        let m = max as u64;
        let r = match self.below(6) {
            0 => self.below(3),
            1 => (1u64 << self.below(12)).wrapping_sub(self.below(2)),
            2 => self.below(20),
            3 => self.below(64),
            4 => 16 * self.below(8) + self.below(2),
            _ => self.below(m + 1),
        };
        r.min(m) as usize
    }
    pub fn ascii(&mut self, n: usize) -> String {
        (0..n).map(|_| (0x20 + self.below(95)) as u8 as char).collect()
    }
    /// Arbitrary unicode, including astral and combining characters.
    pub fn unicode(&mut self, n: usize) -> String {
        (0..n)
            .map(|_| match self.below(6) {
                0 => char::from_u32(0x300 + self.below(0x70) as u32).unwrap(),
                1 => char::from_u32(0x1F300 + self.below(0x200) as u32).unwrap(),
                2 => char::from_u32(0xA0 + self.below(0x500) as u32).unwrap_or('ø'),
                3 => char::from_u32(self.below(0x20) as u32).unwrap(),
                _ => (0x20 + self.below(95)) as u8 as char,
            })
            .collect()
    }
}
