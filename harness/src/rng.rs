//! splitmix64-based deterministic PRNG with boundary-heavy generators.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed ^ stream.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// a number of steps, entries or participants: usually within a..=b, rarely far more
    pub fn many(&mut self, a: u64, b: u64) -> u64 {
        if self.below(250) == 0 {
            self.range(b, b * 12)
        } else {
            self.range(a, b)
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability p percent
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    /// boundary-heavy u32 (domains, nonces, indexes)
    pub fn dom(&mut self) -> u32 {
        const B: &[u32] = &[
            0, 1, 2, 5, 10, 255, 256, 257, 65535, 65536, 1313817164, 26657, 26658, 0x7fff_ffff,
            0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x0100_0000, 0x00ff_ffff, 128, 127,
        ];
        match self.below(4) {
            0 | 1 => *self.pick(B),
            2 => self.below(2000) as u32,
            _ => self.next() as u32,
        }
    }
    /// boundary-heavy amount
    pub fn amt(&mut self) -> u128 {
        let p = 1u128;
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => self.below(100) as u128,
            3 => self.below(1_000_000_000) as u128,
            4 => {
                let k = self.range(1, 127) as u32;
                let d = self.below(3) as i32 - 1;
                match d {
                    -1 => (p << k) - 1,
                    0 => p << k,
                    _ => (p << k) + 1,
                }
            }
            5 => {
                let k = self.range(0, 38) as u32;
                10u128.pow(k)
            }
            6 => self.u128() >> self.below(128),
            _ => *self.pick(&[
                u64::MAX as u128,
                u64::MAX as u128 + 1,
                u64::MAX as u128 - 1,
                u128::MAX,
                u128::MAX - 1,
                i64::MAX as u128,
                i64::MAX as u128 + 1,
                u32::MAX as u128,
                u32::MAX as u128 + 1,
                1u128 << 96,
            ]),
        }
    }
    /// moderate amount that is safe to add up many times
    pub fn amt_small(&mut self) -> u128 {
        match self.below(6) {
            0 => 1,
            1 => self.range(1, 20) as u128,
            2 => self.range(1, 1000) as u128,
            3 => self.range(1, 1_000_000_000_000) as u128,
            4 => (u64::MAX as u128) + self.below(1000) as u128,
            _ => (1u128 << self.range(1, 100)) + self.below(3) as u128,
        }
    }
    pub fn len(&mut self) -> usize {
        const L: &[usize] = &[
            0, 1, 2, 19, 20, 21, 31, 32, 33, 63, 64, 65, 76, 77, 78, 96, 127, 128, 255, 256, 257,
            511, 1000, 1024, 4096, 4097, 8193,
        ];
        if self.below(400) == 0 {
            return *self.pick(&[10_000, 16_385, 40_000, 65_535, 65_536, 65_537]);
        }
        match self.below(3) {
            0 => *self.pick(L),
            1 => self.below(80) as usize,
            _ => self.below(300) as usize,
        }
    }
    pub fn blob(&mut self) -> Vec<u8> {
        let n = self.len();
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => self.bytes(n),
        }
    }
    /// interesting 32-byte words: zero padded, leading/trailing zeros, all zero...
    pub fn word(&mut self) -> Vec<u8> {
        let mut v = self.bytes(32);
        match self.below(12) {
            0 => v = vec![0; 32],
            1 => v = vec![0xff; 32],
            2 => v[..12].fill(0),
            3 => v[..16].fill(0),
            4 => v[..11].fill(0),
            5 => v[..13].fill(0),
            6 => v[20..].fill(0),
            7 => {
                v.fill(0);
                v[31] = 1
            }
            8 => v[0] = 0,
            _ => {}
        }
        v
    }
}
