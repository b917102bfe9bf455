//! Small deterministic generator (splitmix64); every random choice of the
//! harness goes through it, seeded from VERIF_SEED.
#[derive(Clone)]
pub struct Rng {
    s: u64,
    // the next `left` fields are filled with the byte `v`
    v: u8,
    left: u8,
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng { s: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5851_F42D_4C95_7F2D, v: 0, left: 0 };
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    /// true with probability p/q
    pub fn chance(&mut self, p: usize, q: usize) -> bool {
        self.below(q) < p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// now and then several fields in a row are all zero, all ones, ...
    fn run(&mut self) -> Option<u8> {
        if self.left > 0 {
            self.left -= 1;
            return Some(self.v);
        }
        if self.chance(1, 40) {
            self.v = self.pick(&[0u8, 0, 0xff, 0xff, 0x80, 0x7f, 1]);
            self.left = self.below(10) as u8;
            return Some(self.v);
        }
        None
    }
    pub fn byte(&mut self) -> u8 {
        if let Some(v) = self.run() {
            return v;
        }
        if self.chance(1, 3) {
            self.pick(&[0u8, 1, 2, 63, 64, 127, 128, 129, 254, 255])
        } else {
            self.next() as u8
        }
    }
    pub fn word(&mut self) -> u16 {
        if let Some(v) = self.run() {
            return u16::from_le_bytes([v; 2]);
        }
        match self.below(4) {
            0 => self.pick(&[0u16, 1, 2, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff]),
            1 => self.below(300) as u16,
            _ => self.next() as u16,
        }
    }
    pub fn dword(&mut self) -> u32 {
        if let Some(v) = self.run() {
            return u32::from_le_bytes([v; 4]);
        }
        match self.below(4) {
            0 => self.pick(&[
                0u32, 1, 2, 255, 256, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
            ]),
            1 => self.below(300) as u32,
            _ => self.next() as u32,
        }
    }
    pub fn qword(&mut self) -> u64 {
        if let Some(v) = self.run() {
            return u64::from_le_bytes([v; 8]);
        }
        match self.below(3) {
            0 => self.pick(&[0u64, 1, u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64]),
            _ => self.next(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if let Some(v) = self.run() {
            return vec![v; n];
        }
        if n <= 8 && self.chance(1, 8) {
            return vec![self.pick(&[0u8, 0xff]); n];
        }
        (0..n).map(|_| self.next() as u8).collect()
    }
}
