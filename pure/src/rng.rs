#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        // scramble, so that the streams of neighbouring seeds do not overlap
        let mut z = s.wrapping_add(0x1234_5678_9ABC_DEF1);
        z = (z ^ (z >> 33)).wrapping_mul(0xFF51AFD7ED558CCD);
        z = (z ^ (z >> 33)).wrapping_mul(0xC4CEB9FE1A85EC53);
        Rng(z ^ (z >> 33))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n.max(1)
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1).max(1) as u64) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform in [1, 10^hi)
    pub fn mag(&mut self, hi: u32) -> u128 {
        let e = self.below(hi as u64) as u32;
        let lo = 10u128.pow(e);
        let v = lo + self.u128() % (lo * 9);
        if self.chance(20) {
            lo
        } else {
            v
        }
    }
}
