//! Seeded generator used for every random decision of the simulator (splitmix64 + xorshift mix).
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x9e3779b97f4a7c15)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.us(xs.len())] }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|&x| x as u64).sum();
        let mut r = self.below(total.max(1));
        for (i, &w) in ws.iter().enumerate() {
            if r < w as u64 { return i }
            r -= w as u64;
        }
        ws.len() - 1
    }
}

/// A generator whose whole output is decided by one value in 0..4096 (its top bits), which makes every draw predictable.
pub struct Const(pub u64);
impl rand::RngCore for Const {
    fn next_u32(&mut self) -> u32 { (self.0 << 20) as u32 }
    fn next_u64(&mut self) -> u64 { self.0 << 52 }
    fn fill_bytes(&mut self, dst: &mut [u8]) { for b in dst { *b = (self.0 >> 4) as u8 } }
}
/// `rand`-compatible stream.
pub struct Small(pub u64);
impl rand::RngCore for Small {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    fn fill_bytes(&mut self, dst: &mut [u8]) { for b in dst { *b = self.next_u64() as u8 } }
}
