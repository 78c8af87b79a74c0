//! Workloads run by Miri. A program prints `EV name n` lines for what it observed and
//! `BAD text` for a wrong result; data races and undefined behavior are Miri's to report.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545f4914f6cdd1d)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.u64() >> 33) % n
    }
}
pub fn arg(n: usize) -> u64 {
    std::env::args().nth(n).and_then(|s| s.parse().ok()).unwrap_or(1)
}
