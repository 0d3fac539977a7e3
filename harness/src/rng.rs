//! Deterministic per-case random source: case = hash(seed, property, stream, index).
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hstr(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, prop: &str, stream: &str, idx: u64) -> Rng { Rng(mix(mix(seed ^ hstr(prop)) ^ mix(hstr(stream)).wrapping_add(mix(idx)))) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    /// [0,1)
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    pub fn log(&mut self, a: f64, b: f64) -> f64 { (self.uni(a.ln(), b.ln())).exp().clamp(a, b) }
    pub fn below(&mut self, n: u64) -> u64 { self.u64() % n }
    pub fn int(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
    pub fn sign(&mut self) -> f64 { if self.chance(0.5) { 1.0 } else { -1.0 } }
    /// relative offset spread over many magnitudes
    pub fn tiny(&mut self, lo: f64, hi: f64) -> f64 { self.log(lo, hi) }
}
pub fn ulp_up(x: f64) -> f64 { if x == 0.0 { f64::from_bits(1) } else if x > 0.0 { f64::from_bits(x.to_bits() + 1) } else { f64::from_bits(x.to_bits() - 1) } }
pub fn ulp_dn(x: f64) -> f64 { -ulp_up(-x) }
