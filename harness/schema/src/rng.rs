/// splitmix64, for drawing type declarations only (they are programs; values and documents are
/// drawn by proptest).
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64, salt: &str) -> Rng {
    let mut h = 0xcbf29ce484222325u64;
    for b in salt.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    let mut r = Rng(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15));
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
  pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
