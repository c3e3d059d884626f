//! The one PRNG. Every choice a run makes is drawn from a generator seeded by
//! (VERIF_SEED, property, run number).
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    /// Weighted choice: index into `ws`.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let tot: usize = ws.iter().sum();
        if tot == 0 { return 0 }
        let mut x = self.below(tot);
        for (i, w) in ws.iter().enumerate() { if x < *w { return i } x -= *w }
        0
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.u64() ^ b
}
