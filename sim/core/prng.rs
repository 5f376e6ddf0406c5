//! Seeded PRNG (splitmix64 seeding, xoshiro256**). Every random choice of the simulator comes from here.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(29);
    splitmix(&mut x)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b { h ^= *c as u64; h = h.wrapping_mul(0x100000001b3); }
    let mut x = h;
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0 <= x < n (n > 0)
    pub fn below(&mut self, n: usize) -> usize { ((self.u64() as u128 * n as u128) >> 64) as usize }
    /// lo <= x <= hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { if hi <= lo { lo } else { lo + self.below(hi - lo + 1) } }
    /// true in `num` of `den` cases
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    /// Heavy tailed size in 1..=max: mostly small, sometimes large.
    pub fn heavy(&mut self, max: usize) -> usize {
        let mut m = max;
        while m > 1 && self.chance(1, 2) { m /= 2; }
        1 + self.below(m.max(1))
    }
}
