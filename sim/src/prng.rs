//! The only source of choices in a run: splitmix64-seeded xorshift64*.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b.rotate_left(17)) }

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); }
    mix(h)
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s { h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3); }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng { let s = mix(seed); Rng(if s == 0 { 0x1234_5678_9abc_def1 } else { s }) }
    pub fn fork(&mut self, label: &str) -> Rng { Rng::new(self.next() ^ hash_str(label)) }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() >> 1) as i64 % (hi - lo + 1) }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: u32) -> bool { self.below(100) < pct as usize }
    /// true with probability a/b
    pub fn chance(&mut self, a: u64, b: u64) -> bool { self.next() >> 11 < ((1u64 << 53) / b.max(1)).saturating_mul(a) }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// index by weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        if total == 0 { return 0; }
        let mut x = self.below(total as usize) as u32;
        for (i, v) in w.iter().enumerate() { if x < *v { return i; } x -= *v; }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}
