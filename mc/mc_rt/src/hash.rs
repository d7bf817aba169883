use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
#[inline]
pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 30; x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27; x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31) ^ 0x9e3779b97f4a7c15
}
#[derive(Default, Clone, Copy)]
pub struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.0 = mix(self.0 ^ *c as u64); } }
    fn write_u64(&mut self, x: u64) { self.0 = mix(self.0 ^ x); }
    fn write_usize(&mut self, x: usize) { self.0 = mix(self.0 ^ x as u64); }
}
pub type FastMap<K, V> = HashMap<K, V, BuildHasherDefault<H>>;
pub fn hash_bytes(b: &[u8]) -> u64 { let mut h = H::default(); h.write(b); h.0 }
