//! What the recorders share: a random source, observations, and where they go.
use crate::big::B;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: u64) -> u64 { ((self.u() as u128 * n as u128) >> 64) as u64 }
    pub fn i(&mut self, lo: i64, hi: i64) -> i64 { lo + self.n((hi - lo + 1) as u64) as i64 }
    pub fn w(&mut self) -> u128 { (self.u() as u128) << 64 | self.u() as u128 }
    /// An integer of the given width with structure: runs of ones, single bits, limb boundaries, small offsets.
    pub fn int(&mut self, w: u32) -> u128 {
        let m = if w == 128 { !0 } else { (1u128 << w) - 1 };
        let k = self.n(w as u64) as u32;
        let x = match self.n(9) {
            0 => self.w(),
            1 => 1u128 << k,
            2 => (1u128 << k).wrapping_sub(1),
            3 => !((1u128 << k).wrapping_sub(1)),
            4 => { let j = self.n(w as u64) as u32; (1u128 << k).wrapping_sub(1u128 << j) }
            5 => self.w() & self.w() & self.w(),
            6 => self.w() | self.w() | self.w(),
            7 => { let h = w / 2; let (a, b) = (self.n(4) as u128, self.n(4) as u128); [0, 1, (1 << h) - 1, 1u128 << (h - 1)][a as usize] << h | [0, 1, (1 << h) - 1, 1u128 << (h - 1)][b as usize] }
            _ => self.w() >> (128 - w) >> k,
        };
        let x = match self.n(4) { 0 => x.wrapping_add(self.i(-2, 2) as i128 as u128), _ => x };
        x & m
    }
}
#[derive(Clone, Default)]
pub struct Ev { pub op: u32, pub p: u32, pub a: B, pub b: B, pub c: B, pub r0: B, pub r1: B, pub flag: u32, pub text: String }
pub struct Out { pub w: Box<dyn Write>, pub n: u64, pub calls: u64, pub bad: u64 }
impl Out {
    pub fn put(&mut self, e: &Ev) { self.n += 1; writeln!(self.w, "{} {:x} {} {} {} {} {} {} ={}", e.op, e.p, e.a, e.b, e.c, e.r0, e.r1, e.flag, e.text).unwrap() }
}
/// Run f; on a panic the observation is flagged.
pub fn guard(mut e: Ev, f: impl FnOnce(&mut Ev)) -> Ev {
    if catch_unwind(AssertUnwindSafe(|| f(&mut e))).is_err() { e.flag = 1 }
    e
}
