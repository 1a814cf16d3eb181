//! Error profiles: the part of a function's domain a call belongs to, and the error allowed there in
//! eighths of a unit in the last place (255: no bound beyond the contract's).  The same partition is in spec/accuracy.qnt.
use crate::gen::{fmt, Fmt};
use crate::{Op, Sig};
pub const NP: usize = 452;
const UNARY: [&str; 28] = ["acos", "acosh", "asin", "asinh", "atan", "atanh", "cos", "cosh", "erf", "erfc", "exp", "exp10", "exp2", "expm1", "log", "log10", "log1p", "log2", "sin", "sinh", "tan", "tanh", "tgamma", "lgamma", "j0", "j1", "y0", "y1"];
/// name of the profile the results of an operation are held to
pub fn names(op: &Op) -> Option<[String; 2]> {
    if op.fmt != 32 && op.fmt != 64 { return None }
    let b = op.name.trim_end_matches("_r"); let b = if op.fmt == 32 { b.strip_suffix('f').unwrap_or(b) } else { b };
    let n = |s: &str| format!("{}{}", s, op.fmt);
    if op.name.starts_with("sincos") { return Some([n("sin"), n("cos")]) }
    if UNARY.contains(&b) || ["atan2", "hypot", "pow"].contains(&b) { Some([n(b), n(b)]) } else { None }
}
pub fn index(op: &Op, a: &[u128; 3]) -> usize {
    let f = fmt(op.fmt);
    let mag = |x: u128| x & !f.sign();
    let ex = |x: u128| (mag(x) >> f.mb) as i64;
    let neg = |x: u128| (x >> (f.w - 1)) as usize & 1;
    if op.sig != Sig::B {
        ((mag(a[0]) >> (f.mb - 2)) as i64 - (f.bias() - 32) * 4 + 1).clamp(0, 225) as usize + 226 * neg(a[0])
    } else if op.name.starts_with("hypot") { (ex(a[0]) - ex(a[1])).abs().min(63) as usize }
    else if op.name.starts_with("pow") { (ex(a[1]) - f.bias() + 32).clamp(0, 63) as usize + 64 * (ex(a[0]) < f.bias()) as usize }
    else { (ex(a[1]) - ex(a[0]) + 64).clamp(0, 127) as usize + 128 * neg(a[1]) }
}
/// arguments in a chosen part of the domain
pub fn pick(op: &Op, r: &mut crate::gen::Rng) -> [u128; 3] {
    let f: Fmt = fmt(op.fmt);
    let one = (f.bias() as u128) << f.mb;
    if op.sig != Sig::B {
        let q = r.n(226) as i64 - 1 + (f.bias() - 32) * 4;
        return [((q as u128) << (f.mb - 2) | r.w() & (f.mm() >> 2)) | (r.n(2) as u128) << (f.w - 1), 0, 0];
    }
    let fin = |r: &mut crate::gen::Rng, e: i64| f.mk(r.n(2), e.clamp(-f.bias(), f.bias()), r.w());
    if op.name.starts_with("hypot") || op.name.starts_with("atan2") {
        let d = r.i(-66, 66);
        let k = if r.n(2) == 0 { 4 } else { f.bias() };
        let e = r.i(-k, k);
        return [fin(r, e), fin(r, e + d), 0];
    }
    // pow: results inside the range of the format
    let ey = r.i(-32, 31).max(-(f.bias() + f.mb as i64));
    let y = fin(r, ey); let yv = f.to_f64(y).abs();
    let lim = (f.bias() as f64 + f.mb as f64) / yv;              // |log2 x| below this
    let l = lim * if r.n(2) == 0 { r.unit() } else { (r.unit() * 30.0).exp2().recip() };
    let l = l.min(f.bias() as f64 - 1.0) * if r.n(2) == 0 { 1.0 } else { -1.0 };
    let x = if l.abs() > 1e-6 { f.from_f64(l.exp2()) } else { f.bump(one, if f.w == 32 { (l * 8e6) as i64 } else { (l * 3.1e15) as i64 }) };
    let x = f.bump(x, r.i(-1000, 1000));
    let v = f.to_f64(y); let yi = v.trunc() == v;
    [x | if yi { (r.n(2) as u128) << (f.w - 1) } else { 0 }, y, 0]
}
pub struct Profile(std::collections::HashMap<String, Vec<u8>>);
impl Profile {
    pub fn load(path: &str) -> Profile {
        let mut m = std::collections::HashMap::new();
        if let Ok(t) = std::fs::read_to_string(path) {
            for l in t.lines() { if let Some((k, v)) = l.split_once(' ') { m.insert(k.to_string(), (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect()); } }
        }
        Profile(m)
    }
    /// the two profiles of an operation; None: nothing beyond the contract
    pub fn of(&self, op: &Op) -> Option<[Vec<u8>; 2]> {
        let n = names(op)?;
        Some([self.0.get(&n[0])?.clone(), self.0.get(&n[1])?.clone()])
    }
}
