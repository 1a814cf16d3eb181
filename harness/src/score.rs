//! Screening scores: how suspicious an observed result looks to the (untrusted) host C library.
//! The score only decides which observations are handed to the specification first.
use crate::gen::{fmt, Fmt};
use crate::refs::Ref;
use crate::{Op, Sig};
pub const BAD: f64 = 1e30;

pub fn err32(r: f32, t: f64, env: f64) -> f64 {
    if t.is_nan() || r.is_nan() { return if t.is_nan() && r.is_nan() { 0.0 } else { BAD }; }
    let at = t.abs();
    if at >= 3.4028235677973366e38 { return if r.is_infinite() && (r > 0.0) == (t > 0.0) { 0.0 } else { BAD } }
    if r.is_infinite() { return BAD; }
    if r.is_sign_negative() != t.is_sign_negative() && (t == 0.0 || r == 0.0) { return BAD / 2.0; }
    let at = at.max(env);
    let e = ((at.to_bits() >> 52) as i32 - 1023).max(-126) - 23;
    let ulp = f64::from_bits(((1023 - e) as u64) << 52);
    (r as f64 - t).abs() * ulp
}
pub fn err64(r: f64, t: f128, env: f64) -> f64 {
    if t.is_nan() || r.is_nan() { return if t.is_nan() && r.is_nan() { 0.0 } else { BAD }; }
    let at = if t < 0.0 { -t } else { t };
    if (t as f64).is_infinite() { return if r.is_infinite() && (r > 0.0) == (t > 0.0) { 0.0 } else { BAD } }
    if r.is_infinite() { return BAD; }
    let tn = t.to_bits() >> 127 != 0;
    if r.is_sign_negative() != tn && (t == 0.0 || r == 0.0) { return BAD / 2.0; }
    let env = env as f128;
    let at = if at < env { env } else { at };
    let e = (((at.to_bits() >> 112) & 0x7fff) as i64 - 16383).max(-1022) - 52;
    let sc = f128::from_bits(((16383 - e) as u128) << 112);
    let d = r as f128 - t;
    let v = ((if d < 0.0 { -d } else { d }) * sc) as f64;
    if v.is_finite() { v } else { BAD / 4.0 }
}
/// Amplitude envelope for the functions with zeros at irrational points.
pub fn env(name: &str, a: &[u128; 3], f: Fmt) -> f64 {
    let b = name.trim_end_matches('f');
    match b {
        "j0" | "j1" | "y0" | "y1" => { let l = f.exp(a[0]) + 1; if l < 0 || l > 1030 { 0.0 } else { f64::from_bits(((1023 + (-l).div_euclid(2)) as u64) << 52) } }
        "jn" | "yn" => { let n = (a[0] as i32 as f64).abs(); let x = f.to_f64(a[1]).abs(); if x < 0.5 || x < n { 0.0 } else { (0.63 / x).sqrt() } }
        "lgamma" | "lgamma_r" | "lgammaf_r" | "lgammaf_" => { let x = f.to_f64(a[0]); if x < 0.0 { 1.0 } else { 0.0 } }
        _ => 0.0,
    }
}
/// The errors of both results, the second 0 where there is one result.
pub fn score(op: &Op, a: &[u128; 3], r: &[u128; 2], t: &Ref) -> (f64, f64) {
    // the oracle of the test kit: its NaN has no sign, and it has no logarithm of a negative gamma function
    if cfg!(feature = "oracle") { let f = fmt(op.fmt); if f.is_nan(r[0]) && op.name.starts_with("lgamma") || f.is_nan(a[1]) && op.name.starts_with("copysign") || op.name.starts_with("fm") && (f.is_nan(a[0]) || f.is_nan(a[1])) { return (0.0, 0.0) } }
    match t {
        Ref::A64(v) => { let e = env(op.name, a, fmt(op.fmt)); (err32(f32::from_bits(r[0] as u32), v[0], e), if op.sig == Sig::UU { err32(f32::from_bits(r[1] as u32), v[1], e) } else { 0.0 }) }
        Ref::A128(v) => { let e = env(op.name, a, fmt(op.fmt)); (err64(f64::from_bits(r[0] as u64), v[0], e), if op.sig == Sig::UU { err64(f64::from_bits(r[1] as u64), v[1], e) } else { 0.0 }) }
        _ => (exact(op, r, t), 0.0)
    }
}
fn exact(op: &Op, r: &[u128; 2], t: &Ref) -> f64 {
    let f = fmt(op.fmt);
    match t {
        Ref::Exact(v) => {
            let same = |x: u128, y: u128| x == y || (f.is_nan(x) && f.is_nan(y));
            match op.sig {
                Sig::UI => if v[0] == r[0] { 0.0 } else { BAD },
                Sig::UU => if same(v[0], r[0]) && same(v[1], r[1]) { 0.0 } else { BAD },
                Sig::UUI => if same(v[0], r[0]) && (v[1] == r[1] || f.is_nan(v[0]) || v[0] == f.inf() || v[0] == f.inf() | f.sign()) { 0.0 } else { BAD },
                Sig::BBI => if same(v[0], r[0]) && (f.is_nan(v[0]) || (v[1] ^ r[1]) & 7 == 0) { 0.0 } else { BAD },
                _ => if same(v[0], r[0]) { 0.0 } else { BAD },
            }
        }
        _ => 0.0,
    }
}
