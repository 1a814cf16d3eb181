//! Native copy of spec/laws.qnt.  It only picks which recorded histories the specification sees first.
use crate::gen::*;
pub const NAMES: &str = "ceil floor trunc round roundeven rint fabs sqrt cbrt copysign fdim fmax fmin fmaximum fminimum fmaximum_num fminimum_num fmod remainder nextafter fma scalbn ilogb frexp modf remquo";
pub const NAMES2: &str = "acos acosh asin asinh atan atanh cos cosh erf erfc exp exp10 exp2 expm1 log log10 log1p log2 sin sinh tan tanh tgamma lgamma lgamma_r atan2 hypot pow sincos j0 j1 y0 y1 jn yn";
pub fn base(op: &str) -> String {
    for s in ["f128", "f16"] { if let Some(b) = op.strip_suffix(s) { return b.to_string() } }
    if let Some(b) = op.strip_suffix("f_r") { return format!("{b}_r") }
    if fam_of(op).is_some() { return op.to_string() }
    op.strip_suffix('f').unwrap().to_string()
}
fn fam_of(b: &str) -> Option<u32> {
    if b == "ldexp" { return Some(22) }
    NAMES.split(' ').position(|x| x == b).map(|i| i as u32 + 1).or(NAMES2.split(' ').position(|x| x == b).map(|i| i as u32 + 40))
}
pub fn fam(op: &str) -> u32 { fam_of(&base(op)).unwrap() }
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Key { pub fam: u32, pub w: u32, pub a: u128, pub b: u128, pub c: u128 }
pub type Fact = (Key, u128);
const NANV: u128 = u128::MAX;
pub struct Facts { pub n: usize, pub f: [Fact; 2] }
fn one(x: Fact) -> Facts { Facts { n: 1, f: [x, x] } }
fn two(x: Fact, y: Fact) -> Facts { Facts { n: 2, f: [x, y] } }
fn mk(fam: u32, w: u32, a: u128, b: u128, c: u128, v: u128) -> Fact { (Key { fam, w, a, b, c }, v) }
fn isnan(f: Fmt, b: u128) -> bool { b & !f.sign() > f.inf() }
fn cls(f: Fmt, r: u128) -> u128 { if isnan(f, r) { NANV } else { r } }
fn zcls(f: Fmt, r: u128) -> u128 { if isnan(f, r) { NANV } else if r & !f.sign() == 0 { 0 } else { r } }
fn flip(f: Fmt, y: bool, b: u128) -> u128 { if y { b ^ f.sign() } else { b } }
fn mag(f: Fmt, b: u128) -> u128 { b & !f.sign() }
fn sg(f: Fmt, b: u128) -> bool { b & f.sign() != 0 }
pub fn widen(f: Fmt, g: Fmt, b: u128) -> u128 {
    if f.w == g.w { return b }
    let s = if sg(f, b) { g.sign() } else { 0 };
    let m = mag(f, b);
    if m > f.inf() { return s | g.inf() | 1 << (g.mb - 1) }
    if m == f.inf() { return s | g.inf() }
    if m == 0 { return s }
    let (mut e, mut x) = ((m >> f.mb) as i64, m & f.mm());
    if e == 0 { let k = f.mb - (127 - x.leading_zeros()); x = (x << k) & f.mm(); e = 1 - k as i64 }
    s | ((e - f.bias() + g.bias()) as u128) << g.mb | x << (g.mb - f.mb)
}
fn wide(fam: u32, f: Fmt) -> Fmt { if fam <= 7 || fam == 10 || (12..=18).contains(&fam) { fmt(128) } else if fam == 19 || fam == 23 || fam == 25 { fmt(64) } else { f } }
fn unary(fam: u32, f: Fmt, a: u128, r: u128) -> Fact {
    let g = wide(fam, f);
    let (aw, rw, s) = (widen(f, g, a), widen(f, g, r), sg(f, a));
    match fam {
        3 | 4 | 5 | 9 | 42 | 43 | 44 | 45 | 48 | 58 | 59 | 60 | 61 => mk(fam, g.w, mag(g, aw), 0, 0, cls(g, flip(g, s, rw))),
        7 | 46 | 47 => mk(fam, g.w, mag(g, aw), 0, 0, cls(g, rw)),
        70 => mk(fam, f.w, mag(f, a), 0, 0, zcls(f, flip(f, s, r))),
        69 => mk(fam, f.w, mag(f, a), 0, 0, zcls(f, r)),
        71 | 72 => mk(fam, f.w, a, 0, 0, zcls(f, r)),
        1 => mk(2, g.w, aw ^ g.sign(), 0, 0, cls(g, rw ^ g.sign())),
        _ => mk(fam, g.w, aw, 0, 0, cls(g, rw)),
    }
}
fn quot(fam: u32, f: Fmt, a: u128, b: u128, r: u128) -> Fact {
    let g = wide(fam, f);
    mk(fam, g.w, mag(g, widen(f, g, a)), mag(g, widen(f, g, b)), 0, cls(g, flip(g, sg(f, a), widen(f, g, r))))
}
fn isint(f: Fmt, b: u128) -> (bool, bool) {
    let m = mag(f, b);
    if m >= f.inf() { return (false, false) }
    if m == 0 { return (true, false) }
    let (mut e, mut x) = ((m >> f.mb) as i64, m & f.mm());
    if e == 0 { e = 1 } else { x |= 1 << f.mb }
    let q = e - f.bias() - f.mb as i64; // value x * 2^q
    if q > 0 { return (true, false) }
    let k = (-q) as u32; if k > 127 { return (false, false) }
    let i = x & ((1u128 << k) - 1) == 0; (i, i && x >> k & 1 == 1)
}
pub fn facts(fam: u32, f: Fmt, a: [u128; 3], r: [u128; 2]) -> Facts {
    let (x, y, z) = (a[0], a[1], a[2]);
    let f64_ = fmt(64);
    match fam {
        6 => one(unary(5, f, x, r[0])),
        10 => { let g = fmt(128); one(mk(10, 128, mag(g, widen(f, g, x)), sg(f, y) as u128, 0, widen(f, g, r[0]))) }
        11 => { let (p, q) = (y ^ f.sign(), x ^ f.sign()); if x < p || (x == p && y <= q) { one(mk(11, f.w, x, y, 0, cls(f, r[0]))) } else { one(mk(11, f.w, p, q, 0, cls(f, r[0]))) } }
        12..=17 => { let g = fmt(128); let low = fam % 2 == 1; let k = if low { fam - 1 } else { fam };
            let (p, q, v) = (flip(g, low, widen(f, g, x)), flip(g, low, widen(f, g, y)), flip(g, low, widen(f, g, r[0])));
            one(mk(k, 128, p.min(q), p.max(q), 0, if k == 12 { zcls(g, v) } else { cls(g, v) })) }
        18 | 19 => one(quot(fam, f, x, y, r[0])),
        26 => { let s = sg(f, x) != sg(f, y); let q = r[1] as u32 as i32 as i128; two(quot(19, f, x, y, r[0]), mk(26, f.w, mag(f, x), mag(f, y), 1, (if s { -q } else { q }) as u128)) }
        20 => { let s = sg(f, x); one(mk(20, f.w, mag(f, x), flip(f, s, y), 0, cls(f, flip(f, s, r[0])))) }
        21 => { let p = sg(f, x) != sg(f, y); let (a, b) = (mag(f, x), mag(f, y)); one(mk(21, f.w, a.min(b), a.max(b), flip(f, p, z), zcls(f, flip(f, p, r[0])))) }
        22 => one(mk(22, f.w, mag(f, x), y, 0, cls(f, flip(f, sg(f, x), r[0])))),
        23 => one(mk(23, 64, mag(f64_, widen(f, f64_, x)), 0, 0, r[0] as u32 as i32 as i128 as u128)),
        24 => { let own = mk(24, f.w, mag(f, x), 0, 0, cls(f, flip(f, sg(f, x), r[0]))); let m = mag(f, x);
            if m < f.inf() && m != 0 { two(own, mk(23, 64, mag(f64_, widen(f, f64_, x)), 0, 0, (r[1] as u32 as i32 as i128 - 1) as u128)) } else { one(own) } }
        25 => two(unary(3, f, x, r[1]), mk(25, 64, mag(f64_, widen(f, f64_, x)), 0, 0, cls(f64_, flip(f64_, sg(f, x), widen(f, f64_, r[0]))))),
        63 => one(mk(64, f.w, x, 0, 0, cls(f, r[0]))),
        64 => two(mk(64, f.w, x, 0, 0, cls(f, r[0])), mk(64, f.w, x, 0, 1, r[1] as u32 as i32 as i128 as u128)),
        65 => one(mk(65, f.w, mag(f, x), y, 0, cls(f, flip(f, sg(f, x), r[0])))),
        66 => { let (a, b) = (mag(f, x), mag(f, y)); one(mk(66, f.w, a.min(b), a.max(b), 0, cls(f, r[0]))) }
        67 => { let (i, o) = isint(f, y); if i { one(mk(67, f.w, mag(f, x), y, 0, cls(f, flip(f, sg(f, x) && o, r[0])))) } else { one(mk(67, f.w, x, y, 0, cls(f, r[0]))) } }
        68 => two(unary(58, f, x, r[0]), unary(46, f, x, r[1])),
        73 | 74 => { let k = x as u32 as i32; let m = k.unsigned_abs() as u128; let odd = m % 2 == 1;
            let v = if fam == 73 { zcls(f, flip(f, odd && (sg(f, y) != (k < 0)), r[0])) } else { zcls(f, flip(f, odd && k < 0, r[0])) };
            let u = if fam == 73 { mag(f, y) } else { y };
            let own = mk(fam, f.w, m, u, 0, v);
            if m < 2 { two(own, mk((if fam == 73 { 69 } else { 71 }) + m as u32, f.w, u, 0, 0, v)) } else { one(own) } }
        _ => one(unary(fam, f, x, r[0])),
    }
}
