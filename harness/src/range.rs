//! Steering towards results close to, or beyond, the elementary bounds of a function (the verdict is the specification's).
use crate::gen::{fmt, Fmt};
use crate::score::BAD;
use crate::{Op, Sig};
fn ord(f: Fmt, b: u128) -> i128 { if b & f.sign() != 0 { -((b & !f.sign()) as i128) } else { b as i128 } }
fn lit(f: Fmt, x: f64) -> i128 { if f.w == 32 { ord(f, (x as f32).to_bits() as u128) } else { ord(f, x.to_bits() as u128) } }
fn add(f: Fmt, x: u128, y: u128) -> i128 { if f.w == 32 { ord(f, (f32::from_bits(x as u32) + f32::from_bits(y as u32)).to_bits() as u128) } else { ord(f, (f64::from_bits(x as u64) + f64::from_bits(y as u64)).to_bits() as u128) } }
pub fn score(op: &Op, a: &[u128; 3], r: &[u128; 2]) -> f64 {
    if op.fmt != 32 && op.fmt != 64 || matches!(op.sig, Sig::IB | Sig::BI) { return 0.0 }
    let f = fmt(op.fmt);
    let nan = |x: u128| x & !f.sign() > f.inf();
    if nan(a[0]) || nan(r[0]) || (op.sig == Sig::B && nan(a[1])) { return 0.0 }
    let (m, g) = ((a[0] & !f.sign()) as i128, (r[0] & !f.sign()) as i128);
    let neg = a[0] & f.sign() != 0;
    let (x, y) = (ord(f, a[0]), ord(f, r[0]));
    let one = lit(f, 1.0);
    let bits1 = one as u128;
    let fin = m < f.inf() as i128;
    let mut s = 0f64;
    let mut le = |p: i128, q: i128| { let v = if p > q { BAD } else { 1.0 / (1.0 + (q - p) as f64) }; if v > s { s = v } };
    let name = if op.name.ends_with('f') && op.name != "erf" { &op.name[..op.name.len() - 1] } else { op.name.trim_end_matches("f_r") };
    match name {
        "sin" => { le(g, one); le(g, m) }
        "cos" | "j0" | "j1" => le(g, one),
        "sincos" => { le(g, one); le(g, m); le((r[1] & !f.sign()) as i128, one) }
        "tan" => if m <= one { le(m, g) },
        "tanh" | "erf" => le(g, one),
        "asin" | "sinh" => le(m, g),
        "atan" => { le(g, m); le(g, lit(f, std::f64::consts::FRAC_PI_2)) }
        "asinh" => le(g, m),
        "acos" => { le(0, y); le(y, lit(f, std::f64::consts::PI)) }
        "cosh" => le(one, y),
        "acosh" => le(0, y),
        "exp" | "exp2" | "exp10" => { if neg { le(0, y); le(y, one) } else { le(one, y) } if name == "exp" && fin { le(add(f, a[0], bits1), y) } }
        "expm1" => { le(-one, y); le(x, y) }
        "log" | "log2" | "log10" => { if m >= one { le(0, y) } else { le(y, 0) } if name == "log" && fin { le(y, add(f, a[0], bits1 | f.sign())) } }
        "log1p" => le(y, x),
        "erfc" => if neg { le(one, y); le(y, lit(f, 2.0)) } else { le(y, one); le(0, y) },
        "hypot" => { le(m, y); le((a[1] & !f.sign()) as i128, y) }
        "atan2" => le(g, lit(f, std::f64::consts::PI)),
        "pow" => if !neg && m != one && a[1] & !f.sign() != 0 { if (m >= one) == (a[1] & f.sign() == 0) { le(one, y) } else { le(y, one) } },
        "tgamma" => if !neg { le(0, y) },
        "lgamma" | "lgamma_r" => if !neg && g != 0 { if m > one && m < lit(f, 2.0) { le(y, 0) } else { le(0, y) } },
        _ => {}
    }
    s
}
