// Generated by tools/gen_fast.py. Host C library, untrusted first-stage screen for f64.
#[link(name = "m")]
extern "C" {
    fn acos(x: f64) -> f64;
    fn acosh(x: f64) -> f64;
    fn asin(x: f64) -> f64;
    fn asinh(x: f64) -> f64;
    fn atan(x: f64) -> f64;
    fn atanh(x: f64) -> f64;
    fn cbrt(x: f64) -> f64;
    fn cos(x: f64) -> f64;
    fn cosh(x: f64) -> f64;
    fn erf(x: f64) -> f64;
    fn erfc(x: f64) -> f64;
    fn exp(x: f64) -> f64;
    fn exp10(x: f64) -> f64;
    fn exp2(x: f64) -> f64;
    fn expm1(x: f64) -> f64;
    fn j0(x: f64) -> f64;
    fn j1(x: f64) -> f64;
    fn lgamma(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn log10(x: f64) -> f64;
    fn log1p(x: f64) -> f64;
    fn log2(x: f64) -> f64;
    fn sin(x: f64) -> f64;
    fn sinh(x: f64) -> f64;
    fn tan(x: f64) -> f64;
    fn tanh(x: f64) -> f64;
    fn tgamma(x: f64) -> f64;
    fn y0(x: f64) -> f64;
    fn y1(x: f64) -> f64;
    fn atan2(x: f64, y: f64) -> f64;
    fn hypot(x: f64, y: f64) -> f64;
    fn pow(x: f64, y: f64) -> f64;
    fn jn(n: i32, y: f64) -> f64;
    fn yn(n: i32, y: f64) -> f64;
}
fn d(b: u128) -> f64 { f64::from_bits(b as u64) }
pub fn fast(name: &str) -> Option<fn([u128; 3]) -> f64> {
    Some(match name {
        "acos" => |a| unsafe { acos(d(a[0])) },
        "acosh" => |a| unsafe { acosh(d(a[0])) },
        "asin" => |a| unsafe { asin(d(a[0])) },
        "asinh" => |a| unsafe { asinh(d(a[0])) },
        "atan" => |a| unsafe { atan(d(a[0])) },
        "atanh" => |a| unsafe { atanh(d(a[0])) },
        "cbrt" => |a| unsafe { cbrt(d(a[0])) },
        "cos" => |a| unsafe { cos(d(a[0])) },
        "cosh" => |a| unsafe { cosh(d(a[0])) },
        "erf" => |a| unsafe { erf(d(a[0])) },
        "erfc" => |a| unsafe { erfc(d(a[0])) },
        "exp" => |a| unsafe { exp(d(a[0])) },
        "exp10" => |a| unsafe { exp10(d(a[0])) },
        "exp2" => |a| unsafe { exp2(d(a[0])) },
        "expm1" => |a| unsafe { expm1(d(a[0])) },
        "j0" => |a| unsafe { j0(d(a[0])) },
        "j1" => |a| unsafe { j1(d(a[0])) },
        "lgamma" => |a| unsafe { lgamma(d(a[0])) },
        "log" => |a| unsafe { log(d(a[0])) },
        "log10" => |a| unsafe { log10(d(a[0])) },
        "log1p" => |a| unsafe { log1p(d(a[0])) },
        "log2" => |a| unsafe { log2(d(a[0])) },
        "sin" => |a| unsafe { sin(d(a[0])) },
        "sinh" => |a| unsafe { sinh(d(a[0])) },
        "tan" => |a| unsafe { tan(d(a[0])) },
        "tanh" => |a| unsafe { tanh(d(a[0])) },
        "tgamma" => |a| unsafe { tgamma(d(a[0])) },
        "y0" => |a| unsafe { y0(d(a[0])) },
        "y1" => |a| unsafe { y1(d(a[0])) },
        "lgamma_r" => |a| unsafe { lgamma(d(a[0])) },
        "atan2" => |a| unsafe { atan2(d(a[0]), d(a[1])) },
        "hypot" => |a| unsafe { hypot(d(a[0]), d(a[1])) },
        "pow" => |a| unsafe { pow(d(a[0]), d(a[1])) },
        "jn" => |a| unsafe { jn(a[0] as i32, d(a[1])) },
        "yn" => |a| unsafe { yn(a[0] as i32, d(a[1])) },
        _ => return None,
    })
}
