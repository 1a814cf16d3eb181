// Generated (see tools/gen_refs.py). Host C library as an untrusted screening reference.
#[link(name = "m")]
extern "C" {
    fn acosf128(x: f128) -> f128;
    fn acos(x: f64) -> f64;
    fn acosf(x: f32) -> f32;
    fn acoshf128(x: f128) -> f128;
    fn acosh(x: f64) -> f64;
    fn acoshf(x: f32) -> f32;
    fn asinf128(x: f128) -> f128;
    fn asin(x: f64) -> f64;
    fn asinf(x: f32) -> f32;
    fn asinhf128(x: f128) -> f128;
    fn asinh(x: f64) -> f64;
    fn asinhf(x: f32) -> f32;
    fn atanf128(x: f128) -> f128;
    fn atan(x: f64) -> f64;
    fn atanf(x: f32) -> f32;
    fn atanhf128(x: f128) -> f128;
    fn atanh(x: f64) -> f64;
    fn atanhf(x: f32) -> f32;
    fn cbrtf128(x: f128) -> f128;
    fn cbrt(x: f64) -> f64;
    fn cbrtf(x: f32) -> f32;
    fn cosf128(x: f128) -> f128;
    fn cos(x: f64) -> f64;
    fn cosf(x: f32) -> f32;
    fn coshf128(x: f128) -> f128;
    fn cosh(x: f64) -> f64;
    fn coshf(x: f32) -> f32;
    fn erff128(x: f128) -> f128;
    fn erf(x: f64) -> f64;
    fn erff(x: f32) -> f32;
    fn erfcf128(x: f128) -> f128;
    fn erfc(x: f64) -> f64;
    fn erfcf(x: f32) -> f32;
    fn expf128(x: f128) -> f128;
    fn exp(x: f64) -> f64;
    fn expf(x: f32) -> f32;
    fn exp10f128(x: f128) -> f128;
    fn exp10(x: f64) -> f64;
    fn exp10f(x: f32) -> f32;
    fn exp2f128(x: f128) -> f128;
    fn exp2(x: f64) -> f64;
    fn exp2f(x: f32) -> f32;
    fn expm1f128(x: f128) -> f128;
    fn expm1(x: f64) -> f64;
    fn expm1f(x: f32) -> f32;
    fn j0f128(x: f128) -> f128;
    fn j0(x: f64) -> f64;
    fn j0f(x: f32) -> f32;
    fn j1f128(x: f128) -> f128;
    fn j1(x: f64) -> f64;
    fn j1f(x: f32) -> f32;
    fn logf128(x: f128) -> f128;
    fn log(x: f64) -> f64;
    fn logf(x: f32) -> f32;
    fn log10f128(x: f128) -> f128;
    fn log10(x: f64) -> f64;
    fn log10f(x: f32) -> f32;
    fn log1pf128(x: f128) -> f128;
    fn log1p(x: f64) -> f64;
    fn log1pf(x: f32) -> f32;
    fn log2f128(x: f128) -> f128;
    fn log2(x: f64) -> f64;
    fn log2f(x: f32) -> f32;
    fn sinf128(x: f128) -> f128;
    fn sin(x: f64) -> f64;
    fn sinf(x: f32) -> f32;
    fn sinhf128(x: f128) -> f128;
    fn sinh(x: f64) -> f64;
    fn sinhf(x: f32) -> f32;
    fn tanf128(x: f128) -> f128;
    fn tan(x: f64) -> f64;
    fn tanf(x: f32) -> f32;
    fn tanhf128(x: f128) -> f128;
    fn tanh(x: f64) -> f64;
    fn tanhf(x: f32) -> f32;
    fn tgammaf128(x: f128) -> f128;
    fn tgamma(x: f64) -> f64;
    fn tgammaf(x: f32) -> f32;
    fn y0f128(x: f128) -> f128;
    fn y0(x: f64) -> f64;
    fn y0f(x: f32) -> f32;
    fn y1f128(x: f128) -> f128;
    fn y1(x: f64) -> f64;
    fn y1f(x: f32) -> f32;
    fn lgammaf128(x: f128) -> f128;
    fn lgamma(x: f64) -> f64;
    fn lgammaf(x: f32) -> f32;
    fn ceilf128(x: f128) -> f128;
    fn ceil(x: f64) -> f64;
    fn ceilf(x: f32) -> f32;
    fn fabsf128(x: f128) -> f128;
    fn fabs(x: f64) -> f64;
    fn fabsf(x: f32) -> f32;
    fn floorf128(x: f128) -> f128;
    fn floor(x: f64) -> f64;
    fn floorf(x: f32) -> f32;
    fn rintf128(x: f128) -> f128;
    fn rint(x: f64) -> f64;
    fn rintf(x: f32) -> f32;
    fn roundevenf128(x: f128) -> f128;
    fn roundeven(x: f64) -> f64;
    fn roundevenf(x: f32) -> f32;
    fn roundf128(x: f128) -> f128;
    fn round(x: f64) -> f64;
    fn roundf(x: f32) -> f32;
    fn sqrtf128(x: f128) -> f128;
    fn sqrt(x: f64) -> f64;
    fn sqrtf(x: f32) -> f32;
    fn truncf128(x: f128) -> f128;
    fn trunc(x: f64) -> f64;
    fn truncf(x: f32) -> f32;
    fn atan2f128(x: f128, y: f128) -> f128;
    fn atan2(x: f64, y: f64) -> f64;
    fn atan2f(x: f32, y: f32) -> f32;
    fn hypotf128(x: f128, y: f128) -> f128;
    fn hypot(x: f64, y: f64) -> f64;
    fn hypotf(x: f32, y: f32) -> f32;
    fn powf128(x: f128, y: f128) -> f128;
    fn pow(x: f64, y: f64) -> f64;
    fn powf(x: f32, y: f32) -> f32;
    fn copysignf128(x: f128, y: f128) -> f128;
    fn copysign(x: f64, y: f64) -> f64;
    fn copysignf(x: f32, y: f32) -> f32;
    fn fdimf128(x: f128, y: f128) -> f128;
    fn fdim(x: f64, y: f64) -> f64;
    fn fdimf(x: f32, y: f32) -> f32;
    fn fmaxf128(x: f128, y: f128) -> f128;
    fn fmax(x: f64, y: f64) -> f64;
    fn fmaxf(x: f32, y: f32) -> f32;
    fn fmaximumf128(x: f128, y: f128) -> f128;
    fn fmaximum(x: f64, y: f64) -> f64;
    fn fmaximumf(x: f32, y: f32) -> f32;
    fn fmaximum_numf128(x: f128, y: f128) -> f128;
    fn fmaximum_num(x: f64, y: f64) -> f64;
    fn fmaximum_numf(x: f32, y: f32) -> f32;
    fn fminf128(x: f128, y: f128) -> f128;
    fn fmin(x: f64, y: f64) -> f64;
    fn fminf(x: f32, y: f32) -> f32;
    fn fminimumf128(x: f128, y: f128) -> f128;
    fn fminimum(x: f64, y: f64) -> f64;
    fn fminimumf(x: f32, y: f32) -> f32;
    fn fminimum_numf128(x: f128, y: f128) -> f128;
    fn fminimum_num(x: f64, y: f64) -> f64;
    fn fminimum_numf(x: f32, y: f32) -> f32;
    fn fmodf128(x: f128, y: f128) -> f128;
    fn fmod(x: f64, y: f64) -> f64;
    fn fmodf(x: f32, y: f32) -> f32;
    fn nextafterf128(x: f128, y: f128) -> f128;
    fn nextafter(x: f64, y: f64) -> f64;
    fn nextafterf(x: f32, y: f32) -> f32;
    fn remainderf128(x: f128, y: f128) -> f128;
    fn remainder(x: f64, y: f64) -> f64;
    fn remainderf(x: f32, y: f32) -> f32;
    fn fmaf128(x: f128, y: f128, z: f128) -> f128;
    fn scalbnf128(x: f128, n: i32) -> f128;
    fn ilogbf128(x: f128) -> i32;
    fn jnf128(n: i32, x: f128) -> f128;
    fn ynf128(n: i32, x: f128) -> f128;
    fn modff128(x: f128, p: *mut f128) -> f128;
    fn frexpf128(x: f128, p: *mut i32) -> f128;
    fn remquof128(x: f128, y: f128, p: *mut i32) -> f128;
    fn fma(x: f64, y: f64, z: f64) -> f64;
    fn scalbn(x: f64, n: i32) -> f64;
    fn ilogb(x: f64) -> i32;
    fn jn(n: i32, x: f64) -> f64;
    fn yn(n: i32, x: f64) -> f64;
    fn modf(x: f64, p: *mut f64) -> f64;
    fn frexp(x: f64, p: *mut i32) -> f64;
    fn remquo(x: f64, y: f64, p: *mut i32) -> f64;
    fn fmaf(x: f32, y: f32, z: f32) -> f32;
    fn scalbnf(x: f32, n: i32) -> f32;
    fn ilogbf(x: f32) -> i32;
    fn jnf(n: i32, x: f32) -> f32;
    fn ynf(n: i32, x: f32) -> f32;
    fn modff(x: f32, p: *mut f32) -> f32;
    fn frexpf(x: f32, p: *mut i32) -> f32;
    fn remquof(x: f32, y: f32, p: *mut i32) -> f32;
}

/// An approximate real reference in a wider type.
#[derive(Clone, Copy)]
pub enum Ref { Exact([u128; 2]), A64([f64; 2]), A128([f128; 2]), None }
use Ref::*;
fn h(b: u128) -> f32 { f16::from_bits(b as u16) as f32 }
fn s(b: u128) -> f32 { f32::from_bits(b as u32) }
fn d(b: u128) -> f64 { f64::from_bits(b as u64) }
fn q(b: u128) -> f128 { f128::from_bits(b) }
fn e16(x: f32) -> Ref { Exact([(x as f16).to_bits() as u128, 0]) }
fn e32(x: f32) -> Ref { Exact([x.to_bits() as u128, 0]) }
fn e64(x: f64) -> Ref { Exact([x.to_bits() as u128, 0]) }
fn e128(x: f128) -> Ref { Exact([x.to_bits(), 0]) }

pub type RefFn = fn([u128; 3]) -> Ref;
pub fn lookup(name: &str) -> RefFn {
    unsafe {
        match name {
            "acosf" => |a| unsafe { let _ = a; A64([acos(s(a[0]) as f64), 0.0]) },
            "acos" => |a| unsafe { let _ = a; A128([acosf128(d(a[0]) as f128), 0.0]) },
            "acoshf" => |a| unsafe { let _ = a; A64([acosh(s(a[0]) as f64), 0.0]) },
            "acosh" => |a| unsafe { let _ = a; A128([acoshf128(d(a[0]) as f128), 0.0]) },
            "asinf" => |a| unsafe { let _ = a; A64([asin(s(a[0]) as f64), 0.0]) },
            "asin" => |a| unsafe { let _ = a; A128([asinf128(d(a[0]) as f128), 0.0]) },
            "asinhf" => |a| unsafe { let _ = a; A64([asinh(s(a[0]) as f64), 0.0]) },
            "asinh" => |a| unsafe { let _ = a; A128([asinhf128(d(a[0]) as f128), 0.0]) },
            "atanf" => |a| unsafe { let _ = a; A64([atan(s(a[0]) as f64), 0.0]) },
            "atan" => |a| unsafe { let _ = a; A128([atanf128(d(a[0]) as f128), 0.0]) },
            "atanhf" => |a| unsafe { let _ = a; A64([atanh(s(a[0]) as f64), 0.0]) },
            "atanh" => |a| unsafe { let _ = a; A128([atanhf128(d(a[0]) as f128), 0.0]) },
            "cbrtf" => |a| unsafe { let _ = a; A64([cbrt(s(a[0]) as f64), 0.0]) },
            "cbrt" => |a| unsafe { let _ = a; A128([cbrtf128(d(a[0]) as f128), 0.0]) },
            "cosf" => |a| unsafe { let _ = a; A64([cos(s(a[0]) as f64), 0.0]) },
            "cos" => |a| unsafe { let _ = a; A128([cosf128(d(a[0]) as f128), 0.0]) },
            "coshf" => |a| unsafe { let _ = a; A64([cosh(s(a[0]) as f64), 0.0]) },
            "cosh" => |a| unsafe { let _ = a; A128([coshf128(d(a[0]) as f128), 0.0]) },
            "erff" => |a| unsafe { let _ = a; A64([erf(s(a[0]) as f64), 0.0]) },
            "erf" => |a| unsafe { let _ = a; A128([erff128(d(a[0]) as f128), 0.0]) },
            "erfcf" => |a| unsafe { let _ = a; A64([erfc(s(a[0]) as f64), 0.0]) },
            "erfc" => |a| unsafe { let _ = a; A128([erfcf128(d(a[0]) as f128), 0.0]) },
            "expf" => |a| unsafe { let _ = a; A64([exp(s(a[0]) as f64), 0.0]) },
            "exp" => |a| unsafe { let _ = a; A128([expf128(d(a[0]) as f128), 0.0]) },
            "exp10f" => |a| unsafe { let _ = a; A64([exp10(s(a[0]) as f64), 0.0]) },
            "exp10" => |a| unsafe { let _ = a; A128([exp10f128(d(a[0]) as f128), 0.0]) },
            "exp2f" => |a| unsafe { let _ = a; A64([exp2(s(a[0]) as f64), 0.0]) },
            "exp2" => |a| unsafe { let _ = a; A128([exp2f128(d(a[0]) as f128), 0.0]) },
            "expm1f" => |a| unsafe { let _ = a; A64([expm1(s(a[0]) as f64), 0.0]) },
            "expm1" => |a| unsafe { let _ = a; A128([expm1f128(d(a[0]) as f128), 0.0]) },
            "j0f" => |a| unsafe { let _ = a; A64([j0(s(a[0]) as f64), 0.0]) },
            "j0" => |a| unsafe { let _ = a; A128([j0f128(d(a[0]) as f128), 0.0]) },
            "j1f" => |a| unsafe { let _ = a; A64([j1(s(a[0]) as f64), 0.0]) },
            "j1" => |a| unsafe { let _ = a; A128([j1f128(d(a[0]) as f128), 0.0]) },
            "logf" => |a| unsafe { let _ = a; A64([log(s(a[0]) as f64), 0.0]) },
            "log" => |a| unsafe { let _ = a; A128([logf128(d(a[0]) as f128), 0.0]) },
            "log10f" => |a| unsafe { let _ = a; A64([log10(s(a[0]) as f64), 0.0]) },
            "log10" => |a| unsafe { let _ = a; A128([log10f128(d(a[0]) as f128), 0.0]) },
            "log1pf" => |a| unsafe { let _ = a; A64([log1p(s(a[0]) as f64), 0.0]) },
            "log1p" => |a| unsafe { let _ = a; A128([log1pf128(d(a[0]) as f128), 0.0]) },
            "log2f" => |a| unsafe { let _ = a; A64([log2(s(a[0]) as f64), 0.0]) },
            "log2" => |a| unsafe { let _ = a; A128([log2f128(d(a[0]) as f128), 0.0]) },
            "sinf" => |a| unsafe { let _ = a; A64([sin(s(a[0]) as f64), 0.0]) },
            "sin" => |a| unsafe { let _ = a; A128([sinf128(d(a[0]) as f128), 0.0]) },
            "sinhf" => |a| unsafe { let _ = a; A64([sinh(s(a[0]) as f64), 0.0]) },
            "sinh" => |a| unsafe { let _ = a; A128([sinhf128(d(a[0]) as f128), 0.0]) },
            "tanf" => |a| unsafe { let _ = a; A64([tan(s(a[0]) as f64), 0.0]) },
            "tan" => |a| unsafe { let _ = a; A128([tanf128(d(a[0]) as f128), 0.0]) },
            "tanhf" => |a| unsafe { let _ = a; A64([tanh(s(a[0]) as f64), 0.0]) },
            "tanh" => |a| unsafe { let _ = a; A128([tanhf128(d(a[0]) as f128), 0.0]) },
            "tgammaf" => |a| unsafe { let _ = a; A64([tgamma(s(a[0]) as f64), 0.0]) },
            "tgamma" => |a| unsafe { let _ = a; A128([tgammaf128(d(a[0]) as f128), 0.0]) },
            "y0f" => |a| unsafe { let _ = a; A64([y0(s(a[0]) as f64), 0.0]) },
            "y0" => |a| unsafe { let _ = a; A128([y0f128(d(a[0]) as f128), 0.0]) },
            "y1f" => |a| unsafe { let _ = a; A64([y1(s(a[0]) as f64), 0.0]) },
            "y1" => |a| unsafe { let _ = a; A128([y1f128(d(a[0]) as f128), 0.0]) },
            "lgammaf" => |a| unsafe { let _ = a; A64([lgamma(s(a[0]) as f64), 0.0]) },
            "lgamma" => |a| unsafe { let _ = a; A128([lgammaf128(d(a[0]) as f128), 0.0]) },
            "ceilf16" => |a| unsafe { let _ = a; e16(ceilf(h(a[0]))) },
            "ceilf" => |a| unsafe { let _ = a; e32(ceilf(s(a[0]))) },
            "ceil" => |a| unsafe { let _ = a; e64(ceil(d(a[0]))) },
            "ceilf128" => |a| unsafe { let _ = a; e128(ceilf128(q(a[0]))) },
            "fabsf16" => |a| unsafe { let _ = a; e16(fabsf(h(a[0]))) },
            "fabsf" => |a| unsafe { let _ = a; e32(fabsf(s(a[0]))) },
            "fabs" => |a| unsafe { let _ = a; e64(fabs(d(a[0]))) },
            "fabsf128" => |a| unsafe { let _ = a; e128(fabsf128(q(a[0]))) },
            "floorf16" => |a| unsafe { let _ = a; e16(floorf(h(a[0]))) },
            "floorf" => |a| unsafe { let _ = a; e32(floorf(s(a[0]))) },
            "floor" => |a| unsafe { let _ = a; e64(floor(d(a[0]))) },
            "floorf128" => |a| unsafe { let _ = a; e128(floorf128(q(a[0]))) },
            "rintf16" => |a| unsafe { let _ = a; e16(rintf(h(a[0]))) },
            "rintf" => |a| unsafe { let _ = a; e32(rintf(s(a[0]))) },
            "rint" => |a| unsafe { let _ = a; e64(rint(d(a[0]))) },
            "rintf128" => |a| unsafe { let _ = a; e128(rintf128(q(a[0]))) },
            "roundevenf16" => |a| unsafe { let _ = a; e16(roundevenf(h(a[0]))) },
            "roundevenf" => |a| unsafe { let _ = a; e32(roundevenf(s(a[0]))) },
            "roundeven" => |a| unsafe { let _ = a; e64(roundeven(d(a[0]))) },
            "roundevenf128" => |a| unsafe { let _ = a; e128(roundevenf128(q(a[0]))) },
            "roundf16" => |a| unsafe { let _ = a; e16(roundf(h(a[0]))) },
            "roundf" => |a| unsafe { let _ = a; e32(roundf(s(a[0]))) },
            "round" => |a| unsafe { let _ = a; e64(round(d(a[0]))) },
            "roundf128" => |a| unsafe { let _ = a; e128(roundf128(q(a[0]))) },
            "sqrtf16" => |a| unsafe { let _ = a; e16(sqrt(h(a[0]) as f64) as f32) },
            "sqrtf" => |a| unsafe { let _ = a; e32(sqrtf(s(a[0]))) },
            "sqrt" => |a| unsafe { let _ = a; e64(sqrt(d(a[0]))) },
            "sqrtf128" => |a| unsafe { let _ = a; e128(sqrtf128(q(a[0]))) },
            "truncf16" => |a| unsafe { let _ = a; e16(truncf(h(a[0]))) },
            "truncf" => |a| unsafe { let _ = a; e32(truncf(s(a[0]))) },
            "trunc" => |a| unsafe { let _ = a; e64(trunc(d(a[0]))) },
            "truncf128" => |a| unsafe { let _ = a; e128(truncf128(q(a[0]))) },
            "copysignf16" => |a| unsafe { let _ = a; e16(copysignf(h(a[0]), h(a[1]))) },
            "copysignf128" => |a| unsafe { let _ = a; e128(copysignf128(q(a[0]), q(a[1]))) },
            "copysignf" => |a| unsafe { let _ = a; e32(copysignf(s(a[0]), s(a[1]))) },
            "copysign" => |a| unsafe { let _ = a; e64(copysign(d(a[0]), d(a[1]))) },
            "fdimf16" => |a| unsafe { let _ = a; e16(fdimf(h(a[0]), h(a[1]))) },
            "fdimf128" => |a| unsafe { let _ = a; e128(fdimf128(q(a[0]), q(a[1]))) },
            "fdimf" => |a| unsafe { let _ = a; e32(fdimf(s(a[0]), s(a[1]))) },
            "fdim" => |a| unsafe { let _ = a; e64(fdim(d(a[0]), d(a[1]))) },
            "fmaxf16" => |a| unsafe { let _ = a; e16(fmaxf(h(a[0]), h(a[1]))) },
            "fmaxf128" => |a| unsafe { let _ = a; e128(fmaxf128(q(a[0]), q(a[1]))) },
            "fmaxf" => |a| unsafe { let _ = a; e32(fmaxf(s(a[0]), s(a[1]))) },
            "fmax" => |a| unsafe { let _ = a; e64(fmax(d(a[0]), d(a[1]))) },
            "fmaximumf16" => |a| unsafe { let _ = a; e16(fmaximumf(h(a[0]), h(a[1]))) },
            "fmaximumf128" => |a| unsafe { let _ = a; e128(fmaximumf128(q(a[0]), q(a[1]))) },
            "fmaximumf" => |a| unsafe { let _ = a; e32(fmaximumf(s(a[0]), s(a[1]))) },
            "fmaximum" => |a| unsafe { let _ = a; e64(fmaximum(d(a[0]), d(a[1]))) },
            "fmaximum_numf16" => |a| unsafe { let _ = a; e16(fmaximum_numf(h(a[0]), h(a[1]))) },
            "fmaximum_numf128" => |a| unsafe { let _ = a; e128(fmaximum_numf128(q(a[0]), q(a[1]))) },
            "fmaximum_numf" => |a| unsafe { let _ = a; e32(fmaximum_numf(s(a[0]), s(a[1]))) },
            "fmaximum_num" => |a| unsafe { let _ = a; e64(fmaximum_num(d(a[0]), d(a[1]))) },
            "fminf16" => |a| unsafe { let _ = a; e16(fminf(h(a[0]), h(a[1]))) },
            "fminf128" => |a| unsafe { let _ = a; e128(fminf128(q(a[0]), q(a[1]))) },
            "fminf" => |a| unsafe { let _ = a; e32(fminf(s(a[0]), s(a[1]))) },
            "fmin" => |a| unsafe { let _ = a; e64(fmin(d(a[0]), d(a[1]))) },
            "fminimumf16" => |a| unsafe { let _ = a; e16(fminimumf(h(a[0]), h(a[1]))) },
            "fminimumf128" => |a| unsafe { let _ = a; e128(fminimumf128(q(a[0]), q(a[1]))) },
            "fminimumf" => |a| unsafe { let _ = a; e32(fminimumf(s(a[0]), s(a[1]))) },
            "fminimum" => |a| unsafe { let _ = a; e64(fminimum(d(a[0]), d(a[1]))) },
            "fminimum_numf16" => |a| unsafe { let _ = a; e16(fminimum_numf(h(a[0]), h(a[1]))) },
            "fminimum_numf128" => |a| unsafe { let _ = a; e128(fminimum_numf128(q(a[0]), q(a[1]))) },
            "fminimum_numf" => |a| unsafe { let _ = a; e32(fminimum_numf(s(a[0]), s(a[1]))) },
            "fminimum_num" => |a| unsafe { let _ = a; e64(fminimum_num(d(a[0]), d(a[1]))) },
            "fmodf16" => |a| unsafe { let _ = a; e16(fmodf(h(a[0]), h(a[1]))) },
            "fmodf128" => |a| unsafe { let _ = a; e128(fmodf128(q(a[0]), q(a[1]))) },
            "fmodf" => |a| unsafe { let _ = a; e32(fmodf(s(a[0]), s(a[1]))) },
            "fmod" => |a| unsafe { let _ = a; e64(fmod(d(a[0]), d(a[1]))) },
            "nextafterf" => |a| unsafe { let _ = a; e32(nextafterf(s(a[0]), s(a[1]))) },
            "nextafter" => |a| unsafe { let _ = a; e64(nextafter(d(a[0]), d(a[1]))) },
            "remainderf" => |a| unsafe { let _ = a; e32(remainderf(s(a[0]), s(a[1]))) },
            "remainder" => |a| unsafe { let _ = a; e64(remainder(d(a[0]), d(a[1]))) },
            "atan2f" => |a| unsafe { let _ = a; A64([atan2(s(a[0]) as f64, s(a[1]) as f64), 0.0]) },
            "atan2" => |a| unsafe { let _ = a; A128([atan2f128(d(a[0]) as f128, d(a[1]) as f128), 0.0]) },
            "hypotf" => |a| unsafe { let _ = a; A64([hypot(s(a[0]) as f64, s(a[1]) as f64), 0.0]) },
            "hypot" => |a| unsafe { let _ = a; A128([hypotf128(d(a[0]) as f128, d(a[1]) as f128), 0.0]) },
            "powf" => |a| unsafe { let _ = a; A64([pow(s(a[0]) as f64, s(a[1]) as f64), 0.0]) },
            "pow" => |a| unsafe { let _ = a; A128([powf128(d(a[0]) as f128, d(a[1]) as f128), 0.0]) },
            "fmaf" => |a| unsafe { let _ = a; e32(fmaf(s(a[0]),s(a[1]),s(a[2]))) },
            "fma" => |a| unsafe { let _ = a; e64(fma(d(a[0]),d(a[1]),d(a[2]))) },
            "fmaf128" => |a| unsafe { let _ = a; e128(fmaf128(q(a[0]),q(a[1]),q(a[2]))) },
            "scalbnf16" => |a| unsafe { let _ = a; Exact([(scalbn(h(a[0]) as f64, (a[1] as i32).clamp(-200, 200)) as f16).to_bits() as u128, 0]) },
            "scalbnf" => |a| unsafe { let _ = a; e32(scalbnf(s(a[0]), a[1] as i32)) },
            "scalbn" => |a| unsafe { let _ = a; e64(scalbn(d(a[0]), a[1] as i32)) },
            "scalbnf128" => |a| unsafe { let _ = a; e128(scalbnf128(q(a[0]), a[1] as i32)) },
            "ldexpf16" => |a| unsafe { let _ = a; Exact([(scalbn(h(a[0]) as f64, (a[1] as i32).clamp(-200, 200)) as f16).to_bits() as u128, 0]) },
            "ldexpf" => |a| unsafe { let _ = a; e32(scalbnf(s(a[0]), a[1] as i32)) },
            "ldexp" => |a| unsafe { let _ = a; e64(scalbn(d(a[0]), a[1] as i32)) },
            "ldexpf128" => |a| unsafe { let _ = a; e128(scalbnf128(q(a[0]), a[1] as i32)) },
            "ilogbf" => |a| unsafe { let _ = a; Exact([ilogbf(s(a[0])) as u32 as u128, 0]) },
            "ilogb" => |a| unsafe { let _ = a; Exact([ilogb(d(a[0])) as u32 as u128, 0]) },
            "jnf" => |a| unsafe { let _ = a; A64([jn(a[0] as i32, s(a[1]) as f64), 0.0]) },
            "jn" => |a| unsafe { let _ = a; A128([jnf128(a[0] as i32, d(a[1]) as f128), 0.0]) },
            "ynf" => |a| unsafe { let _ = a; A64([yn(a[0] as i32, s(a[1]) as f64), 0.0]) },
            "yn" => |a| unsafe { let _ = a; A128([ynf128(a[0] as i32, d(a[1]) as f128), 0.0]) },
            "sincosf" => |a| unsafe { let _ = a; A64([sin(s(a[0]) as f64), cos(s(a[0]) as f64)]) },
            "sincos" => |a| unsafe { let _ = a; A128([sinf128(d(a[0]) as f128), cosf128(d(a[0]) as f128)]) },
            "modff" => |a| unsafe { let _ = a; let mut p=0f32; let r=modff(s(a[0]), &mut p); Exact([r.to_bits() as u128, p.to_bits() as u128]) },
            "modf" => |a| unsafe { let _ = a; let mut p=0f64; let r=modf(d(a[0]), &mut p); Exact([r.to_bits() as u128, p.to_bits() as u128]) },
            "frexpf" => |a| unsafe { let _ = a; let mut p=0i32; let r=frexpf(s(a[0]), &mut p); Exact([r.to_bits() as u128, p as u32 as u128]) },
            "frexp" => |a| unsafe { let _ = a; let mut p=0i32; let r=frexp(d(a[0]), &mut p); Exact([r.to_bits() as u128, p as u32 as u128]) },
            "remquof" => |a| unsafe { let _ = a; let mut p=0i32; let r=remquof(s(a[0]), s(a[1]), &mut p); Exact([r.to_bits() as u128, p as u32 as u128]) },
            "remquo" => |a| unsafe { let _ = a; let mut p=0i32; let r=remquo(d(a[0]), d(a[1]), &mut p); Exact([r.to_bits() as u128, p as u32 as u128]) },
            "lgammaf_r" => |a| unsafe { let _ = a; A64([lgamma(s(a[0]) as f64), 0.0]) },
            "lgamma_r" => |a| unsafe { let _ = a; A128([lgammaf128(d(a[0]) as f128), 0.0]) },
            _ => |_| None,
        }
    }
}
