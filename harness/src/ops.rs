// Generated by hand-run script; the table of every public function of libm.
use crate::{Op, Sig::*};
macro_rules! b16 {($x:expr)=>{f16::from_bits($x as u16)};}
macro_rules! b32 {($x:expr)=>{f32::from_bits($x as u32)};}
macro_rules! b64 {($x:expr)=>{f64::from_bits($x as u64)};}
macro_rules! b128 {($x:expr)=>{f128::from_bits($x)};}
pub static OPS: &[Op] = &[
    Op { name: "ceilf16", fmt: 16, sig: U, call: |a| [libm::ceilf16(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "fabsf16", fmt: 16, sig: U, call: |a| [libm::fabsf16(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "floorf16", fmt: 16, sig: U, call: |a| [libm::floorf16(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "rintf16", fmt: 16, sig: U, call: |a| [libm::rintf16(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundevenf16", fmt: 16, sig: U, call: |a| [libm::roundevenf16(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundf16", fmt: 16, sig: U, call: |a| [libm::roundf16(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "sqrtf16", fmt: 16, sig: U, call: |a| [libm::sqrtf16(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "truncf16", fmt: 16, sig: U, call: |a| [libm::truncf16(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "copysignf16", fmt: 16, sig: B, call: |a| [libm::copysignf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fdimf16", fmt: 16, sig: B, call: |a| [libm::fdimf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaxf16", fmt: 16, sig: B, call: |a| [libm::fmaxf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf16", fmt: 16, sig: B, call: |a| [libm::fmaximum_numf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximumf16", fmt: 16, sig: B, call: |a| [libm::fmaximumf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminf16", fmt: 16, sig: B, call: |a| [libm::fminf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum_numf16", fmt: 16, sig: B, call: |a| [libm::fminimum_numf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimumf16", fmt: 16, sig: B, call: |a| [libm::fminimumf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmodf16", fmt: 16, sig: B, call: |a| [libm::fmodf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "ldexpf16", fmt: 16, sig: BI, call: |a| [libm::ldexpf16(b16!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "scalbnf16", fmt: 16, sig: BI, call: |a| [libm::scalbnf16(b16!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "acosf", fmt: 32, sig: U, call: |a| [libm::acosf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "acoshf", fmt: 32, sig: U, call: |a| [libm::acoshf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "asinf", fmt: 32, sig: U, call: |a| [libm::asinf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "asinhf", fmt: 32, sig: U, call: |a| [libm::asinhf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "atanf", fmt: 32, sig: U, call: |a| [libm::atanf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "atanhf", fmt: 32, sig: U, call: |a| [libm::atanhf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "cbrtf", fmt: 32, sig: U, call: |a| [libm::cbrtf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "ceilf", fmt: 32, sig: U, call: |a| [libm::ceilf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "cosf", fmt: 32, sig: U, call: |a| [libm::cosf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "coshf", fmt: 32, sig: U, call: |a| [libm::coshf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "erff", fmt: 32, sig: U, call: |a| [libm::erff(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "erfcf", fmt: 32, sig: U, call: |a| [libm::erfcf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "expf", fmt: 32, sig: U, call: |a| [libm::expf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp10f", fmt: 32, sig: U, call: |a| [libm::exp10f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp2f", fmt: 32, sig: U, call: |a| [libm::exp2f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "expm1f", fmt: 32, sig: U, call: |a| [libm::expm1f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "fabsf", fmt: 32, sig: U, call: |a| [libm::fabsf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "floorf", fmt: 32, sig: U, call: |a| [libm::floorf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "j0f", fmt: 32, sig: U, call: |a| [libm::j0f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "j1f", fmt: 32, sig: U, call: |a| [libm::j1f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "lgammaf", fmt: 32, sig: U, call: |a| [libm::lgammaf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "logf", fmt: 32, sig: U, call: |a| [libm::logf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "log10f", fmt: 32, sig: U, call: |a| [libm::log10f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "log1pf", fmt: 32, sig: U, call: |a| [libm::log1pf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "log2f", fmt: 32, sig: U, call: |a| [libm::log2f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "rintf", fmt: 32, sig: U, call: |a| [libm::rintf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundf", fmt: 32, sig: U, call: |a| [libm::roundf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundevenf", fmt: 32, sig: U, call: |a| [libm::roundevenf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "sinf", fmt: 32, sig: U, call: |a| [libm::sinf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "sinhf", fmt: 32, sig: U, call: |a| [libm::sinhf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "sqrtf", fmt: 32, sig: U, call: |a| [libm::sqrtf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "tanf", fmt: 32, sig: U, call: |a| [libm::tanf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "tanhf", fmt: 32, sig: U, call: |a| [libm::tanhf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "tgammaf", fmt: 32, sig: U, call: |a| [libm::tgammaf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "truncf", fmt: 32, sig: U, call: |a| [libm::truncf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "y0f", fmt: 32, sig: U, call: |a| [libm::y0f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "y1f", fmt: 32, sig: U, call: |a| [libm::y1f(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "atan2f", fmt: 32, sig: B, call: |a| [libm::atan2f(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "copysignf", fmt: 32, sig: B, call: |a| [libm::copysignf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fdimf", fmt: 32, sig: B, call: |a| [libm::fdimf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaxf", fmt: 32, sig: B, call: |a| [libm::fmaxf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximumf", fmt: 32, sig: B, call: |a| [libm::fmaximumf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf", fmt: 32, sig: B, call: |a| [libm::fmaximum_numf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminf", fmt: 32, sig: B, call: |a| [libm::fminf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimumf", fmt: 32, sig: B, call: |a| [libm::fminimumf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum_numf", fmt: 32, sig: B, call: |a| [libm::fminimum_numf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmodf", fmt: 32, sig: B, call: |a| [libm::fmodf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "hypotf", fmt: 32, sig: B, call: |a| [libm::hypotf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "nextafterf", fmt: 32, sig: B, call: |a| [libm::nextafterf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "powf", fmt: 32, sig: B, call: |a| [libm::powf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "remainderf", fmt: 32, sig: B, call: |a| [libm::remainderf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaf", fmt: 32, sig: T, call: |a| [libm::fmaf(b32!(a[0]), b32!(a[1]), b32!(a[2])).to_bits() as u128, 0] },
    Op { name: "ldexpf", fmt: 32, sig: BI, call: |a| [libm::ldexpf(b32!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "scalbnf", fmt: 32, sig: BI, call: |a| [libm::scalbnf(b32!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "ilogbf", fmt: 32, sig: UI, call: |a| [libm::ilogbf(b32!(a[0])) as u32 as u128, 0] },
    Op { name: "jnf", fmt: 32, sig: IB, call: |a| [libm::jnf(a[0] as i32, b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "ynf", fmt: 32, sig: IB, call: |a| [libm::ynf(a[0] as i32, b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "modff", fmt: 32, sig: UU, call: |a| { let r = libm::modff(b32!(a[0])); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "sincosf", fmt: 32, sig: UU, call: |a| { let r = libm::sincosf(b32!(a[0])); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "frexpf", fmt: 32, sig: UUI, call: |a| { let r = libm::frexpf(b32!(a[0])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "lgammaf_r", fmt: 32, sig: UUI, call: |a| { let r = libm::lgammaf_r(b32!(a[0])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "remquof", fmt: 32, sig: BBI, call: |a| { let r = libm::remquof(b32!(a[0]), b32!(a[1])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "acos", fmt: 64, sig: U, call: |a| [libm::acos(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "acosh", fmt: 64, sig: U, call: |a| [libm::acosh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "asin", fmt: 64, sig: U, call: |a| [libm::asin(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "asinh", fmt: 64, sig: U, call: |a| [libm::asinh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "atan", fmt: 64, sig: U, call: |a| [libm::atan(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "atanh", fmt: 64, sig: U, call: |a| [libm::atanh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "cbrt", fmt: 64, sig: U, call: |a| [libm::cbrt(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "ceil", fmt: 64, sig: U, call: |a| [libm::ceil(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "cos", fmt: 64, sig: U, call: |a| [libm::cos(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "cosh", fmt: 64, sig: U, call: |a| [libm::cosh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "erf", fmt: 64, sig: U, call: |a| [libm::erf(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "erfc", fmt: 64, sig: U, call: |a| [libm::erfc(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp", fmt: 64, sig: U, call: |a| [libm::exp(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp10", fmt: 64, sig: U, call: |a| [libm::exp10(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp2", fmt: 64, sig: U, call: |a| [libm::exp2(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "expm1", fmt: 64, sig: U, call: |a| [libm::expm1(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "fabs", fmt: 64, sig: U, call: |a| [libm::fabs(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "floor", fmt: 64, sig: U, call: |a| [libm::floor(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "j0", fmt: 64, sig: U, call: |a| [libm::j0(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "j1", fmt: 64, sig: U, call: |a| [libm::j1(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "lgamma", fmt: 64, sig: U, call: |a| [libm::lgamma(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "log", fmt: 64, sig: U, call: |a| [libm::log(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "log10", fmt: 64, sig: U, call: |a| [libm::log10(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "log1p", fmt: 64, sig: U, call: |a| [libm::log1p(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "log2", fmt: 64, sig: U, call: |a| [libm::log2(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "rint", fmt: 64, sig: U, call: |a| [libm::rint(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "round", fmt: 64, sig: U, call: |a| [libm::round(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundeven", fmt: 64, sig: U, call: |a| [libm::roundeven(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "sin", fmt: 64, sig: U, call: |a| [libm::sin(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "sinh", fmt: 64, sig: U, call: |a| [libm::sinh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "sqrt", fmt: 64, sig: U, call: |a| [libm::sqrt(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "tan", fmt: 64, sig: U, call: |a| [libm::tan(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "tanh", fmt: 64, sig: U, call: |a| [libm::tanh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "tgamma", fmt: 64, sig: U, call: |a| [libm::tgamma(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "trunc", fmt: 64, sig: U, call: |a| [libm::trunc(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "y0", fmt: 64, sig: U, call: |a| [libm::y0(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "y1", fmt: 64, sig: U, call: |a| [libm::y1(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "atan2", fmt: 64, sig: B, call: |a| [libm::atan2(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "copysign", fmt: 64, sig: B, call: |a| [libm::copysign(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fdim", fmt: 64, sig: B, call: |a| [libm::fdim(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmax", fmt: 64, sig: B, call: |a| [libm::fmax(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum", fmt: 64, sig: B, call: |a| [libm::fmaximum(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum_num", fmt: 64, sig: B, call: |a| [libm::fmaximum_num(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmin", fmt: 64, sig: B, call: |a| [libm::fmin(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum", fmt: 64, sig: B, call: |a| [libm::fminimum(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum_num", fmt: 64, sig: B, call: |a| [libm::fminimum_num(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmod", fmt: 64, sig: B, call: |a| [libm::fmod(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "hypot", fmt: 64, sig: B, call: |a| [libm::hypot(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "nextafter", fmt: 64, sig: B, call: |a| [libm::nextafter(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "pow", fmt: 64, sig: B, call: |a| [libm::pow(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "remainder", fmt: 64, sig: B, call: |a| [libm::remainder(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fma", fmt: 64, sig: T, call: |a| [libm::fma(b64!(a[0]), b64!(a[1]), b64!(a[2])).to_bits() as u128, 0] },
    Op { name: "ldexp", fmt: 64, sig: BI, call: |a| [libm::ldexp(b64!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "scalbn", fmt: 64, sig: BI, call: |a| [libm::scalbn(b64!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "ilogb", fmt: 64, sig: UI, call: |a| [libm::ilogb(b64!(a[0])) as u32 as u128, 0] },
    Op { name: "jn", fmt: 64, sig: IB, call: |a| [libm::jn(a[0] as i32, b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "yn", fmt: 64, sig: IB, call: |a| [libm::yn(a[0] as i32, b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "modf", fmt: 64, sig: UU, call: |a| { let r = libm::modf(b64!(a[0])); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "sincos", fmt: 64, sig: UU, call: |a| { let r = libm::sincos(b64!(a[0])); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "frexp", fmt: 64, sig: UUI, call: |a| { let r = libm::frexp(b64!(a[0])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "lgamma_r", fmt: 64, sig: UUI, call: |a| { let r = libm::lgamma_r(b64!(a[0])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "remquo", fmt: 64, sig: BBI, call: |a| { let r = libm::remquo(b64!(a[0]), b64!(a[1])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "ceilf128", fmt: 128, sig: U, call: |a| [libm::ceilf128(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "fabsf128", fmt: 128, sig: U, call: |a| [libm::fabsf128(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "floorf128", fmt: 128, sig: U, call: |a| [libm::floorf128(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "rintf128", fmt: 128, sig: U, call: |a| [libm::rintf128(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundevenf128", fmt: 128, sig: U, call: |a| [libm::roundevenf128(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundf128", fmt: 128, sig: U, call: |a| [libm::roundf128(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "sqrtf128", fmt: 128, sig: U, call: |a| [libm::sqrtf128(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "truncf128", fmt: 128, sig: U, call: |a| [libm::truncf128(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "copysignf128", fmt: 128, sig: B, call: |a| [libm::copysignf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fdimf128", fmt: 128, sig: B, call: |a| [libm::fdimf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaxf128", fmt: 128, sig: B, call: |a| [libm::fmaxf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf128", fmt: 128, sig: B, call: |a| [libm::fmaximum_numf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximumf128", fmt: 128, sig: B, call: |a| [libm::fmaximumf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminf128", fmt: 128, sig: B, call: |a| [libm::fminf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum_numf128", fmt: 128, sig: B, call: |a| [libm::fminimum_numf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimumf128", fmt: 128, sig: B, call: |a| [libm::fminimumf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmodf128", fmt: 128, sig: B, call: |a| [libm::fmodf128(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaf128", fmt: 128, sig: T, call: |a| [libm::fmaf128(b128!(a[0]), b128!(a[1]), b128!(a[2])).to_bits() as u128, 0] },
    Op { name: "ldexpf128", fmt: 128, sig: BI, call: |a| [libm::ldexpf128(b128!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "scalbnf128", fmt: 128, sig: BI, call: |a| [libm::scalbnf128(b128!(a[0]), a[1] as i32).to_bits() as u128, 0] },
];
