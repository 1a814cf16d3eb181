// Written by tools/dev/gen_hops.py: the methods of Libm<T>, labelled with the function they must be.
use crate::{Op, Sig::*};
use libm::Libm;
macro_rules! b16 {($x:expr)=>{f16::from_bits($x as u16)};}
macro_rules! b32 {($x:expr)=>{f32::from_bits($x as u32)};}
macro_rules! b64 {($x:expr)=>{f64::from_bits($x as u64)};}
macro_rules! b128 {($x:expr)=>{f128::from_bits($x)};}
pub static HOPS: &[Op] = &[
    Op { name: "acosf", fmt: 32, sig: U, call: |a| [Libm::<f32>::acos(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "acoshf", fmt: 32, sig: U, call: |a| [Libm::<f32>::acosh(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "asinf", fmt: 32, sig: U, call: |a| [Libm::<f32>::asin(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "asinhf", fmt: 32, sig: U, call: |a| [Libm::<f32>::asinh(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "atanf", fmt: 32, sig: U, call: |a| [Libm::<f32>::atan(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "atan2f", fmt: 32, sig: B, call: |a| [Libm::<f32>::atan2(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "atanhf", fmt: 32, sig: U, call: |a| [Libm::<f32>::atanh(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "cbrtf", fmt: 32, sig: U, call: |a| [Libm::<f32>::cbrt(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "ceilf", fmt: 32, sig: U, call: |a| [Libm::<f32>::ceil(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "copysignf", fmt: 32, sig: B, call: |a| [Libm::<f32>::copysign(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "cosf", fmt: 32, sig: U, call: |a| [Libm::<f32>::cos(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "coshf", fmt: 32, sig: U, call: |a| [Libm::<f32>::cosh(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "erff", fmt: 32, sig: U, call: |a| [Libm::<f32>::erf(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "erfcf", fmt: 32, sig: U, call: |a| [Libm::<f32>::erfc(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "expf", fmt: 32, sig: U, call: |a| [Libm::<f32>::exp(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp10f", fmt: 32, sig: U, call: |a| [Libm::<f32>::exp10(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp2f", fmt: 32, sig: U, call: |a| [Libm::<f32>::exp2(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "expm1f", fmt: 32, sig: U, call: |a| [Libm::<f32>::expm1(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "fabsf", fmt: 32, sig: U, call: |a| [Libm::<f32>::fabs(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "fdimf", fmt: 32, sig: B, call: |a| [Libm::<f32>::fdim(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "floorf", fmt: 32, sig: U, call: |a| [Libm::<f32>::floor(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "fmaf", fmt: 32, sig: T, call: |a| [Libm::<f32>::fma(b32!(a[0]), b32!(a[1]), b32!(a[2])).to_bits() as u128, 0] },
    Op { name: "fmaxf", fmt: 32, sig: B, call: |a| [Libm::<f32>::fmax(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminf", fmt: 32, sig: B, call: |a| [Libm::<f32>::fmin(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmodf", fmt: 32, sig: B, call: |a| [Libm::<f32>::fmod(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "frexpf", fmt: 32, sig: UUI, call: |a| { let r = Libm::<f32>::frexp(b32!(a[0])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "hypotf", fmt: 32, sig: B, call: |a| [Libm::<f32>::hypot(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "ilogbf", fmt: 32, sig: UI, call: |a| [Libm::<f32>::ilogb(b32!(a[0])) as u32 as u128, 0] },
    Op { name: "j0f", fmt: 32, sig: U, call: |a| [Libm::<f32>::j0(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "j1f", fmt: 32, sig: U, call: |a| [Libm::<f32>::j1(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "jnf", fmt: 32, sig: IB, call: |a| [Libm::<f32>::jn(a[0] as i32, b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "ldexpf", fmt: 32, sig: BI, call: |a| [Libm::<f32>::ldexp(b32!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "lgammaf", fmt: 32, sig: U, call: |a| [Libm::<f32>::lgamma(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "lgammaf_r", fmt: 32, sig: UUI, call: |a| { let r = Libm::<f32>::lgamma_r(b32!(a[0])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "logf", fmt: 32, sig: U, call: |a| [Libm::<f32>::log(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "log10f", fmt: 32, sig: U, call: |a| [Libm::<f32>::log10(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "log1pf", fmt: 32, sig: U, call: |a| [Libm::<f32>::log1p(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "log2f", fmt: 32, sig: U, call: |a| [Libm::<f32>::log2(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "modff", fmt: 32, sig: UU, call: |a| { let r = Libm::<f32>::modf(b32!(a[0])); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "nextafterf", fmt: 32, sig: B, call: |a| [Libm::<f32>::nextafter(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "powf", fmt: 32, sig: B, call: |a| [Libm::<f32>::pow(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "remainderf", fmt: 32, sig: B, call: |a| [Libm::<f32>::remainder(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "remquof", fmt: 32, sig: BBI, call: |a| { let r = Libm::<f32>::remquo(b32!(a[0]), b32!(a[1])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "rintf", fmt: 32, sig: U, call: |a| [Libm::<f32>::rint(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundf", fmt: 32, sig: U, call: |a| [Libm::<f32>::round(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundevenf", fmt: 32, sig: U, call: |a| [Libm::<f32>::roundeven(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "scalbnf", fmt: 32, sig: BI, call: |a| [Libm::<f32>::scalbn(b32!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "sinf", fmt: 32, sig: U, call: |a| [Libm::<f32>::sin(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "sincosf", fmt: 32, sig: UU, call: |a| { let r = Libm::<f32>::sincos(b32!(a[0])); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "sinhf", fmt: 32, sig: U, call: |a| [Libm::<f32>::sinh(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "sqrtf", fmt: 32, sig: U, call: |a| [Libm::<f32>::sqrt(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "tanf", fmt: 32, sig: U, call: |a| [Libm::<f32>::tan(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "tanhf", fmt: 32, sig: U, call: |a| [Libm::<f32>::tanh(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "tgammaf", fmt: 32, sig: U, call: |a| [Libm::<f32>::tgamma(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "truncf", fmt: 32, sig: U, call: |a| [Libm::<f32>::trunc(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "y0f", fmt: 32, sig: U, call: |a| [Libm::<f32>::y0(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "y1f", fmt: 32, sig: U, call: |a| [Libm::<f32>::y1(b32!(a[0])).to_bits() as u128, 0] },
    Op { name: "ynf", fmt: 32, sig: IB, call: |a| [Libm::<f32>::yn(a[0] as i32, b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "acos", fmt: 64, sig: U, call: |a| [Libm::<f64>::acos(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "acosh", fmt: 64, sig: U, call: |a| [Libm::<f64>::acosh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "asin", fmt: 64, sig: U, call: |a| [Libm::<f64>::asin(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "asinh", fmt: 64, sig: U, call: |a| [Libm::<f64>::asinh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "atan", fmt: 64, sig: U, call: |a| [Libm::<f64>::atan(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "atan2", fmt: 64, sig: B, call: |a| [Libm::<f64>::atan2(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "atanh", fmt: 64, sig: U, call: |a| [Libm::<f64>::atanh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "cbrt", fmt: 64, sig: U, call: |a| [Libm::<f64>::cbrt(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "ceil", fmt: 64, sig: U, call: |a| [Libm::<f64>::ceil(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "copysign", fmt: 64, sig: B, call: |a| [Libm::<f64>::copysign(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "cos", fmt: 64, sig: U, call: |a| [Libm::<f64>::cos(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "cosh", fmt: 64, sig: U, call: |a| [Libm::<f64>::cosh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "erf", fmt: 64, sig: U, call: |a| [Libm::<f64>::erf(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "erfc", fmt: 64, sig: U, call: |a| [Libm::<f64>::erfc(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp", fmt: 64, sig: U, call: |a| [Libm::<f64>::exp(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp10", fmt: 64, sig: U, call: |a| [Libm::<f64>::exp10(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "exp2", fmt: 64, sig: U, call: |a| [Libm::<f64>::exp2(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "expm1", fmt: 64, sig: U, call: |a| [Libm::<f64>::expm1(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "fabs", fmt: 64, sig: U, call: |a| [Libm::<f64>::fabs(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "fdim", fmt: 64, sig: B, call: |a| [Libm::<f64>::fdim(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "floor", fmt: 64, sig: U, call: |a| [Libm::<f64>::floor(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "fma", fmt: 64, sig: T, call: |a| [Libm::<f64>::fma(b64!(a[0]), b64!(a[1]), b64!(a[2])).to_bits() as u128, 0] },
    Op { name: "fmax", fmt: 64, sig: B, call: |a| [Libm::<f64>::fmax(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum", fmt: 64, sig: B, call: |a| [Libm::<f64>::fmaximum(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum_num", fmt: 64, sig: B, call: |a| [Libm::<f64>::fmaximum_num(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf", fmt: 32, sig: B, call: |a| [Libm::<f64>::fmaximum_numf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximumf", fmt: 32, sig: B, call: |a| [Libm::<f64>::fmaximumf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmin", fmt: 64, sig: B, call: |a| [Libm::<f64>::fmin(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum", fmt: 64, sig: B, call: |a| [Libm::<f64>::fminimum(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum_num", fmt: 64, sig: B, call: |a| [Libm::<f64>::fminimum_num(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum_numf", fmt: 32, sig: B, call: |a| [Libm::<f64>::fminimum_numf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimumf", fmt: 32, sig: B, call: |a| [Libm::<f64>::fminimumf(b32!(a[0]), b32!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmod", fmt: 64, sig: B, call: |a| [Libm::<f64>::fmod(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "frexp", fmt: 64, sig: UUI, call: |a| { let r = Libm::<f64>::frexp(b64!(a[0])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "hypot", fmt: 64, sig: B, call: |a| [Libm::<f64>::hypot(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "ilogb", fmt: 64, sig: UI, call: |a| [Libm::<f64>::ilogb(b64!(a[0])) as u32 as u128, 0] },
    Op { name: "j0", fmt: 64, sig: U, call: |a| [Libm::<f64>::j0(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "j1", fmt: 64, sig: U, call: |a| [Libm::<f64>::j1(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "jn", fmt: 64, sig: IB, call: |a| [Libm::<f64>::jn(a[0] as i32, b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "ldexp", fmt: 64, sig: BI, call: |a| [Libm::<f64>::ldexp(b64!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "lgamma", fmt: 64, sig: U, call: |a| [Libm::<f64>::lgamma(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "lgamma_r", fmt: 64, sig: UUI, call: |a| { let r = Libm::<f64>::lgamma_r(b64!(a[0])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "log", fmt: 64, sig: U, call: |a| [Libm::<f64>::log(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "log10", fmt: 64, sig: U, call: |a| [Libm::<f64>::log10(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "log1p", fmt: 64, sig: U, call: |a| [Libm::<f64>::log1p(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "log2", fmt: 64, sig: U, call: |a| [Libm::<f64>::log2(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "modf", fmt: 64, sig: UU, call: |a| { let r = Libm::<f64>::modf(b64!(a[0])); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "nextafter", fmt: 64, sig: B, call: |a| [Libm::<f64>::nextafter(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "pow", fmt: 64, sig: B, call: |a| [Libm::<f64>::pow(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "remainder", fmt: 64, sig: B, call: |a| [Libm::<f64>::remainder(b64!(a[0]), b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "remquo", fmt: 64, sig: BBI, call: |a| { let r = Libm::<f64>::remquo(b64!(a[0]), b64!(a[1])); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "rint", fmt: 64, sig: U, call: |a| [Libm::<f64>::rint(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "round", fmt: 64, sig: U, call: |a| [Libm::<f64>::round(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundeven", fmt: 64, sig: U, call: |a| [Libm::<f64>::roundevem(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "scalbn", fmt: 64, sig: BI, call: |a| [Libm::<f64>::scalbn(b64!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "sin", fmt: 64, sig: U, call: |a| [Libm::<f64>::sin(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "sincos", fmt: 64, sig: UU, call: |a| { let r = Libm::<f64>::sincos(b64!(a[0])); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "sinh", fmt: 64, sig: U, call: |a| [Libm::<f64>::sinh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "sqrt", fmt: 64, sig: U, call: |a| [Libm::<f64>::sqrt(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "tan", fmt: 64, sig: U, call: |a| [Libm::<f64>::tan(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "tanh", fmt: 64, sig: U, call: |a| [Libm::<f64>::tanh(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "tgamma", fmt: 64, sig: U, call: |a| [Libm::<f64>::tgamma(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "trunc", fmt: 64, sig: U, call: |a| [Libm::<f64>::trunc(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "y0", fmt: 64, sig: U, call: |a| [Libm::<f64>::y0(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "y1", fmt: 64, sig: U, call: |a| [Libm::<f64>::y1(b64!(a[0])).to_bits() as u128, 0] },
    Op { name: "yn", fmt: 64, sig: IB, call: |a| [Libm::<f64>::yn(a[0] as i32, b64!(a[1])).to_bits() as u128, 0] },
    Op { name: "ceilf16", fmt: 16, sig: U, call: |a| [Libm::<f16>::ceil(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "copysignf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::copysign(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fabsf16", fmt: 16, sig: U, call: |a| [Libm::<f16>::fabs(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "fdimf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::fdim(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "floorf16", fmt: 16, sig: U, call: |a| [Libm::<f16>::floor(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "fmaxf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::fmax(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::fmaximum_num(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximumf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::fmaximumf16(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::fmin(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimumf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::fminimum(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum_numf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::fminimum_num(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmodf16", fmt: 16, sig: B, call: |a| [Libm::<f16>::fmod(b16!(a[0]), b16!(a[1])).to_bits() as u128, 0] },
    Op { name: "ldexpf16", fmt: 16, sig: BI, call: |a| [Libm::<f16>::ldexp(b16!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "rintf16", fmt: 16, sig: U, call: |a| [Libm::<f16>::rint(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundf16", fmt: 16, sig: U, call: |a| [Libm::<f16>::round(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundevenf16", fmt: 16, sig: U, call: |a| [Libm::<f16>::roundeven(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "scalbnf16", fmt: 16, sig: BI, call: |a| [Libm::<f16>::scalbn(b16!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "sqrtf16", fmt: 16, sig: U, call: |a| [Libm::<f16>::sqrtf(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "truncf16", fmt: 16, sig: U, call: |a| [Libm::<f16>::truncf(b16!(a[0])).to_bits() as u128, 0] },
    Op { name: "ceilf128", fmt: 128, sig: U, call: |a| [Libm::<f128>::ceil(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "copysignf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::copysign(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fabsf128", fmt: 128, sig: U, call: |a| [Libm::<f128>::fabs(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "fdimf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::fdim(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "floorf128", fmt: 128, sig: U, call: |a| [Libm::<f128>::floor(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "fmaf128", fmt: 128, sig: T, call: |a| [Libm::<f128>::fma(b128!(a[0]), b128!(a[1]), b128!(a[2])).to_bits() as u128, 0] },
    Op { name: "fmaxf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::fmax(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximumf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::fmaximum(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::fmaximum_num(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::fmin(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimumf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::fminimum(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fminimum_numf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::fminimum_num(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "fmodf128", fmt: 128, sig: B, call: |a| [Libm::<f128>::fmod(b128!(a[0]), b128!(a[1])).to_bits() as u128, 0] },
    Op { name: "ldexpf128", fmt: 128, sig: BI, call: |a| [Libm::<f128>::ldexp(b128!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "rintf128", fmt: 128, sig: U, call: |a| [Libm::<f128>::rint(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundf128", fmt: 128, sig: U, call: |a| [Libm::<f128>::round(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "roundevenf128", fmt: 128, sig: U, call: |a| [Libm::<f128>::roundeven(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "scalbnf128", fmt: 128, sig: BI, call: |a| [Libm::<f128>::scalbn(b128!(a[0]), a[1] as i32).to_bits() as u128, 0] },
    Op { name: "sqrtf128", fmt: 128, sig: U, call: |a| [Libm::<f128>::sqrt(b128!(a[0])).to_bits() as u128, 0] },
    Op { name: "truncf128", fmt: 128, sig: U, call: |a| [Libm::<f128>::trunc(b128!(a[0])).to_bits() as u128, 0] },
];
