// Written by tools/dev/gen_mpops.py: the oracle of crates/libm-test, one operand store per function and thread, as the kit uses it.
use crate::{Op, Sig::*};
use libm_test::mpfloat::MpOp;
use std::cell::RefCell;
macro_rules! b16 {($x:expr)=>{f16::from_bits($x as u16)};}
macro_rules! b32 {($x:expr)=>{f32::from_bits($x as u32)};}
macro_rules! b64 {($x:expr)=>{f64::from_bits($x as u64)};}
macro_rules! b128 {($x:expr)=>{f128::from_bits($x)};}
macro_rules! run {($f:ident, $a:expr)=>{{ type R = libm_test::op::$f::Routine; thread_local! { static M: RefCell<<R as MpOp>::MpTy> = RefCell::new(R::new_mp()); } M.with(|m| R::run(&mut m.borrow_mut(), $a)) }};}
pub static OPS: &[Op] = &[
    Op { name: "ceilf16", fmt: 16, sig: U, call: |a| [run!(ceilf16, (b16!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "fabsf16", fmt: 16, sig: U, call: |a| [run!(fabsf16, (b16!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "floorf16", fmt: 16, sig: U, call: |a| [run!(floorf16, (b16!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "rintf16", fmt: 16, sig: U, call: |a| [run!(rintf16, (b16!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "roundevenf16", fmt: 16, sig: U, call: |a| [run!(roundevenf16, (b16!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "roundf16", fmt: 16, sig: U, call: |a| [run!(roundf16, (b16!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "sqrtf16", fmt: 16, sig: U, call: |a| [run!(sqrtf16, (b16!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "truncf16", fmt: 16, sig: U, call: |a| [run!(truncf16, (b16!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "copysignf16", fmt: 16, sig: B, call: |a| [run!(copysignf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fdimf16", fmt: 16, sig: B, call: |a| [run!(fdimf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaxf16", fmt: 16, sig: B, call: |a| [run!(fmaxf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf16", fmt: 16, sig: B, call: |a| [run!(fmaximum_numf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaximumf16", fmt: 16, sig: B, call: |a| [run!(fmaximumf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminf16", fmt: 16, sig: B, call: |a| [run!(fminf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminimum_numf16", fmt: 16, sig: B, call: |a| [run!(fminimum_numf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminimumf16", fmt: 16, sig: B, call: |a| [run!(fminimumf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmodf16", fmt: 16, sig: B, call: |a| [run!(fmodf16, (b16!(a[0]), b16!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "ldexpf16", fmt: 16, sig: BI, call: |a| [run!(ldexpf16, (b16!(a[0]), a[1] as i32,)).to_bits() as u128, 0] },
    Op { name: "scalbnf16", fmt: 16, sig: BI, call: |a| [run!(scalbnf16, (b16!(a[0]), a[1] as i32,)).to_bits() as u128, 0] },
    Op { name: "acosf", fmt: 32, sig: U, call: |a| [run!(acosf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "acoshf", fmt: 32, sig: U, call: |a| [run!(acoshf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "asinf", fmt: 32, sig: U, call: |a| [run!(asinf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "asinhf", fmt: 32, sig: U, call: |a| [run!(asinhf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "atanf", fmt: 32, sig: U, call: |a| [run!(atanf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "atanhf", fmt: 32, sig: U, call: |a| [run!(atanhf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "cbrtf", fmt: 32, sig: U, call: |a| [run!(cbrtf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "ceilf", fmt: 32, sig: U, call: |a| [run!(ceilf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "cosf", fmt: 32, sig: U, call: |a| [run!(cosf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "coshf", fmt: 32, sig: U, call: |a| [run!(coshf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "erff", fmt: 32, sig: U, call: |a| [run!(erff, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "erfcf", fmt: 32, sig: U, call: |a| [run!(erfcf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "expf", fmt: 32, sig: U, call: |a| [run!(expf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "exp10f", fmt: 32, sig: U, call: |a| [run!(exp10f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "exp2f", fmt: 32, sig: U, call: |a| [run!(exp2f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "expm1f", fmt: 32, sig: U, call: |a| [run!(expm1f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "fabsf", fmt: 32, sig: U, call: |a| [run!(fabsf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "floorf", fmt: 32, sig: U, call: |a| [run!(floorf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "j0f", fmt: 32, sig: U, call: |a| [run!(j0f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "j1f", fmt: 32, sig: U, call: |a| [run!(j1f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "lgammaf", fmt: 32, sig: U, call: |a| [run!(lgammaf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "logf", fmt: 32, sig: U, call: |a| [run!(logf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "log10f", fmt: 32, sig: U, call: |a| [run!(log10f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "log1pf", fmt: 32, sig: U, call: |a| [run!(log1pf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "log2f", fmt: 32, sig: U, call: |a| [run!(log2f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "rintf", fmt: 32, sig: U, call: |a| [run!(rintf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "roundf", fmt: 32, sig: U, call: |a| [run!(roundf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "roundevenf", fmt: 32, sig: U, call: |a| [run!(roundevenf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "sinf", fmt: 32, sig: U, call: |a| [run!(sinf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "sinhf", fmt: 32, sig: U, call: |a| [run!(sinhf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "sqrtf", fmt: 32, sig: U, call: |a| [run!(sqrtf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "tanf", fmt: 32, sig: U, call: |a| [run!(tanf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "tanhf", fmt: 32, sig: U, call: |a| [run!(tanhf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "tgammaf", fmt: 32, sig: U, call: |a| [run!(tgammaf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "truncf", fmt: 32, sig: U, call: |a| [run!(truncf, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "y0f", fmt: 32, sig: U, call: |a| [run!(y0f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "y1f", fmt: 32, sig: U, call: |a| [run!(y1f, (b32!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "atan2f", fmt: 32, sig: B, call: |a| [run!(atan2f, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "copysignf", fmt: 32, sig: B, call: |a| [run!(copysignf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fdimf", fmt: 32, sig: B, call: |a| [run!(fdimf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaxf", fmt: 32, sig: B, call: |a| [run!(fmaxf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaximumf", fmt: 32, sig: B, call: |a| [run!(fmaximumf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf", fmt: 32, sig: B, call: |a| [run!(fmaximum_numf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminf", fmt: 32, sig: B, call: |a| [run!(fminf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminimumf", fmt: 32, sig: B, call: |a| [run!(fminimumf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminimum_numf", fmt: 32, sig: B, call: |a| [run!(fminimum_numf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmodf", fmt: 32, sig: B, call: |a| [run!(fmodf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "hypotf", fmt: 32, sig: B, call: |a| [run!(hypotf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "powf", fmt: 32, sig: B, call: |a| [run!(powf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "remainderf", fmt: 32, sig: B, call: |a| [run!(remainderf, (b32!(a[0]), b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaf", fmt: 32, sig: T, call: |a| [run!(fmaf, (b32!(a[0]), b32!(a[1]), b32!(a[2]),)).to_bits() as u128, 0] },
    Op { name: "ldexpf", fmt: 32, sig: BI, call: |a| [run!(ldexpf, (b32!(a[0]), a[1] as i32,)).to_bits() as u128, 0] },
    Op { name: "scalbnf", fmt: 32, sig: BI, call: |a| [run!(scalbnf, (b32!(a[0]), a[1] as i32,)).to_bits() as u128, 0] },
    Op { name: "ilogbf", fmt: 32, sig: UI, call: |a| [run!(ilogbf, (b32!(a[0]),)) as u32 as u128, 0] },
    Op { name: "jnf", fmt: 32, sig: IB, call: |a| [run!(jnf, (a[0] as i32, b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "ynf", fmt: 32, sig: IB, call: |a| [run!(ynf, (a[0] as i32, b32!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "modff", fmt: 32, sig: UU, call: |a| { let r = run!(modff, (b32!(a[0]),)); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "sincosf", fmt: 32, sig: UU, call: |a| { let r = run!(sincosf, (b32!(a[0]),)); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "frexpf", fmt: 32, sig: UUI, call: |a| { let r = run!(frexpf, (b32!(a[0]),)); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "lgammaf_r", fmt: 32, sig: UUI, call: |a| { let r = run!(lgammaf_r, (b32!(a[0]),)); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "remquof", fmt: 32, sig: BBI, call: |a| { let r = run!(remquof, (b32!(a[0]), b32!(a[1]),)); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "acos", fmt: 64, sig: U, call: |a| [run!(acos, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "acosh", fmt: 64, sig: U, call: |a| [run!(acosh, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "asin", fmt: 64, sig: U, call: |a| [run!(asin, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "asinh", fmt: 64, sig: U, call: |a| [run!(asinh, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "atan", fmt: 64, sig: U, call: |a| [run!(atan, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "atanh", fmt: 64, sig: U, call: |a| [run!(atanh, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "cbrt", fmt: 64, sig: U, call: |a| [run!(cbrt, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "ceil", fmt: 64, sig: U, call: |a| [run!(ceil, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "cos", fmt: 64, sig: U, call: |a| [run!(cos, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "cosh", fmt: 64, sig: U, call: |a| [run!(cosh, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "erf", fmt: 64, sig: U, call: |a| [run!(erf, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "erfc", fmt: 64, sig: U, call: |a| [run!(erfc, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "exp", fmt: 64, sig: U, call: |a| [run!(exp, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "exp10", fmt: 64, sig: U, call: |a| [run!(exp10, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "exp2", fmt: 64, sig: U, call: |a| [run!(exp2, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "expm1", fmt: 64, sig: U, call: |a| [run!(expm1, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "fabs", fmt: 64, sig: U, call: |a| [run!(fabs, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "floor", fmt: 64, sig: U, call: |a| [run!(floor, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "j0", fmt: 64, sig: U, call: |a| [run!(j0, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "j1", fmt: 64, sig: U, call: |a| [run!(j1, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "lgamma", fmt: 64, sig: U, call: |a| [run!(lgamma, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "log", fmt: 64, sig: U, call: |a| [run!(log, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "log10", fmt: 64, sig: U, call: |a| [run!(log10, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "log1p", fmt: 64, sig: U, call: |a| [run!(log1p, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "log2", fmt: 64, sig: U, call: |a| [run!(log2, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "rint", fmt: 64, sig: U, call: |a| [run!(rint, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "round", fmt: 64, sig: U, call: |a| [run!(round, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "roundeven", fmt: 64, sig: U, call: |a| [run!(roundeven, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "sin", fmt: 64, sig: U, call: |a| [run!(sin, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "sinh", fmt: 64, sig: U, call: |a| [run!(sinh, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "sqrt", fmt: 64, sig: U, call: |a| [run!(sqrt, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "tan", fmt: 64, sig: U, call: |a| [run!(tan, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "tanh", fmt: 64, sig: U, call: |a| [run!(tanh, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "tgamma", fmt: 64, sig: U, call: |a| [run!(tgamma, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "trunc", fmt: 64, sig: U, call: |a| [run!(trunc, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "y0", fmt: 64, sig: U, call: |a| [run!(y0, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "y1", fmt: 64, sig: U, call: |a| [run!(y1, (b64!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "atan2", fmt: 64, sig: B, call: |a| [run!(atan2, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "copysign", fmt: 64, sig: B, call: |a| [run!(copysign, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fdim", fmt: 64, sig: B, call: |a| [run!(fdim, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmax", fmt: 64, sig: B, call: |a| [run!(fmax, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaximum", fmt: 64, sig: B, call: |a| [run!(fmaximum, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaximum_num", fmt: 64, sig: B, call: |a| [run!(fmaximum_num, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmin", fmt: 64, sig: B, call: |a| [run!(fmin, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminimum", fmt: 64, sig: B, call: |a| [run!(fminimum, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminimum_num", fmt: 64, sig: B, call: |a| [run!(fminimum_num, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmod", fmt: 64, sig: B, call: |a| [run!(fmod, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "hypot", fmt: 64, sig: B, call: |a| [run!(hypot, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "pow", fmt: 64, sig: B, call: |a| [run!(pow, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "remainder", fmt: 64, sig: B, call: |a| [run!(remainder, (b64!(a[0]), b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fma", fmt: 64, sig: T, call: |a| [run!(fma, (b64!(a[0]), b64!(a[1]), b64!(a[2]),)).to_bits() as u128, 0] },
    Op { name: "ldexp", fmt: 64, sig: BI, call: |a| [run!(ldexp, (b64!(a[0]), a[1] as i32,)).to_bits() as u128, 0] },
    Op { name: "scalbn", fmt: 64, sig: BI, call: |a| [run!(scalbn, (b64!(a[0]), a[1] as i32,)).to_bits() as u128, 0] },
    Op { name: "ilogb", fmt: 64, sig: UI, call: |a| [run!(ilogb, (b64!(a[0]),)) as u32 as u128, 0] },
    Op { name: "jn", fmt: 64, sig: IB, call: |a| [run!(jn, (a[0] as i32, b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "yn", fmt: 64, sig: IB, call: |a| [run!(yn, (a[0] as i32, b64!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "modf", fmt: 64, sig: UU, call: |a| { let r = run!(modf, (b64!(a[0]),)); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "sincos", fmt: 64, sig: UU, call: |a| { let r = run!(sincos, (b64!(a[0]),)); [r.0.to_bits() as u128, r.1.to_bits() as u128] } },
    Op { name: "frexp", fmt: 64, sig: UUI, call: |a| { let r = run!(frexp, (b64!(a[0]),)); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "lgamma_r", fmt: 64, sig: UUI, call: |a| { let r = run!(lgamma_r, (b64!(a[0]),)); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "remquo", fmt: 64, sig: BBI, call: |a| { let r = run!(remquo, (b64!(a[0]), b64!(a[1]),)); [r.0.to_bits() as u128, r.1 as u32 as u128] } },
    Op { name: "ceilf128", fmt: 128, sig: U, call: |a| [run!(ceilf128, (b128!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "fabsf128", fmt: 128, sig: U, call: |a| [run!(fabsf128, (b128!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "floorf128", fmt: 128, sig: U, call: |a| [run!(floorf128, (b128!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "rintf128", fmt: 128, sig: U, call: |a| [run!(rintf128, (b128!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "roundevenf128", fmt: 128, sig: U, call: |a| [run!(roundevenf128, (b128!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "roundf128", fmt: 128, sig: U, call: |a| [run!(roundf128, (b128!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "sqrtf128", fmt: 128, sig: U, call: |a| [run!(sqrtf128, (b128!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "truncf128", fmt: 128, sig: U, call: |a| [run!(truncf128, (b128!(a[0]),)).to_bits() as u128, 0] },
    Op { name: "copysignf128", fmt: 128, sig: B, call: |a| [run!(copysignf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fdimf128", fmt: 128, sig: B, call: |a| [run!(fdimf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaxf128", fmt: 128, sig: B, call: |a| [run!(fmaxf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaximum_numf128", fmt: 128, sig: B, call: |a| [run!(fmaximum_numf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaximumf128", fmt: 128, sig: B, call: |a| [run!(fmaximumf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminf128", fmt: 128, sig: B, call: |a| [run!(fminf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminimum_numf128", fmt: 128, sig: B, call: |a| [run!(fminimum_numf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fminimumf128", fmt: 128, sig: B, call: |a| [run!(fminimumf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmodf128", fmt: 128, sig: B, call: |a| [run!(fmodf128, (b128!(a[0]), b128!(a[1]),)).to_bits() as u128, 0] },
    Op { name: "fmaf128", fmt: 128, sig: T, call: |a| [run!(fmaf128, (b128!(a[0]), b128!(a[1]), b128!(a[2]),)).to_bits() as u128, 0] },
    Op { name: "ldexpf128", fmt: 128, sig: BI, call: |a| [run!(ldexpf128, (b128!(a[0]), a[1] as i32,)).to_bits() as u128, 0] },
    Op { name: "scalbnf128", fmt: 128, sig: BI, call: |a| [run!(scalbnf128, (b128!(a[0]), a[1] as i32,)).to_bits() as u128, 0] },
];
