//! A float seen as sign, exponent and fraction.  p: width of the format.
use crate::{guard, Ev, Out, Rng};
use libm::support::{DFloat, Float, HFloat};
macro_rules! one { ($e:expr, $f:ty, $u:ty) => {{ let e = $e; let g = |x: u128| <$f as Float>::from_bits(x as $u); let x = g(e.a.lo); let y = g(e.b.lo); let b = |x: $f| -> u128 { Float::to_bits(x) as u128 }; match e.op {
    40 => e.r0 = ((Float::is_nan(x) as u128) | (Float::is_infinite(x) as u128) << 1 | (Float::is_sign_negative(x) as u128) << 2 | (Float::is_sign_positive(x) as u128) << 3 | (Float::is_subnormal(x) as u128) << 4).into(),
    41 => { e.r0 = (Float::ex(x) as u128).into(); e.r1 = (Float::exp_unbiased(x) as u32 as u128).into() }
    42 => e.r0 = (Float::frac(x) as u128).into(),
    43 => e.r0 = b(<$f as Float>::from_parts(e.a.lo & 1 == 1, e.b.lo as u32, e.c.lo as $u)).into(),
    44 => { let (k, s) = <$f as Float>::normalize(e.a.lo as $u); e.r0 = (k as u32 as u128).into(); e.r1 = (s as u128).into() }
    45 => e.r0 = b(Float::signum(x)).into(),
    46 => e.r0 = ((Float::biteq(x, y) as u128) | (Float::eq_repr(x, y) as u128) << 1).into(),
    47 => { e.r0 = b(Float::abs(x)).into(); e.r1 = b(Float::copysign(x, y)).into() }
    48 => { e.r0 = b(x).into(); e.r1 = (Float::to_bits_signed(x) as $u as u128).into() }
    50 => e.r0 = match e.b.lo { 0 => b(<$f as Float>::ZERO), 1 => b(<$f as Float>::NEG_ZERO), 2 => b(<$f as Float>::ONE), 3 => b(<$f as Float>::NEG_ONE), 4 => b(<$f as Float>::INFINITY), 5 => b(<$f as Float>::NEG_INFINITY), 6 => b(<$f as Float>::NAN), 7 => b(<$f as Float>::NEG_NAN),
        8 => b(<$f as Float>::MAX), 9 => b(<$f as Float>::MIN), 10 => b(<$f as Float>::EPSILON), 11 => b(<$f as Float>::PI), 12 => b(<$f as Float>::NEG_PI), 13 => b(<$f as Float>::FRAC_PI_2), 14 => b(<$f as Float>::MIN_POSITIVE_NORMAL), 15 => <$f as Float>::BITS as u128, 16 => <$f as Float>::SIG_BITS as u128, 17 => <$f as Float>::EXP_BITS as u128, 18 => <$f as Float>::EXP_SAT as u128,
        19 => <$f as Float>::EXP_BIAS as u128, 20 => <$f as Float>::EXP_MAX as u32 as u128, 21 => <$f as Float>::EXP_MIN as u32 as u128, 22 => <$f as Float>::EXP_MIN_SUBNORM as u32 as u128, 23 => <$f as Float>::SIGN_MASK as u128, 24 => <$f as Float>::SIG_MASK as u128, 25 => <$f as Float>::EXP_MASK as u128, _ => <$f as Float>::IMPLICIT_BIT as u128 }.into(),
    _ => return false,
} true }} }
fn step(e: &mut Ev) -> bool {
    match (e.op, e.p) {
        (51, 16) => { e.r0 = (HFloat::widen(f16::from_bits(e.a.lo as u16)).to_bits() as u128).into(); true }
        (51, 32) => { e.r0 = (HFloat::widen(f32::from_bits(e.a.lo as u32)).to_bits() as u128).into(); true }
        (51, 64) => { e.r0 = HFloat::widen(f64::from_bits(e.a.lo as u64)).to_bits().into(); true }
        (52, 32) => { e.r0 = (DFloat::narrow(f32::from_bits(e.a.lo as u32)).to_bits() as u128).into(); true }
        (52, 64) => { e.r0 = (DFloat::narrow(f64::from_bits(e.a.lo as u64)).to_bits() as u128).into(); true }
        (52, 128) => { e.r0 = (DFloat::narrow(f128::from_bits(e.a.lo)).to_bits() as u128).into(); true }
        (49, 32) => { e.r0 = (Float::fma(f32::from_bits(e.a.lo as u32), f32::from_bits(e.b.lo as u32), f32::from_bits(e.c.lo as u32)).to_bits() as u128).into(); true }
        (49, 64) => { e.r0 = (Float::fma(f64::from_bits(e.a.lo as u64), f64::from_bits(e.b.lo as u64), f64::from_bits(e.c.lo as u64)).to_bits() as u128).into(); true }
        (49, 128) => { e.r0 = Float::fma(f128::from_bits(e.a.lo), f128::from_bits(e.b.lo), f128::from_bits(e.c.lo)).to_bits().into(); true }
        (_, 16) => one!(e, f16, u16), (_, 32) => one!(e, f32, u32), (_, 64) => one!(e, f64, u64), (_, 128) => one!(e, f128, u128),
        _ => false,
    }
}
pub fn exec(e: Ev) -> Ev { let mut ok = true; let r = guard(e, |e| ok = step(e)); Ev { flag: if ok || r.flag == 1 { r.flag } else { 9 }, ..r } }
fn sig(p: u32) -> u32 { match p { 16 => 10, 32 => 23, 64 => 52, _ => 112 } }
pub fn datum(p: u32, r: &mut Rng) -> u128 {
    let (m, w) = (sig(p), p);
    let eb = w - 1 - m;
    let e = match r.n(6) { 0 => 0, 1 => (1u128 << eb) - 1, 2 => (1u128 << eb) - 2, 3 => 1, _ => r.w() & ((1u128 << eb) - 1) };
    let f = r.int(m);
    (r.n(2) as u128) << (w - 1) | e << m | f
}
pub fn run(o: &mut Out, seed: u64, secs: f64, keep: usize) {
    let mut r = Rng::new(seed ^ 0x77);
    let _ = secs;
    for p in [16u32, 32, 64, 128] {
        for k in 0..27u128 { o.calls += 1; let e = exec(Ev { op: 50, p, b: k.into(), ..Default::default() }); o.put(&e) }
        for op in [40u32, 41, 42, 43, 44, 45, 46, 47, 48, 49, 51, 52] {
            for _ in 0..keep / 48 {
                let a = datum(p, &mut r);
                let e = match op {
                    43 => Ev { op, p, a: (r.n(2) as u128).into(), b: (match r.n(3) { 0 => r.n(1 << 32) as u128, _ => r.n(1 << (p - 1 - sig(p))) as u128 }).into(), c: (match r.n(3) { 0 => r.int(p), _ => r.int(sig(p)) }).into(), ..Default::default() },
                    44 => { let s = r.int(sig(p) + 1); Ev { op, p, a: (if s == 0 { 1 } else { s }).into(), ..Default::default() } }
                    46 => { let b = match r.n(4) { 0 => a, 1 => a ^ 1 << (p - 1), 2 => a ^ 1, _ => datum(p, &mut r) }; Ev { op, p, a: a.into(), b: b.into(), ..Default::default() } }
                    _ => Ev { op, p, a: a.into(), b: datum(p, &mut r).into(), c: datum(p, &mut r).into(), ..Default::default() },
                };
                let e = exec(e);
                o.calls += 1;
                if e.flag != 9 { o.put(&e) }
            }
        }
    }
}
