//! Which results the comparison lets pass.  c: low half the tolerance, high half kind (1: from a list) + 2 * basis
//! (0 none, 1 multiprecision, 2 musl).
use crate::{big::B, datum, guard, mask, Ev, Out, Rng};
use libm_test::{CheckBasis, CheckCtx, CheckOutput, GeneratorKind, Identifier};
fn ctx(e: &Ev, id: Identifier) -> CheckCtx {
    let basis = match e.c.hi / 2 % 4 { 0 => CheckBasis::None, 1 => CheckBasis::Mpfr, _ => CheckBasis::Musl };
    let mut c = CheckCtx::new(id, basis, if e.c.hi & 1 == 1 { GeneratorKind::List } else { GeneratorKind::Random });
    if e.op != 89 { c.ulp = e.c.lo as u32 }
    c
}
fn go(e: &mut Ev) {
    let (a, b) = (e.a.lo, e.b.lo);
    let ok = match (e.op, e.p & 255) {
        (85, 16) => f16::from_bits(a as u16).validate(f16::from_bits(b as u16), (1.0f16,), &ctx(e, Identifier::Sqrtf16)).is_ok(),
        (85, 32) => f32::from_bits(a as u32).validate(f32::from_bits(b as u32), (1.0f32,), &ctx(e, Identifier::Atanf)).is_ok(),
        (85, 64) => f64::from_bits(a as u64).validate(f64::from_bits(b as u64), (1.0f64,), &ctx(e, Identifier::Atan)).is_ok(),
        (85, _) => f128::from_bits(a).validate(f128::from_bits(b), (1.0f128,), &ctx(e, Identifier::Sqrtf128)).is_ok(),
        (86, 32) => (f32::from_bits(a as u32), e.a.hi as i32).validate((f32::from_bits(b as u32), e.b.hi as i32), (1.0f32,), &ctx(e, Identifier::Frexpf)).is_ok(),
        (86, _) => (f64::from_bits(a as u64), e.a.hi as i32).validate((f64::from_bits(b as u64), e.b.hi as i32), (1.0f64,), &ctx(e, Identifier::Frexp)).is_ok(),
        (87, 32) => (f32::from_bits(a as u32), f32::from_bits(e.a.hi as u32)).validate((f32::from_bits(b as u32), f32::from_bits(e.b.hi as u32)), (1.0f32,), &ctx(e, Identifier::Sincosf)).is_ok(),
        (87, _) => (f64::from_bits(a as u64), f64::from_bits(e.a.hi as u64)).validate((f64::from_bits(b as u64), f64::from_bits(e.b.hi as u64)), (1.0f64,), &ctx(e, Identifier::Sincos)).is_ok(),
        (88, 32) => f32::from_bits(a as u32).validate(f32::from_bits(b as u32), (f32::NAN,), &ctx(e, Identifier::Fabsf)).is_ok(),
        (88, _) => f64::from_bits(a as u64).validate(f64::from_bits(b as u64), (f64::NAN,), &ctx(e, Identifier::Fabs)).is_ok(),
        _ => { e.r0 = (ctx(e, Identifier::from_str(&e.text).unwrap()).ulp as u128).into(); return }
    };
    e.r0 = (ok as u128).into();
}
pub fn exec(e: Ev) -> Ev { guard(e, go) }
/// A second datum at some distance from the first, around the tolerance.
pub fn other(w: u32, a: u128, tol: u64, r: &mut Rng) -> u128 {
    let d = match r.n(4) { 0 => 0, 1 => tol as i128, 2 => tol as i128 + 1, _ => r.n(tol.saturating_mul(2).saturating_add(3)) as i128 };
    match r.n(9) { 0 => datum(w, r), 1 => a ^ 1 << (w - 1), 2 => a, 3..=5 => a.wrapping_add(d as u128) & mask(w), _ => a.wrapping_sub(d as u128) & mask(w) }
}
pub fn run(o: &mut Out, seed: u64, keep: usize, fam: &dyn Fn(&str) -> u32) {
    let mut r = Rng::new(seed ^ 0x7e4d);
    for id in Identifier::ALL {
        let w = match id.math_op().float_ty { libm_test::FloatTy::F16 => 16, libm_test::FloatTy::F32 => 32, libm_test::FloatTy::F64 => 64, _ => 128 };
        for hi in [0, 1, 2, 3, 4, 5] { let e = exec(Ev { op: 89, p: w + 256 * fam(id.base_name().as_str()), c: B { hi, lo: 0 }, text: id.as_str().to_string(), ..Default::default() }); o.calls += 1; o.put(&e) }
    }
    for k in 0..keep {
        let op = [85, 85, 85, 85, 86, 87, 88][k % 7];
        let w = if op == 85 { [16, 32, 64, 128][r.n(4) as usize] } else { [32, 64][r.n(2) as usize] };
        let tol = match r.n(6) { 0 | 1 => 0, 2 => r.n(5), 3 => r.n(1000), 4 => r.n(1 << 32), _ => u32::MAX as u64 };
        let a = if op == 88 && r.n(2) == 0 { mask(w - 1) >> crate::sig(w) << crate::sig(w) | r.int(crate::sig(w)) | (r.n(2) as u128) << (w - 1) } else { datum(w, &mut r) };
        let b = other(w, a, tol, &mut r);
        let (mut ah, mut bh) = (0, 0);
        if op == 86 { ah = r.u() as u32 as u128 >> r.n(32); bh = if r.n(3) > 0 { ah } else { ah ^ 1 << r.n(32) } }
        if op == 87 { ah = datum(w, &mut r); bh = other(w, ah, tol, &mut r) }
        let b = if op != 85 && op != 88 && r.n(3) == 0 { a } else { b };
        let e = exec(Ev { op, p: w, a: B { hi: ah, lo: a }, b: B { hi: bh, lo: b }, c: B { hi: r.n(6) as u128, lo: tol as u128 }, ..Default::default() });
        o.calls += 1; o.put(&e);
    }
}
