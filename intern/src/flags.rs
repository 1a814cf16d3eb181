//! Results together with the status flags they are reported with.  p: width of the format.
//!  54 b: 1 ceil, 2 floor, 3 trunc    55 square root    56 fused multiply-add    57 the same by way of a wider format
use crate::{guard, hex::status, view::datum, Ev, Out, Rng};
use libm::generic::{ceil_status, floor_status, sqrt_round, trunc_status};
use libm::support::{Float, FpResult, Round};
use libm::{fma_round, fma_wide_round};
macro_rules! one { ($e:expr, $f:ty, $u:ty) => {{ let e = $e; let g = |x: u128| <$f as Float>::from_bits(x as $u); let x = g(e.a.lo);
    let FpResult { val, status: s } = match e.op {
        54 => match e.b.lo { 1 => ceil_status(x), 2 => floor_status(x), _ => trunc_status(x) },
        55 => sqrt_round(x, Round::Nearest),
        56 => fma_round(x, g(e.b.lo), g(e.c.lo), Round::Nearest),
        _ => return false,
    };
    e.r0 = (Float::to_bits(val) as u128).into(); e.r1 = status(s).into();
    true }} }
fn step(e: &mut Ev) -> bool {
    match (e.op, e.p) {
        (57, 32) => { let g = |x: u128| f32::from_bits(x as u32); let FpResult { val, status: s } = fma_wide_round::<f32, f64>(g(e.a.lo), g(e.b.lo), g(e.c.lo), Round::Nearest); e.r0 = (val.to_bits() as u128).into(); e.r1 = status(s).into(); true }
        (57, _) => false,
        (_, 16) => one!(e, f16, u16), (_, 32) => one!(e, f32, u32), (_, 64) => one!(e, f64, u64), (_, 128) => one!(e, f128, u128),
        _ => false,
    }
}
pub fn exec(e: Ev) -> Ev { let mut ok = true; let r = guard(e, |e| ok = step(e)); Ev { flag: if ok || r.flag == 1 { r.flag } else { 9 }, ..r } }
/// A number with a given exponent field and a structured fraction.
fn near(p: u32, m: u32, e: i64, r: &mut Rng) -> u128 {
    let top = (1i64 << (p - 1 - m)) - 2;
    let f = match r.n(4) { 0 => 0, 1 => { let k = r.n(m as u64) as u32; r.int(m) >> k << k } _ => r.int(m) };
    (r.n(2) as u128) << (p - 1) | (e.clamp(0, top) as u128) << m | f
}
pub fn run(o: &mut Out, seed: u64, secs: f64, keep: usize) {
    let mut r = Rng::new(seed ^ 0x3d);
    let _ = secs;
    for (p, m) in [(16u32, 10u32), (32, 23), (64, 52), (128, 112)] {
        let bias = (1i64 << (p - 2 - m)) - 1; let m64 = m as i64;
        for _ in 0..keep / 24 {
            for b in 1..4u128 {
                let a = match r.n(6) { 0 => datum(p, &mut r), 1 => { let k = r.i(-4, 4); near(p, m, bias + k, &mut r) } 2 => { let k = r.i(-bias, -1); (r.n(2) as u128) << (p - 1) | ((bias + k) as u128) << m } _ => { let k = r.i(-2, m64 + 1); near(p, m, bias + k, &mut r) } };
                let e = exec(Ev { op: 54, p, a: a.into(), b: b.into(), ..Default::default() }); o.calls += 1; o.put(&e);
            }
            let a = datum(p, &mut r); let a = if r.n(3) > 0 { a & !(1 << (p - 1)) } else { a };
            let e = exec(Ev { op: 55, p, a: a.into(), ..Default::default() }); o.calls += 1; o.put(&e);
            for op in [56u32, 57] {
                // the product's exponent near that of the addend; both often near the bottom of the range
                let low = r.n(3) > 0;
                let t = if low { r.i(-bias - m64 - 6, -bias + 6) } else { r.i(-bias, bias) };
                let ex = r.i((-bias).max(t - bias), bias.min(t + bias)); let ey = t - ex;
                let (x, y) = (near(p, m, bias + ex, &mut r), near(p, m, bias + ey, &mut r));
                let d = if r.n(2) == 0 { r.i(-2, 2) } else { r.i(-2 * m64 - 4, m64 + 4) };
                let z = if r.n(12) == 0 { datum(p, &mut r) } else { near(p, m, bias + t - d, &mut r) };
                let e = exec(Ev { op, p, a: x.into(), b: y.into(), c: z.into(), ..Default::default() });
                o.calls += 1; if e.flag != 9 { o.put(&e) }
            }
        }
    }
}
