//! Evenly spaced sequences and iterators of known size.  c: low half the number of steps, high half an index.
use crate::{big::B, datum, guard, mask, Ev, Out, Pat, Rng, WIDTHS};
use libm_test::generate::KnownSize;
use libm_test::{f8, linear_ints, logspace};
use std::ops::RangeInclusive;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn go<F: Pat>(e: &mut Ev) where RangeInclusive<F::Int>: Iterator {
    let (it, n) = logspace(F::fb(e.a.lo), F::fb(e.b.lo), F::ib(e.c.lo));
    if e.op == 80 { e.r0 = F::ti(n).into(); e.r1 = (it.count() as u128).into() }
    else { let mut it = it; e.r0 = it.nth(e.c.hi as usize).map_or(u128::MAX.into(), |x| x.tb().into()); if e.r0 == B::from(u128::MAX) { e.r1 = 1u128.into() } }
}
fn ints(e: &mut Ev) {
    let (it, n) = linear_ints(e.a.lo as i32..=e.b.lo as i32, e.c.lo as u64);
    if e.op == 82 { e.r0 = (n as u128).into(); e.r1 = (it.count() as u128).into() }
    else { let mut it = it; match it.nth(e.c.hi as usize) { Some(x) => e.r0 = (x as u32 as u128).into(), None => e.r1 = 1u128.into() } }
}
/// a: items there are, b: items promised, c: items taken before asking how many remain
fn known(e: &mut Ev) {
    let (n, t, k) = (e.a.lo as u64, e.b.lo as u64, e.c.lo as u64);
    let mut it = KnownSize::new(0..n, t);
    for i in 0..k { if it.next() != Some(i) { e.flag = 8 } }
    let (lo, hi) = it.size_hint();
    if Some(lo) != hi || it.len() != lo { e.flag = 8 }
    e.r0 = (lo as u128).into();
    e.r1 = catch_unwind(AssertUnwindSafe(|| { let mut c = 0u128; while it.next().is_some() { c += 1 } c })).unwrap_or(u64::MAX as u128).into();
}
pub fn exec(e: Ev) -> Ev {
    guard(e, |e| if e.op == 84 { known(e) } else if e.op >= 82 { ints(e) } else { match e.p { 8 => go::<f8>(e), 16 => go::<f16>(e), 32 => go::<f32>(e), 64 => go::<f64>(e), _ => go::<f128>(e) } })
}
pub fn run(o: &mut Out, seed: u64, keep: usize) {
    let mut r = Rng::new(seed ^ 0x5e9);
    let put = |o: &mut Out, op: u32, p: u32, a: u128, b: u128, lo: u128, hi: u128| { let e = exec(Ev { op, p, a: a.into(), b: b.into(), c: B { hi, lo }, ..Default::default() }); o.calls += 1; o.put(&e); e };
    let mut k = 0;
    while k < keep {
        let most = match r.n(4) { 0 => 6, 1 => 60, 2 => 600, _ => 6000 };
        let steps = 2 + r.n(most) as u128;
        if r.n(3) > 0 {
            let w = WIDTHS[r.n(5) as usize];
            let steps = if w == 8 { 2 + steps % 253 } else { steps };
            let nan = |x: u128| (x & mask(w - 1)) > (mask(w - 1) >> crate::sig(w) << crate::sig(w));
            let (mut a, mut b) = (datum(w, &mut r), datum(w, &mut r));
            if r.n(4) == 0 { b = a.wrapping_add(r.n(20) as u128) & mask(w) }
            if nan(a) || nan(b) { continue }
            // values in order
            let key = |x: u128| { let g = (x & mask(w - 1)) as i128; if x >> (w - 1) == 1 { -g } else { g } };
            if key(a) > key(b) { std::mem::swap(&mut a, &mut b) }
            let n = put(o, 80, w, a, b, steps, 0).r0.lo.min(60000);
            for i in [0, 1, n / 2, r.n(n as u64 + 1) as u128, n.saturating_sub(2), n.saturating_sub(1), n] { put(o, 81, w, a, b, steps, i); k += 1 }
        } else if r.n(6) > 0 {
            let p = |r: &mut Rng| match r.n(5) { 0 => i32::MIN as i64 + r.n(4) as i64, 1 => i32::MAX as i64 - r.n(4) as i64, 2 => r.i(-20, 20), 3 => r.u() as i32 as i64, _ => (r.u() as i32 >> r.n(32)) as i64 };
            let (a, b) = (p(&mut r), p(&mut r)); let (a, b) = (a.min(b), a.max(b));
            if (b - a) as u128 / (steps - 1) > i32::MAX as u128 { continue }
            let (a, b) = (a as u32 as u128, b as u32 as u128);
            let n = put(o, 82, 32, a, b, steps, 0).r0.lo.min(60000);
            for i in [0, 1, n / 2, r.n(n as u64 + 1) as u128, n.saturating_sub(2), n.saturating_sub(1), n] { put(o, 83, 32, a, b, steps, i); k += 1 }
        } else {
            let n = r.n(12) as u128; let t = match r.n(3) { 0 => n, 1 => r.n(14) as u128, _ => n + 1 };
            put(o, 84, 0, n, t, r.n(n.min(t) as u64 + 1) as u128, 0); k += 1;
        }
    }
}
