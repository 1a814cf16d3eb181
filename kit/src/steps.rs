//! Steps from a float to its neighbours.
use crate::{datum, guard, mask, sig, Ev, Out, Pat, Rng, WIDTHS};
use libm_test::{f8, Float};
fn go<F: Pat>(e: &mut Ev) {
    let x = F::fb(e.a.lo);
    e.r0 = match e.op {
        70 => x.next_up().tb(),
        71 => x.next_down().tb(),
        72 => x.n_up(F::ib(e.b.lo)).tb(),
        73 => x.n_down(F::ib(e.b.lo)).tb(),
        74 if e.c.lo == 0 => { let c = F::consts(); [c.pos_nan, c.neg_nan, c.max_qnan, c.min_snan, c.max_snan, c.neg_max_qnan, c.neg_min_snan, c.neg_max_snan][e.b.lo as usize].tb() }
        74 => F::consts().iter().nth(e.b.lo as usize).unwrap().tb(),
        _ => unreachable!(),
    }.into();
}
fn f8only(e: &mut Ev) {
    let (x, y) = (f8::from_bits(e.a.lo as u8), f8::from_bits(e.b.lo as u8));
    match e.op {
        75 => { e.r0 = x.partial_cmp(&y).map_or(3, |o| (o as i8 + 1) as u128).into(); e.r1 = ((x == y) as u128).into() }
        76 => e.r0 = (f8::ALL[e.b.lo as usize].to_bits() as u128).into(),
        _ => e.r0 = (Float::to_bits(-x) as u128).into(),
    }
}
pub fn exec(e: Ev) -> Ev {
    guard(e, |e| if e.op >= 75 { f8only(e) } else { match e.p { 8 => go::<f8>(e), 16 => go::<f16>(e), 32 => go::<f32>(e), 64 => go::<f64>(e), _ => go::<f128>(e) } })
}
pub fn run(o: &mut Out, seed: u64, keep: usize) {
    let mut r = Rng::new(seed);
    let put = |o: &mut Out, op: u32, p: u32, a: u128, b: u128, c: u128| { let e = exec(Ev { op, p, a: a.into(), b: b.into(), c: c.into(), ..Default::default() }); o.calls += 1; o.put(&e) };
    for w in WIDTHS { for b in 0..8 { put(o, 74, w, 0, b, 0); put(o, 74, w, 0, b, 1) } }
    for b in 0..f8::ALL_LEN as u128 { put(o, 76, 8, 0, b, 0) }
    for a in 0..256 { put(o, 70, 8, a, 0, 0); put(o, 71, 8, a, 0, 0); put(o, 77, 8, a, 0, 0) }
    for k in 0..keep {
        let w = WIDTHS[k % 5];
        let a = datum(w, &mut r);
        let m = sig(w); let inf = mask(w - 1) >> m << m; let g = a & mask(w - 1);
        // a number of steps that ends near something: zero, the far side, an infinity, or anywhere
        let near = r.i(-3, 3) as i128 as u128;
        let n = match r.n(7) { 0 => g.wrapping_add(near), 1 => inf.wrapping_sub(g).wrapping_add(near), 2 => inf.wrapping_add(g).wrapping_add(near), 3 => r.n(5) as u128, 4 => mask(w) - r.n(3) as u128, 5 => g.wrapping_add(datum(w, &mut r) & mask(w - 1)), _ => r.int(w) } & mask(w);
        match r.n(8) {
            0 => put(o, 70, w, a, 0, 0),
            1 => put(o, 71, w, a, 0, 0),
            2..=4 => put(o, 72, w, a, n, 0),
            _ => put(o, 73, w, a, n, 0),
        }
        if k % 5 == 0 { put(o, 75, 8, r.n(256) as u128, r.n(256) as u128, 0) }
        if k % 5 == 1 { let a = r.n(256) as u128; let b = (a ^ [0, 128, 1, 127][r.n(4) as usize]) & 255; put(o, 75, 8, a, b, 0) }
    }
}
