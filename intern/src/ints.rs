//! Operations of the integer traits.  p: width of the narrower type, + 1024 when signed.
use crate::big::B;
use crate::{guard, Ev, Out, Rng};
use libm::support::{i256, u256, CastFrom, DInt, HInt, Int, MinInt};
fn of(x: u256) -> B { B { hi: x.hi, lo: x.lo } }
fn ofs(x: i256) -> B { B { hi: x.hi, lo: x.lo } }
fn to(b: B) -> u256 { u256 { hi: b.hi, lo: b.lo } }
fn tos(b: B) -> i256 { i256 { hi: b.hi, lo: b.lo } }
fn ord(o: Option<std::cmp::Ordering>) -> B { match o { Some(std::cmp::Ordering::Less) => 0u128, Some(std::cmp::Ordering::Equal) => 1, Some(_) => 2, None => 3 }.into() }
pub const OPS: [u32; 33] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37];
macro_rules! half { ($e:expr, $h:ty, $uh:ty, $d:ty, $ud:ty) => {{ let e = $e; let (a, b) = (e.a.lo as $uh as $h, e.b.lo as $uh as $h); match e.op {
    1 => e.r0 = (HInt::widen(a) as $ud as u128).into(),
    2 => e.r0 = (HInt::zero_widen(a) as $ud as u128).into(),
    3 => e.r0 = (HInt::widen_hi(a) as $ud as u128).into(),
    4 => e.r0 = (HInt::widen_mul(a, b) as $ud as u128).into(),
    5 => e.r0 = (HInt::zero_widen_mul(a, b) as $ud as u128).into(),
    6 => { let x = e.a.lo as $ud as $d; let (l, h) = DInt::lo_hi(x); assert!(l == DInt::lo(x) && h == DInt::hi(x)); e.r0 = (l as $uh as u128).into(); e.r1 = (h as $uh as u128).into() }
    7 => e.r0 = (<$d as DInt>::from_lo_hi(a, b) as $ud as u128).into(),
    _ => return false,
} true }} }
macro_rules! plain { ($e:expr, $t:ty, $u:ty) => {{ let e = $e; let (a, b) = (e.a.lo as $u as $t, e.b.lo as $u as $t); let n = e.b.lo as u32; let f = |x: $t| -> B { (x as $u as u128).into() }; match e.op {
    13 => e.r0 = match e.b.lo { 0 => f(<$t as MinInt>::ZERO), 1 => f(<$t as MinInt>::ONE), 2 => f(<$t as MinInt>::MIN), 3 => f(<$t as MinInt>::MAX), 4 => (<$t as MinInt>::BITS as u128).into(), _ => (<$t as MinInt>::SIGNED as u128).into() },
    20 => e.r0 = (Int::abs_diff(a, b) as u128).into(),
    21 => e.r0 = f(Int::logical_shr(a, n)),
    22 => e.r0 = f(Int::wrapping_add(a, b)),
    23 => e.r0 = f(Int::wrapping_sub(a, b)),
    24 => e.r0 = f(Int::wrapping_mul(a, b)),
    25 => e.r0 = f(Int::wrapping_neg(a)),
    26 => e.r0 = f(Int::wrapping_shl(a, n)),
    27 => e.r0 = f(Int::wrapping_shr(a, n)),
    28 => e.r0 = f(Int::rotate_left(a, n)),
    29 => { let (x, c) = Int::overflowing_add(a, b); e.r0 = f(x); e.r1 = (c as u128).into() }
    30 => { let (x, c) = Int::overflowing_sub(a, b); e.r0 = f(x); e.r1 = (c as u128).into() }
    31 => { let x = Int::checked_add(a, b); e.r1 = (x.is_some() as u128).into(); e.r0 = f(x.unwrap_or(0)) }
    32 => { let x = Int::checked_sub(a, b); e.r1 = (x.is_some() as u128).into(); e.r0 = f(x.unwrap_or(0)) }
    33 => e.r0 = (Int::leading_zeros(a) as u128).into(),
    34 => if a > 0 { e.r0 = (Int::ilog2(a) as u128).into() } else { return false },
    35 => { e.r0 = (Int::is_zero(a) as u128).into(); e.r1 = f(<$t as Int>::from_bool(e.b.lo & 1 == 1)) }
    36 => { e.r0 = (Int::unsigned(a) as u128).into(); e.r1 = f(<$t as Int>::from_unsigned(Int::unsigned(a))) }
    37 => match e.b.lo { 0 => e.r0 = (u8::cast_from_lossy(a) as u128).into(), 1 => e.r0 = (u16::cast_from_lossy(a) as u128).into(), 2 => e.r0 = (u32::cast_from_lossy(a) as u128).into(), 3 => e.r0 = (u64::cast_from_lossy(a) as u128).into(), 4 => e.r0 = u128::cast_from_lossy(a).into(),
        5 => e.r0 = (i8::cast_from_lossy(a) as u8 as u128).into(), 6 => e.r0 = (i16::cast_from_lossy(a) as u16 as u128).into(), 7 => e.r0 = (i32::cast_from_lossy(a) as u32 as u128).into(), 8 => e.r0 = (i64::cast_from_lossy(a) as u64 as u128).into(), _ => e.r0 = (i128::cast_from_lossy(a) as u128).into() },
    _ => return false,
} true }} }
fn step(e: &mut Ev) -> bool {
    match (e.op, e.p) {
        (1..=7, 8) => half!(e, u8, u8, u16, u16),
        (1..=7, 16) => half!(e, u16, u16, u32, u32),
        (1..=7, 32) => half!(e, u32, u32, u64, u64),
        (1..=7, 64) => half!(e, u64, u64, u128, u128),
        (1..=7, 1032) => half!(e, i8, u8, i16, u16),
        (1..=7, 1040) => half!(e, i16, u16, i32, u32),
        (1..=7, 1056) => half!(e, i32, u32, i64, u64),
        (1..=7, 1088) => half!(e, i64, u64, i128, u128),
        (_, 128) if e.op < 8 => { let (a, b) = (e.a.lo, e.b.lo); match e.op {
            1 => e.r0 = of(a.widen()), 2 => e.r0 = of(a.zero_widen()), 4 => e.r0 = of(a.widen_mul(b)), 5 => e.r0 = of(a.zero_widen_mul(b)),
            6 => { let (l, h) = to(e.a).lo_hi(); e.r0 = l.into(); e.r1 = h.into() }
            _ => return false } true }
        (_, 1152) if e.op < 8 => { let (a, b) = (e.a.lo as i128, e.b.lo as i128); match e.op {
            1 => e.r0 = ofs(a.widen()), 2 => e.r0 = ofs(a.zero_widen()), 5 => e.r0 = ofs(a.zero_widen_mul(b)),
            6 => { let (l, h) = tos(e.a).lo_hi(); e.r0 = (l as u128).into(); e.r1 = (h as u128).into() }
            _ => return false } true }
        (8, 256) => { e.r0 = of(to(e.a) + to(e.b)); true }
        (9, 256) => { e.r0 = of(to(e.a) >> (e.b.lo as u32)); true }
        (10, 256) => { e.r0 = ord(to(e.a).partial_cmp(&to(e.b))); e.r1 = ((to(e.a) == to(e.b)) as u128).into(); true }
        (10, 1280) => { e.r0 = ord(tos(e.a).partial_cmp(&tos(e.b))); e.r1 = ((tos(e.a) == tos(e.b)) as u128).into(); true }
        (11, 256) => { e.r0 = of(to(e.a) | to(e.b)); true }
        (11, 1280) => { e.r0 = ofs(tos(e.a) | tos(e.b)); true }
        (12, 256) => { e.r0 = of(!to(e.a)); true }
        (12, 1280) => { e.r0 = ofs(!tos(e.a)); true }
        (13, 256) => { e.r0 = match e.b.lo { 0 => of(u256::ZERO), 1 => of(u256::ONE), 2 => of(u256::MIN), 3 => of(<u256 as MinInt>::MAX), 4 => (u256::BITS as u128).into(), _ => (u256::SIGNED as u128).into() }; true }
        (13, 1280) => { e.r0 = match e.b.lo { 0 => ofs(i256::ZERO), 1 => ofs(i256::ONE), 2 => ofs(i256::MIN), 3 => ofs(i256::MAX), 4 => (i256::BITS as u128).into(), _ => (i256::SIGNED as u128).into() }; true }
        (14, 256) => { e.r0 = ofs(to(e.a).signed()); e.r1 = of(tos(e.a).unsigned()); true }
        (15, 256) => { e.r0 = of(u256::MAX); true }
        (_, 8) => plain!(e, u8, u8), (_, 16) => plain!(e, u16, u16), (_, 32) => plain!(e, u32, u32), (_, 64) => plain!(e, u64, u64), (_, 128) => plain!(e, u128, u128),
        (_, 1032) => plain!(e, i8, u8), (_, 1040) => plain!(e, i16, u16), (_, 1056) => plain!(e, i32, u32), (_, 1088) => plain!(e, i64, u64), (_, 1152) => plain!(e, i128, u128),
        _ => false,
    }
}
pub fn exec(e: Ev) -> Ev { let mut ok = true; let r = guard(e, |e| ok = step(e)); Ev { flag: if ok || r.flag == 1 { r.flag } else { 9 }, ..r } }
/// A second opinion on the wide operations, used only to choose what is written out.
fn doubt(e: &Ev) -> bool {
    if e.flag != 0 { return true }
    let bytes = |b: B| -> [u64; 8] { let mut v = [0; 8]; for i in 0..4 { v[i] = (b.lo >> (32 * i)) as u32 as u64; v[i + 4] = (b.hi >> (32 * i)) as u32 as u64 } v };
    let back = |v: [u64; 8]| -> B { let mut b = B::default(); for i in 0..4 { b.lo |= (v[i] as u128) << (32 * i); b.hi |= (v[i + 4] as u128) << (32 * i) } b };
    match (e.op, e.p & 1023) {
        (4 | 5, 128) => { let (x, y) = (bytes(e.a), bytes(e.b)); let mut r = [0u64; 8]; for i in 0..4 { let mut c = 0u64; for j in 0..4 { let t = x[i] * y[j] + r[i + j] + c; r[i + j] = t & 0xffffffff; c = t >> 32 } r[i + 4] = c } back(r) != e.r0 }
        (8, _) => { let (x, y) = (bytes(e.a), bytes(e.b)); let mut r = [0u64; 8]; let mut c = 0; for i in 0..8 { let t = x[i] + y[i] + c; r[i] = t & 0xffffffff; c = t >> 32 } back(r) != e.r0 }
        (9, _) => { let n = e.b.lo as usize; let x = bytes(e.a); let mut r = [0u64; 8]; for i in 0..256 - n { let k = i + n; r[i / 32] |= (x[k / 32] >> (k % 32) & 1) << (i % 32) } back(r) != e.r0 }
        _ => false,
    }
}
pub fn run(o: &mut Out, seed: u64, secs: f64, keep: usize) {
    let mut r = Rng::new(seed);
    let types: [u32; 12] = [8, 16, 32, 64, 128, 256, 1032, 1040, 1056, 1088, 1152, 1280];
    // constants
    for p in types { for k in 0..6u128 { let e = exec(Ev { op: 13, p, b: k.into(), ..Default::default() }); o.calls += 1; if e.flag != 9 { o.put(&e) } } }
    let pairs: Vec<(u32, u32)> = OPS.iter().filter(|x| **x != 13).flat_map(|op| types.iter().map(move |p| (*op, *p))).filter(|(op, p)| { let e = exec(Ev { op: *op, p: *p, a: 1u128.into(), b: 1u128.into(), ..Default::default() }); e.flag != 9 }).collect();
    let make = |op: u32, p: u32, r: &mut Rng| {
        let w = p & 1023;
        let mut val = |r: &mut Rng| -> B { if w == 256 { B { hi: r.int(128), lo: r.int(128) } } else if op == 6 { if w == 128 { B { hi: r.int(128), lo: r.int(128) } } else { r.int(2 * w).into() } } else { r.int(w).into() } };
        let a = val(r);
        let b = match op { 9 => (match r.n(3) { 0 => [0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255][r.n(13) as usize], _ => r.n(256) } as u128).into(),
            21 | 26 | 27 | 28 => ((r.n(w as u64 + 2)) as u128).into(), 37 => (r.n(10) as u128).into(),
            10 => { let x = val(r); match r.n(4) { 0 => a, 1 => B { hi: a.hi, ..x }, 2 => B { lo: a.lo, ..x }, _ => x } }
            8 => { let x = val(r); if r.n(4) == 0 { B { hi: !a.hi, lo: (!a.lo).wrapping_add(r.i(-2, 2) as i128 as u128) } } else { x } }
            _ => val(r) };
        Ev { op, p, a, b, ..Default::default() }
    };
    let wide: Vec<(u32, u32)> = pairs.iter().copied().filter(|(op, p)| p & 1023 >= 128 && *op < 15).collect();
    let t0 = std::time::Instant::now();
    let mut bad = 0;
    let mut k = 0usize;
    while t0.elapsed().as_secs_f64() < secs {
        for _ in 0..256 {
            let (op, p) = wide[r.n(wide.len() as u64) as usize];
            let e = exec(make(op, p, &mut r)); o.calls += 1;
            if doubt(&e) { o.bad += 1; bad += 1; if bad < 200 { o.put(&e) } }
        }
        k += 1;
    }
    let _ = k;
    for i in 0..keep { let (op, p) = if i % 3 == 0 { wide[r.n(wide.len() as u64) as usize] } else { pairs[i % pairs.len()] }; let e = exec(make(op, p, &mut r)); o.calls += 1; if e.flag != 9 { o.put(&e) } }
}
