//! What the generators of arguments deliver, coordinate by coordinate, and the table of operations.
//!  90 two consecutive floats a < b of an edge list          91 its first and last
//!  92, 93 the same for integers                             94 item (high half of c) of an evenly spaced list
//!  95 counts: a promised, b delivered, c product of the coordinates' lengths, r0 items out of place
//!  96 length of a spaced coordinate                         97 an integer drawn at random
//!  98 two runs of a random generator: items promised, delivered, r0 1 if equal
//!  99 names: text "name base", r0 the index of the float type, r1 the number of arguments
//! 101 signature, one hexadecimal digit per value, the first the lowest (1 the function's own float, 2 an integer,
//!     3 and 4 places to put them): a arguments, b results, c and r0 the same in C; r1 1 if the name leads back
//! 104 how many argument tuples a test gets: a 0 spaced, 1 random, 2 extensive; c the number asked for in the
//!     environment (extensive) or 0; text the name; r0 the number announced
//! 105 is an extensive test selected: text "list name" (the list from the environment), r0 1 if it is
//! 106 r0 how many pairs of big integers are tried
//! 102 r0 how many functions of this family and width the table has    103 a entries, b names, r0 entries emitted
use crate::{big::B, datum, guard, mask, Ev, Out, Pat, Rng};
use libm_test::generate::{case_list, edge_cases, random, spaced};
use libm_test::{CheckBasis, CheckCtx, CheckOutput, GeneratorKind, Identifier, MathOp, TupleCall};
/// Arguments and results as bit patterns.
pub trait Flat { fn flat(&self) -> ([u128; 3], usize); }
macro_rules! flat { ($($f:ty),*) => { $(
    impl Flat for ($f,) { fn flat(&self) -> ([u128; 3], usize) { ([self.0.tb(), 0, 0], 1) } }
    impl Flat for ($f, $f) { fn flat(&self) -> ([u128; 3], usize) { ([self.0.tb(), self.1.tb(), 0], 2) } }
    impl Flat for ($f, $f, $f) { fn flat(&self) -> ([u128; 3], usize) { ([self.0.tb(), self.1.tb(), self.2.tb()], 3) } }
    impl Flat for (i32, $f) { fn flat(&self) -> ([u128; 3], usize) { ([self.0 as u32 as u128, self.1.tb(), 0], 2) } }
    impl Flat for ($f, i32) { fn flat(&self) -> ([u128; 3], usize) { ([self.0.tb(), self.1 as u32 as u128, 0], 2) } }
    impl Flat for $f { fn flat(&self) -> ([u128; 3], usize) { ([self.tb(), 0, 0], 1) } }
)* } }
flat!(f16, f32, f64, f128);
impl Flat for i32 { fn flat(&self) -> ([u128; 3], usize) { ([*self as u32 as u128, 0, 0], 1) } }
type Items = Box<dyn Iterator<Item = [u128; 3]>>;
/// One public function as the kit sees it.
struct Row { name: &'static str, base: &'static str, ty: u32, nargs: usize, ints: [bool; 3], edge: fn() -> (Items, u64), space: fn(u64) -> (Items, u64), rand: fn(u64) -> (Items, u64), call: fn([u128; 3]) -> [u128; 2], cases: fn() -> Vec<([u128; 3], [u128; 2])>, judge: fn([u128; 3], [u128; 2], [u128; 2], u32, bool, u8) -> bool, parts: [char; 2], plan: fn(u8) -> u64, id: Identifier }
fn ctx(id: Identifier, g: GeneratorKind, n: Option<u64>) -> &'static CheckCtx {
    let mut c = CheckCtx::new(id, if g == GeneratorKind::List { CheckBasis::None } else { CheckBasis::Mpfr }, g);
    if let Some(n) = n { c.override_iterations(n) }
    Box::leak(Box::new(c))
}
/// Arguments back from bit patterns.
trait Build: Sized { fn build(x: [u128; 3]) -> Self; }
macro_rules! build { ($($f:ty),*) => { $(
    impl Build for ($f,) { fn build(x: [u128; 3]) -> Self { (<$f>::fb(x[0]),) } }
    impl Build for ($f, $f) { fn build(x: [u128; 3]) -> Self { (<$f>::fb(x[0]), <$f>::fb(x[1])) } }
    impl Build for ($f, $f, $f) { fn build(x: [u128; 3]) -> Self { (<$f>::fb(x[0]), <$f>::fb(x[1]), <$f>::fb(x[2])) } }
    impl Build for (i32, $f) { fn build(x: [u128; 3]) -> Self { (x[0] as i32, <$f>::fb(x[1])) } }
    impl Build for ($f, i32) { fn build(x: [u128; 3]) -> Self { (<$f>::fb(x[0]), x[1] as i32) } }
)* } }
build!(f16, f32, f64, f128);
/// Results as bit patterns and back; kinds: f a float, i an integer, - nothing.
trait Res { const K: [char; 2]; fn res(&self) -> [u128; 2]; fn back(x: [u128; 2]) -> Self; }
macro_rules! res { ($($f:ty),*) => { $(impl Res for $f { const K: [char; 2] = ['f', '-']; fn res(&self) -> [u128; 2] { [self.tb(), 0] } fn back(x: [u128; 2]) -> Self { <$f>::fb(x[0]) } })* } }
res!(f16, f32, f64, f128);
impl Res for i32 { const K: [char; 2] = ['i', '-']; fn res(&self) -> [u128; 2] { [*self as u32 as u128, 0] } fn back(x: [u128; 2]) -> Self { x[0] as i32 } }
impl<A: Res, C: Res> Res for (A, C) { const K: [char; 2] = [A::K[0], C::K[0]]; fn res(&self) -> [u128; 2] { [self.0.res()[0], self.1.res()[0]] } fn back(x: [u128; 2]) -> Self { (A::back([x[0], 0]), C::back([x[1], 0])) } }
fn row<O: MathOp>(rows: &mut Vec<Row>, edge: fn() -> (Items, u64), space: fn(u64) -> (Items, u64), rand: fn(u64) -> (Items, u64), call: fn([u128; 3]) -> [u128; 2], cases: fn() -> Vec<([u128; 3], [u128; 2])>, judge: fn([u128; 3], [u128; 2], [u128; 2], u32, bool, u8) -> bool, parts: [char; 2], plan: fn(u8) -> u64) {
    use libm_test::{FloatTy, Ty};
    let i = O::IDENTIFIER; let op = i.math_op();
    let mut ints = [false; 3];
    for (k, t) in op.rust_sig.args.iter().enumerate() { ints[k] = matches!(t, Ty::I32 | Ty::CInt) }
    rows.push(Row { name: i.as_str(), base: i.base_name().as_str(), ty: match op.float_ty { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }, nargs: op.rust_sig.args.len(), ints, edge, space, rand, call, cases, judge, parts, plan, id: i })
}
macro_rules! callback {
    (fn_name: $n:ident, attrs: [$($attr:meta),*], extra: [$rows:ident],) => {
        $(#[$attr])* {
            type O = libm_test::op::$n::Routine;
            type A = <O as MathOp>::RustArgs;
            fn edge() -> (Items, u64) { let (i, n) = edge_cases::get_test_cases::<O>(ctx(O::IDENTIFIER, GeneratorKind::EdgeCases, None)); (Box::new(i.map(|x| x.flat().0)), n) }
            fn space(k: u64) -> (Items, u64) { let (i, n) = spaced::get_test_cases::<O>(ctx(O::IDENTIFIER, GeneratorKind::QuickSpaced, Some(k))); (Box::new(i.map(|x| x.flat().0)), n) }
            fn rand(k: u64) -> (Items, u64) { let (i, n) = random::get_test_cases::<A>(ctx(O::IDENTIFIER, GeneratorKind::Random, Some(k))); (Box::new(i.map(|x| x.flat().0)), n) }
            fn plan(k: u8) -> u64 { match k { 0 => spaced::get_test_cases::<O>(ctx(O::IDENTIFIER, GeneratorKind::QuickSpaced, None)).1, 1 => random::get_test_cases::<A>(ctx(O::IDENTIFIER, GeneratorKind::Random, None)).1, _ => spaced::get_test_cases::<O>(ctx(O::IDENTIFIER, GeneratorKind::Extensive, None)).1 } }
            fn call(x: [u128; 3]) -> [u128; 2] { A::build(x).call(O::ROUTINE).res() }
            fn cases() -> Vec<([u128; 3], [u128; 2])> { case_list::get_test_cases_standalone::<O>(ctx(O::IDENTIFIER, GeneratorKind::List, None)).map(|(a, r)| (a.flat().0, r.res())).collect() }
            type R = <O as MathOp>::RustRet;
            fn judge(x: [u128; 3], got: [u128; 2], want: [u128; 2], tol: u32, list: bool, basis: u8) -> bool {
                let mut c = CheckCtx::new(O::IDENTIFIER, match basis { 0 => CheckBasis::None, 1 => CheckBasis::Mpfr, _ => CheckBasis::Musl }, if list { GeneratorKind::List } else { GeneratorKind::Random });
                c.ulp = tol;
                <R as CheckOutput<A>>::validate(R::back(got), R::back(want), A::build(x), &c).is_ok()
            }
            row::<O>(&mut $rows, edge, space, rand, call, cases, judge, <R as Res>::K, plan);
        }
    };
}
fn rows() -> Vec<Row> {
    let mut rows = Vec::new();
    libm_macros::for_each_function! { callback: callback, extra: [rows], }
    rows
}
/// The values each coordinate runs through, the number of items delivered and how many were out of place, for a
/// list that is a product of its coordinates.
fn coordinates(make: &dyn Fn() -> (Items, u64), nargs: usize) -> (Vec<Vec<u128>>, u64, u64) {
    let (it, _) = make();
    let mut c: Vec<Vec<u128>> = vec![vec![]; nargs];
    let mut first = [0; 3];
    for (n, x) in it.enumerate() {
        if n == 0 { first = x }
        for k in (0..nargs).rev() {
            if (0..k).all(|j| x[j] == first[j]) && c[k].last() != Some(&x[k]) && (k + 1 == nargs || (k + 1..nargs).all(|j| x[j] == first[j])) { c[k].push(x[k]) }
        }
        if nargs == 3 && n > 20_000_000 { break }
    }
    let (it, total) = make();
    let (mut n, mut bad) = (0u64, 0u64);
    let len: Vec<u64> = c.iter().map(|v| v.len() as u64).collect();
    for x in it {
        let mut q = n; let mut y = [0; 3];
        for k in (0..nargs).rev() { y[k] = *c[k].get((q % len[k]) as usize).unwrap_or(&0); q /= len[k]; }
        if y != x && (q == 0) { bad += 1 }
        n += 1;
        if nargs == 3 && n > 20_000_000 { n = total; break }
    }
    (c, n, bad)
}
fn lists(row: &Row, edge: bool, n: u64) -> (Vec<Vec<u128>>, u64, u64, u64) {
    let mk: Box<dyn Fn() -> (Items, u64)> = if edge { Box::new(|| (row.edge)()) } else { Box::new(move || (row.space)(n)) };
    let total = mk().1;
    let (c, got, bad) = coordinates(&*mk, row.nargs);
    (c, got, bad, total)
}
fn kinds(s: &[libm_test::Ty], own: libm_test::FloatTy) -> u128 {
    use libm_test::{FloatTy as F, Ty as T};
    s.iter().rev().fold(0, |n, t| n << 4 | match (*t, own) {
        (T::F16, F::F16) | (T::F32, F::F32) | (T::F64, F::F64) | (T::F128, F::F128) => 1,
        (T::I32 | T::CInt, _) => 2,
        (T::MutF16, F::F16) | (T::MutF32, F::F32) | (T::MutF64, F::F64) | (T::MutF128, F::F128) => 3,
        (T::MutI32 | T::MutCInt, _) => 4,
        _ => 15,
    })
}
fn signature(row: &Row, e: &mut Ev) {
    let m = row.id.math_op(); let k = |s: &[libm_test::Ty]| kinds(s, m.float_ty);
    e.a = k(m.rust_sig.args).into(); e.b = k(m.rust_sig.returns).into(); e.c = k(m.c_sig.args).into(); e.r0 = k(m.c_sig.returns).into();
    e.r1 = ((Identifier::from_str(row.name) == Some(row.id) && m.name == row.name && row.id.to_string() == row.name && row.id.base_name().to_string() == row.base) as u128).into();
}
fn named(row: &Row, e: &mut Ev) { e.r0 = (row.ty as u128).into(); e.r1 = (row.nargs as u128).into(); e.text = format!("{} {}", row.name, row.base) }
fn present(rows: &[Row], e: &mut Ev, fam: &dyn Fn(&str) -> u32) { e.r0 = (rows.iter().filter(|r| r.ty + 256 * fam(r.base) == e.p).count() as u128).into() }
fn asked() -> u128 { std::env::var("LIBM_EXTENSIVE_ITERATIONS").ok().and_then(|v| v.parse().ok()).unwrap_or(0) }
/// The plan of the tests: how many arguments, which extensive tests.
pub fn plan(o: &mut Out, fam: &dyn Fn(&str) -> u32) {
    let rows = rows();
    let list = std::env::var("LIBM_EXTENSIVE_TESTS").unwrap_or_default();
    for row in &rows {
        let p = row.ty + 256 * fam(row.base);
        for k in 0..3u8 {
            let e = guard(Ev { op: 104, p, a: (k as u128).into(), c: (if k == 2 { asked() } else { 0 }).into(), text: row.name.to_string(), ..Default::default() }, |e| e.r0 = ((row.plan)(k) as u128).into());
            o.calls += 1; o.put(&e);
        }
        let e = guard(Ev { op: 105, p, text: format!("{} {}", list, row.name), ..Default::default() }, |e| e.r0 = (!libm_test::skip_extensive_test(ctx(row.id, GeneratorKind::Extensive, None)) as u128).into());
        o.calls += 1; o.put(&e);
    }
    o.put(&Ev { op: 106, p: 64, r0: (libm_test::bigint_fuzz_iteration_count() as u128).into(), ..Default::default() });
}
/// What the table says of every function.
pub fn names(o: &mut Out, fam: &dyn Fn(&str) -> u32) {
    let rows = rows();
    for row in &rows {
        let p = row.ty + 256 * fam(row.base);
        let e = guard(Ev { op: 99, p, ..Default::default() }, |e| named(row, e)); o.calls += 1; o.put(&e);
        let e = guard(Ev { op: 101, p, text: row.name.to_string(), ..Default::default() }, |e| signature(row, e)); o.calls += 1; o.put(&e);
    }
    for f in 1..75 { for w in [16, 32, 64, 128] { let mut e = Ev { op: 102, p: w + 256 * f, ..Default::default() }; present(&rows, &mut e, fam); o.calls += 1; o.put(&e) } }
    o.put(&Ev { op: 103, p: 64, a: (libm_test::op::ALL_OPERATIONS.len() as u128).into(), b: (Identifier::ALL.len() as u128).into(), r0: (rows.len() as u128).into(), ..Default::default() });
}
fn text(row: &Row, k: usize, i: usize, n: u64) -> String { format!("{} {} {} {}", row.name, k, i, n) }
pub fn run(o: &mut Out, seed: u64, keep: usize, fam: &dyn Fn(&str) -> u32) {
    let mut r = Rng::new(seed ^ 0x9e45);
    let rows = rows();
    let per = (keep / rows.len()).max(6);
    for row in &rows {
        let p = row.ty + 256 * fam(row.base);
        let mut put = |e: Ev| { o.calls += 1; o.put(&e) };
        // edge cases
        let (c, got, bad, total) = lists(row, true, 0);
        let cut = row.nargs == 3;
        let prod: u128 = c.iter().map(|v| v.len() as u128).product();
        if !cut { put(Ev { op: 95, p, a: (total as u128).into(), b: (got as u128).into(), c: prod.into(), r0: (bad as u128).into(), text: text(row, 0, 0, 0), ..Default::default() }) }
        for (k, v) in c.iter().enumerate() {
            if cut && k == 0 { continue }
            let op = if row.ints[k] { 92 } else { 90 };
            if v.is_empty() { continue }
            put(Ev { op: op + 1, p, a: v[0].into(), b: v[v.len() - 1].into(), c: (k as u128).into(), text: text(row, k, 0, 0), ..Default::default() });
            // the widest gaps are where something could be missing; then some at random
            let mut w: Vec<usize> = (1..v.len()).collect();
            let gap = |i: &usize| if op == 92 { (v[*i] as i32 as i64 - v[*i - 1] as i32 as i64) as u128 } else { v[*i].wrapping_sub(v[*i - 1]) };
            w.sort_by_key(|i| (std::cmp::Reverse(gap(i)), *i));
            let wide = w.iter().filter(|i| gap(i) != 1).count();
            let mut pick: Vec<usize> = w[..wide.min(per * 2)].to_vec();
            for _ in 0..3 { if !w.is_empty() { pick.push(w[r.n(w.len() as u64) as usize]) } }
            for i in pick { put(Ev { op, p, a: v[i - 1].into(), b: v[i].into(), c: (k as u128).into(), text: text(row, k, i, 0), ..Default::default() }) }
        }
        // evenly spaced
        for t in 0..3 {
            let mut n = match t { 0 => 2 + r.n(40), 1 => 2 + r.n(3000), _ => if row.ty == 16 && row.nargs == 1 { 65530 + r.n(12) } else { 2 + r.n(400) } };
            if row.nargs == 2 && n < 5 { n = 5 }
            if row.nargs == 3 { while (1..40u64).any(|k| k * k * k == n) { n += 1 } }
            let (c, got, bad, total) = lists(row, false, n);
            let prod: u128 = c.iter().map(|v| v.len() as u128).product();
            put(Ev { op: 95, p, a: (total as u128).into(), b: (got as u128).into(), c: prod.into(), r0: (bad as u128).into(), text: text(row, 0, 0, n), ..Default::default() });
            for (k, v) in c.iter().enumerate() {
                let cc = |i: usize| B { hi: i as u128, lo: n as u128 | (k as u128) << 64 | (row.nargs as u128) << 68 | (row.ints[k] as u128) << 72 };
                put(Ev { op: 96, p, c: cc(0), r0: (v.len() as u128).into(), text: text(row, k, 0, n), ..Default::default() });
                for j in 0..per.min(8) { let i = if j == 0 { 0 } else if j == 1 { v.len() - 1 } else { r.n(v.len() as u64) as usize }; put(Ev { op: 94, p, c: cc(i), a: v[i.saturating_sub(1)].into(), r0: v[i].into(), text: text(row, k, i, n), ..Default::default() }) }
            }
        }
        // random
        for _ in 0..2 {
            let mut n = 1 + r.n(2000);
            if row.nargs == 3 { while (1..40u64).any(|k| k * k * k == n) { n += 1 } }
            let e = draws(row, p, n); put(e);
            if let Some(k) = row.ints.iter().position(|&x| x) {
                for (i, x) in (row.rand)(n).0.enumerate().step_by(37).take(per) { put(Ev { op: 97, p, a: x[k].into(), text: text(row, k, i, n), ..Default::default() }) }
            }
        }
    }
}
fn draws(row: &Row, p: u32, n: u64) -> Ev {
    let (a, total) = (row.rand)(n); let (b, t2) = (row.rand)(n);
    let (a, b): (Vec<_>, Vec<_>) = (a.collect(), b.collect());
    Ev { op: 98, p, a: (total as u128).into(), b: (a.len() as u128).into(), c: (n as u128 | (row.nargs as u128) << 68).into(), r0: ((a == b && total == t2) as u128).into(), text: text(row, 0, 0, n), ..Default::default() }
}
/// 100  is a result let pass: a the first two arguments, b two results, c two wanted ones (each low half, high half),
/// r1 low half the third argument, high half tolerance + 2^32 * from a list + 2^33 * basis, r0 1 if it passes
fn verdict(row: &Row, e: &mut Ev) {
    let k = e.r1.hi;
    e.r0 = ((row.judge)([e.a.lo, e.a.hi, e.r1.lo], [e.b.lo, e.b.hi], [e.c.lo, e.c.hi], k as u32, k >> 32 & 1 == 1, (k >> 33 & 3) as u8) as u128).into();
}
pub fn verdicts(o: &mut Out, seed: u64, keep: usize, fam: &dyn Fn(&str) -> u32) {
    let mut r = Rng::new(seed ^ 0x1de5);
    let rows = rows();
    for row in &rows { for _ in 0..(keep / rows.len()).max(12) {
        let (w, m) = (row.ty, crate::sig(row.ty));
        let inf = mask(w - 1) >> m << m; let neg = 1u128 << (w - 1);
        let mut x = [0; 3];
        for k in 0..row.nargs { x[k] = if row.ints[k] { match r.n(4) { 0 => r.n(300) as u128, 1 => 3990 + r.n(30) as u128, 2 => r.u() as u32 as u128 >> r.n(32), _ => r.i(-300, 300) as i32 as u32 as u128 } } else { match r.n(6) { 0 => [0, neg, inf, neg | inf, inf | inf >> 1 & inf >> 2 | 1 << (m - 1), 1 << (m + 2)][r.n(6) as usize], _ => datum(w, &mut r) } } }
        // large magnitudes, where functions saturate
        if r.n(3) == 0 && !row.ints[row.nargs - 1] { x[row.nargs - 1] = (inf - (r.int(m + 3)) % inf) | (r.n(2) as u128) << (w - 1) }
        if r.n(12) == 0 { x[0] = neg; x[1] = 0 }
        let tol = match r.n(4) { 0 => 0, 1 => r.n(5), 2 => r.n(1000), _ => r.n(1 << 32) };
        let (mut got, mut want) = ([0; 2], [0; 2]);
        for k in 0..2 { match row.parts[k] {
            'f' => {
                want[k] = match r.n(4) { 0 => [0, neg, inf, neg | inf, inf | 1 << (m - 1)][r.n(5) as usize], _ => datum(w, &mut r) };
                got[k] = match r.n(5) { 0 => [0, neg, inf, neg | inf, inf | 1 << (m - 1)][r.n(5) as usize], 1 => want[k], _ => crate::verdict::other(w, want[k], tol, &mut r) };
                if r.n(12) == 0 { want[k] = r.n(2) as u128 * neg; got[k] = want[k] ^ neg }
            }
            'i' => { want[k] = (r.i(-3, 3) as i32 as u32 as u128) ^ (r.n(4) as u128 / 3) * (r.u() as u32 >> 1) as u128; got[k] = match r.n(3) { 0 => want[k], 1 => (want[k] as i32).wrapping_neg() as u32 as u128, _ => want[k] ^ 1 << r.n(31) }; }
            _ => {}
        } }
        let kind = (tol & 0xffff_ffff) as u128 | (r.n(6) as u128) << 32;
        let e = guard(Ev { op: 100, p: w + 256 * fam(row.base), a: B { hi: x[1], lo: x[0] }, b: B { hi: got[1], lo: got[0] }, c: B { hi: want[1], lo: want[0] }, r1: B { hi: kind, lo: x[2] }, text: row.name.to_string(), ..Default::default() }, |e| verdict(row, e));
        o.calls += 1; o.put(&e);
    } }
}
/// Generate again.
pub fn exec(e: Ev, fam: &dyn Fn(&str) -> u32) -> Ev {
    guard(e, |e| {
        if e.op == 102 { return present(&rows(), e, fam) }
        if e.op == 103 { e.a = (libm_test::op::ALL_OPERATIONS.len() as u128).into(); e.b = (Identifier::ALL.len() as u128).into(); e.r0 = (rows().len() as u128).into(); return }
        if e.op == 106 { e.r0 = (libm_test::bigint_fuzz_iteration_count() as u128).into(); return }
        let t = e.text.clone(); let f: Vec<&str> = t.split(' ').collect();
        let rows = rows(); let row = rows.iter().find(|r| r.name == if e.op == 105 { f[1] } else { f[0] }).expect("unknown function");
        if e.op == 100 { verdict(row, e); return }
        if e.op == 99 { return named(row, e) }
        if e.op == 101 { return signature(row, e) }
        if e.op == 104 { e.r0 = ((row.plan)(e.a.lo as u8) as u128).into(); return }
        if e.op == 105 { e.r0 = (!libm_test::skip_extensive_test(ctx(row.id, GeneratorKind::Extensive, None)) as u128).into(); return }
        let (k, i, n): (usize, usize, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
        match e.op {
            97 => e.a = (row.rand)(n).0.nth(i).unwrap()[k].into(),
            98 => *e = draws(row, e.p, n),
            _ => {
                let (c, got, bad, total) = lists(row, n == 0, n); let v = &c[k];
                match e.op {
                    90 | 92 => { e.a = v[i - 1].into(); e.b = v[i].into() }
                    91 | 93 => { e.a = v[0].into(); e.b = v[v.len() - 1].into() }
                    94 => { e.a = v[i.saturating_sub(1)].into(); e.r0 = v[i].into() }
                    95 => { e.a = (total as u128).into(); e.b = (got as u128).into(); e.c = c.iter().map(|v| v.len() as u128).product::<u128>().into(); e.r0 = (bad as u128).into() }
                    _ => e.r0 = (v.len() as u128).into(),
                }
            }
        }
    })
}
/// The operation table at work: cases with a stated outcome, and calls through the table, as calls of the function.
pub fn table(o: &mut Out, seed: u64, keep: usize) {
    use std::io::Write;
    let mut r = Rng::new(seed ^ 0x7ab1);
    let rows = rows();
    let per = (keep / rows.len()).max(2);
    for row in &rows {
        // the recurrences of jn and yn take as many steps as the order
        let short = |a: &[u128; 3]| !matches!(row.base, "jn" | "yn") || (a[0] as i32).unsigned_abs() <= 1000;
        let mut put = |a: [u128; 3], res: Option<[u128; 2]>| { o.calls += 1; o.n += 1; let (x, fl) = match res { Some(x) => (x, 0), None => ([0, 0], 1) }; writeln!(o.w, "{} {:x} {:x} {:x} {:x} {:x} {}", row.name, a[0], a[1], a[2], x[0], x[1], fl).unwrap() };
        for (a, x) in (row.cases)() { put(a, Some(x)) }
        let (it, n) = (row.edge)();
        let n = n.min(3_000_000); let mut at: Vec<u64> = (0..per).map(|_| r.n(n)).collect(); at.sort();
        let mut k = 0;
        for (i, x) in it.enumerate() { if k >= at.len() { break } if i as u64 >= at[k] && short(&x) { k += 1; put(x, std::panic::catch_unwind(|| (row.call)(x)).ok()) } }
        for x in (row.rand)(2000).0.filter(short).step_by(if matches!(row.base, "jn" | "yn") { 1 } else { 97 }).take(per) { put(x, std::panic::catch_unwind(|| (row.call)(x)).ok()) }
    }
}
/// Call through the table again.
pub fn calls(o: &mut Out, text: &str) {
    use std::io::Write;
    let rows = rows();
    for l in text.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (Some(row), true) = (rows.iter().find(|r| Some(&r.name) == f.first()), f.len() >= 4) else { continue };
        let a = [1, 2, 3].map(|k| u128::from_str_radix(f[k], 16).unwrap());
        let (x, fl) = match std::panic::catch_unwind(|| (row.call)(a)) { Ok(x) => (x, 0), Err(_) => ([0, 0], 1) };
        o.calls += 1; o.n += 1; writeln!(o.w, "{} {:x} {:x} {:x} {:x} {:x} {}", row.name, a[0], a[1], a[2], x[0], x[1], fl).unwrap()
    }
}
