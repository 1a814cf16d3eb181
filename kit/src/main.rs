//! Records what the repository's verification kit (crates/libm-test) does: stepping through floats, evenly spaced
//! sequences, the comparison that passes or fails a result, the generators of arguments, the table of operations.
//! One line per observation:  op p a b c r0 r1 flag =text   (p: width + 256 * family)
#![feature(f16, f128)]
#[path = "../../intern/src/big.rs"]
mod big;
#[path = "../../intern/src/rec.rs"]
mod rec;
mod gens;
mod seqs;
mod steps;
mod verdict;
use big::B;
pub use rec::{guard, Ev, Out, Rng};
use std::io::Write;
/// Bit patterns of the formats the kit knows.
pub trait Pat: libm_test::FloatExt { fn fb(x: u128) -> Self; fn tb(self) -> u128; fn ib(x: u128) -> Self::Int; fn ti(x: Self::Int) -> u128; }
macro_rules! pat { ($($f:ty, $u:ty);*) => { $(impl Pat for $f {
    fn fb(x: u128) -> Self { <$f as libm_test::Float>::from_bits(x as $u) }
    fn tb(self) -> u128 { libm_test::Float::to_bits(self) as u128 }
    fn ib(x: u128) -> $u { x as $u }
    fn ti(x: $u) -> u128 { x as u128 }
})* } }
pat!(libm_test::f8, u8; f16, u16; f32, u32; f64, u64; f128, u128);
pub const WIDTHS: [u32; 5] = [8, 16, 32, 64, 128];
pub fn sig(w: u32) -> u32 { match w { 8 => 3, 16 => 10, 32 => 23, 64 => 52, _ => 112 } }
pub fn mask(w: u32) -> u128 { if w == 128 { !0 } else { (1 << w) - 1 } }
/// A bit pattern with structure: near the boundaries of the format, small steps from zero, anything.
pub fn datum(w: u32, r: &mut Rng) -> u128 {
    let m = sig(w); let inf = mask(w - 1) >> m << m; let one = (mask(w - 1 - m) >> 1) << m;
    let base = match r.n(10) { 0 => 0, 1 => inf, 2 => inf | 1 << (m - 1), 3 => one, 4 => 1 << m, 5 => r.int(w - 1), _ => r.int(w) };
    let x = base.wrapping_add(match r.n(4) { 0 => 0, 1 => r.i(-3, 3), 2 => r.i(-40, 40), _ => 0 } as i128 as u128);
    (x & mask(w - 1)) | (r.n(2) as u128) << (w - 1)
}
fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str, d: &str| v.iter().position(|x| x == k).map(|i| v[i + 1].clone()).unwrap_or(d.to_string());
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let keep: usize = opt("--keep", "2000").parse().unwrap();
    let fams = opt("--fams", "");
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = Out { w: Box::new(std::io::BufWriter::new(std::fs::File::create(opt("--out", "/dev/stdout")).unwrap())), n: 0, calls: 0, bad: 0 };
    let fam = |n: &str| -> u32 { fams.split(',').find_map(|x| x.split_once(':').filter(|y| y.0 == n).map(|y| y.1.parse().unwrap())).unwrap_or(0) };
    match v[0].as_str() {
        "steps" => steps::run(&mut o, seed, keep),
        "seqs" => seqs::run(&mut o, seed, keep),
        "verdict" => verdict::run(&mut o, seed, keep, &fam),
        "excuses" => gens::verdicts(&mut o, seed, keep, &fam),
        "gens" => gens::run(&mut o, seed, keep, &fam),
        "names" => gens::names(&mut o, &fam),
        "plan" => gens::plan(&mut o, &fam),
        "table" => gens::table(&mut o, seed, keep),
        "calls" => { let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap(); gens::calls(&mut o, &s) }
        "replay" => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            for l in s.lines() {
                let (h, t) = match l.split_once('=') { Some(x) => x, None => continue };
                let f: Vec<&str> = h.split_whitespace().collect();
                let e = Ev { op: f[0].parse().unwrap(), p: u32::from_str_radix(f[1], 16).unwrap(), a: B::parse(f[2]), b: B::parse(f[3]), c: B::parse(f[4]), r1: if f[0] == "100" { B::parse(f[6]) } else { B::default() }, text: t.to_string(), ..Default::default() };
                let e = if e.op < 80 { steps::exec(e) } else if e.op < 85 { seqs::exec(e) } else if e.op < 90 { verdict::exec(e) } else { gens::exec(e, &fam) };
                o.put(&e);
            }
        }
        _ => panic!("usage"),
    }
    o.w.flush().unwrap();
    println!("STAT calls={} events={}", o.calls, o.n);
}
