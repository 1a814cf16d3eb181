//! Records what the crate's building blocks do: hexadecimal floating-point text, wide integers, the view of a
//! float as fields.  One line per observation:  op p a b c r0 r1 flag text   (hex; text after "=")
#![feature(f16, f128)]
mod big;
mod rec;
mod flags;
mod hex;
mod ints;
mod view;
use big::B;
pub use rec::{guard, Ev, Out, Rng};
use std::io::Write;
fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str, d: &str| v.iter().position(|x| x == k).map(|i| v[i + 1].clone()).unwrap_or(d.to_string());
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let secs: f64 = opt("--secs", "3").parse().unwrap();
    let keep: usize = opt("--keep", "2000").parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = Out { w: Box::new(std::io::BufWriter::new(std::fs::File::create(opt("--out", "/dev/stdout")).unwrap())), n: 0, calls: 0, bad: 0 };
    match v[0].as_str() {
        "hex" => hex::run(&mut o, seed, secs, keep),
        "ints" => ints::run(&mut o, seed, secs, keep),
        "flags" => flags::run(&mut o, seed, secs, keep),
        "view" => view::run(&mut o, seed, secs, keep),
        "replay" => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            for l in s.lines() {
                let (h, t) = match l.split_once('=') { Some(x) => x, None => continue };
                let f: Vec<&str> = h.split_whitespace().collect();
                let mut e = Ev { op: f[0].parse().unwrap(), p: u32::from_str_radix(f[1], 16).unwrap(), a: B::parse(f[2]), b: B::parse(f[3]), c: B::parse(f[4]), text: t.to_string(), ..Default::default() };
                e = if e.op < 40 { ints::exec(e) } else if e.op >= 54 && e.op < 60 { flags::exec(e) } else if e.op < 60 { view::exec(e) } else { hex::exec(e) };
                o.put(&e);
            }
        }
        _ => panic!("usage"),
    }
    o.w.flush().unwrap();
    println!("STAT calls={} events={} suspicious={}", o.calls, o.n, o.bad);
}
