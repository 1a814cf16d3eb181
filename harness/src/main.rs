#![feature(f16, f128)]
#![allow(unused_unsafe)]
mod fast;
mod gen;
mod input;
#[cfg_attr(feature = "oracle", path = "../../mp/src/oracle.rs")]
mod ops;
mod profile;
mod range;
mod refs;
mod score;
use gen::*;
use score::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig { U, B, T, BI, UI, IB, UU, UUI, BBI }
pub struct Op { pub name: &'static str, pub fmt: u32, pub sig: Sig, pub call: fn([u128; 3]) -> [u128; 2] }

/// One observation of the code under test. flag: 0 returned, 1 panicked, 2 did not return.
#[derive(Clone, Copy)]
pub struct Ev { pub a: [u128; 3], pub r: [u128; 2], pub flag: u8, pub score: f64 }

const NB: usize = 4096;
struct Table { best: Vec<Option<Ev>>, cnt: Vec<u32>, rand: Vec<Ev>, seen: u64, max: f64, panics: Vec<Ev>, prof: Vec<[(f64, u128, u128); 2]> }
impl Table { fn new() -> Self { Table { prof: vec![[(0.0, 0, 0); 2]; profile::NP], best: vec![None; NB], cnt: vec![0; NB], rand: vec![], seen: 0, max: 0.0, panics: vec![] } } }

fn bucket(op: &Op, a: &[u128; 3]) -> usize {
    let f = fmt(op.fmt);
    match op.sig {
        Sig::U | Sig::UI | Sig::UU | Sig::UUI => if f.w <= 64 { (a[0] >> (f.w - 12)) as usize & 4095 } else { (a[0] >> (f.w - 16)) as usize >> 4 },
        Sig::B | Sig::BBI => { let h = (a[0] >> (f.w - 7)) * 131 + (a[1] >> (f.w - 7)); h as usize % NB }
        Sig::T => { let h = (a[0] >> (f.w - 5)) * 1009 + (a[1] >> (f.w - 5)) * 33 + (a[2] >> (f.w - 5)); h as usize % NB }
        Sig::BI => { let n = a[1] as i32; let k = (n.unsigned_abs().leading_zeros() as u128) * 2 + (n < 0) as u128; ((a[0] >> (f.w - 6)) * 64 + k) as usize % NB }
        Sig::IB => { let n = a[0] as i32; let k = if n.abs() < 16 { (n + 16) as u128 } else { 32 + n.unsigned_abs().leading_zeros() as u128 }; ((a[1] >> (f.w - 6)) * 64 + k) as usize % NB }
    }
}
struct Slot { t: AtomicU64, op: AtomicU64, a: [AtomicU64; 6] }
static SLOTS: [Slot; 64] = [const { Slot { t: AtomicU64::new(0), op: AtomicU64::new(0), a: [const { AtomicU64::new(0) }; 6] } }; 64];

fn call(op: &Op, a: [u128; 3]) -> ([u128; 2], u8) {
    match std::panic::catch_unwind(|| (op.call)(a)) { Ok(r) => (r, 0), Err(_) => ([0; 2], 1) }
}
/// The repository's oracle needs memory and time that grow with order and argument of the Bessel functions.
fn bounded(op: &Op, mut a: [u128; 3]) -> [u128; 3] {
    if !cfg!(feature = "oracle") || op.sig != Sig::IB { return a }
    let (f, n) = (fmt(op.fmt), a[0] as u32 as i32);
    if n.unsigned_abs() > 64 { a[0] = (n % 65) as u32 as u128 }
    let (e, m) = (f.exp(a[1]), a[1] & !f.sign());
    if m == 0 || m >= f.inf() || (-30..=9).contains(&e) { return a }
    a[1] = (a[1] & (f.sign() | f.mm())) | (((e.rem_euclid(40) - 30 + f.bias()) as u128) << f.mb);
    a
}
struct Ctx<'a> { op: &'a Op, opi: usize, rf: refs::RefFn, fast: Option<fn([u128; 3]) -> f64>, th: usize, screen: bool, range: bool, measure: bool, prof: &'a Option<[Vec<u8>; 2]> }
impl<'a> Ctx<'a> {
    #[inline] fn one(&self, t: &mut Table, r: &mut Rng, a: [u128; 3]) {
        let a = bounded(self.op, a);
        let sl = &SLOTS[self.th];
        for k in 0..3 { sl.a[2 * k].store(a[k] as u64, Relaxed); sl.a[2 * k + 1].store((a[k] >> 64) as u64, Relaxed); }
        let _ = self.opi;
        sl.t.fetch_add(1, Relaxed);          // odd while the code under test runs
        let (res, flag) = call(self.op, a);
        sl.t.fetch_add(1, Relaxed);
        t.seen += 1;
        if flag != 0 { if t.panics.len() < 64 || r.n(t.seen) < 4 { t.panics.push(Ev { a, r: res, flag, score: BAD * 2.0 }); } return; }
        let mut sc = 0.0;
        if self.range { sc = range::score(self.op, &a, &res) }
        else if self.screen {
            // the host's Bessel functions loop once per order
            let mut need = !(self.op.sig == Sig::IB && (a[0] as i32).unsigned_abs() > 3000);
            if let (Some(g), true) = (self.fast, need) {
                let v = g(a).to_bits() as u128;
                if v == res[0] && r.u() & 63 != 0 { need = false }
            }
            if need {
                let (s0, s1) = score(self.op, &a, &res, &(self.rf)(a));
                if self.measure {
                    let k = profile::index(self.op, &a);
                    for (i, s) in [(0, s0), (1, s1)] { let m = &mut t.prof[k][i]; if s > m.0 && s < BAD / 8.0 { *m = (s, a[0], a[1]) } }
                }
                // how much of what is allowed here has been used
                let of = |p: &Vec<u8>, s: f64| { let b = p[profile::index(self.op, &a)]; if s >= BAD / 8.0 { s } else if b == 255 { s / 4096.0 } else { s * 8.0 / b as f64 } };
                sc = match self.prof { None => s0.max(s1), Some(p) => of(&p[0], s0).max(of(&p[1], s1)) };
            }
        }
        let b = bucket(self.op, &a);
        t.cnt[b] = t.cnt[b].saturating_add(1);
        let ev = Ev { a, r: res, flag: 0, score: sc };
        if sc > t.max { t.max = sc }
        match &mut t.best[b] { None => t.best[b] = Some(ev), Some(e) => if sc > e.score || (sc == e.score && r.n(t.cnt[b] as u64) == 0) { *e = ev } }
        // reservoir of ordinary observations
        if t.rand.len() < 1024 { t.rand.push(ev) } else { let k = r.u() % t.seen; if k < 1024 { t.rand[k as usize] = ev } }
    }
}
fn mutate(f: Fmt, r: &mut Rng, x: u128) -> u128 {
    match r.n(4) { 0 => f.bump(x, r.i(-64, 64)), 1 => x ^ (1u128 << r.n(f.mb as u64)), 2 => { let k = r.n(40.min(f.mb as u64)); f.bump(x, r.i(-(1 << k), 1 << k)) } _ => { let k = r.n(f.mb as u64); (x & !((1u128 << k) - 1)) | (r.w() & ((1u128 << k) - 1)) } }
}
fn args(op: &Op, g: &Gen, r: &mut Rng, t: &Table) -> [u128; 3] {
    let mut a = args0(op, g, r, t);
    // Bessel functions of huge order loop once per order except where they can return at once
    if op.sig == Sig::IB && (a[0] as i32).unsigned_abs() > 20000 && !input::quick_order(g.f, a[1]) { a[0] &= 0xfff }
    a
}
fn args0(op: &Op, g: &Gen, r: &mut Rng, t: &Table) -> [u128; 3] {
    let f = g.f;
    if r.n(5) == 0 { // local search around the worst so far
        let b = r.n(NB as u64) as usize;
        for k in 0..16 { if let Some(e) = &t.best[(b + k) % NB] {
            let mut a = e.a;
            match op.sig {
                Sig::BI => { if r.n(3) == 0 { a[1] = (a[1] as i32).wrapping_add(r.i(-2, 2) as i32) as u32 as u128 } else { a[0] = mutate(f, r, a[0]) } }
                Sig::IB => { if r.n(3) == 0 { a[0] = (a[0] as i32).wrapping_add(r.i(-2, 2) as i32) as u32 as u128 } else { a[1] = mutate(f, r, a[1]) } }
                Sig::B | Sig::BBI => { let k = r.n(2) as usize; a[k] = mutate(f, r, a[k]) }
                Sig::T => { let k = r.n(3) as usize; a[k] = mutate(f, r, a[k]) }
                _ => a[0] = mutate(f, r, a[0]),
            }
            return a;
        } }
    }
    input::generate(op, g, r)
}
fn opt(args: &[String], k: &str, d: &str) -> String { args.iter().position(|x| x == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string()) }

fn explore(argv: &[String]) {
    let names: Vec<&str> = argv[0].split(',').collect();
    let seed: u64 = opt(argv, "--seed", "1").parse().unwrap();
    let n: u64 = opt(argv, "--n", "1000000").parse().unwrap();
    let cap: f64 = opt(argv, "--secs", "20").parse().unwrap();
    let keep: usize = opt(argv, "--keep", "1500").parse().unwrap();
    let nth: usize = opt(argv, "--threads", "8").parse().unwrap();
    let sweep: u64 = opt(argv, "--sweep", "0").parse().unwrap(); // stride of the f32 sweep, 0 = none
    let screen = opt(argv, "--screen", "1") == "1";
    let range = opt(argv, "--goal", "") == "range";
    let measure = opt(argv, "--goal", "") == "profile";
    let profiles = profile::Profile::load(&opt(argv, "--profile", "/nonexistent"));
    let dict = Dict::load(&opt(argv, "--dict", "/nonexistent"));
    let hardf = std::fs::read_to_string(opt(argv, "--hard", "/nonexistent")).unwrap_or_default();
    let outp = opt(argv, "--out", "/dev/stdout");
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(&outp).unwrap()));
    if std::env::var("VPANIC").is_err() { std::panic::set_hook(Box::new(|_| {})) }
    // watchdog: a call that has not returned for 20 s is recorded as an observation and ends the run
    let o2: &'static Mutex<std::io::BufWriter<std::fs::File>> = unsafe { std::mem::transmute(&out) };
    std::thread::spawn(move || {
        let mut last = [(0u64, Instant::now()); 64];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..64 {
                let o = SLOTS[i].op.load(Relaxed);
                let t = SLOTS[i].t.load(Relaxed);
                if o == 0 || t & 1 == 0 || t != last[i].0 { last[i] = (t, Instant::now()); continue }
                if last[i].1.elapsed() > Duration::from_secs(20) {
                    let a: Vec<u64> = (0..6).map(|k| SLOTS[i].a[k].load(Relaxed)).collect();
                    let mut w = o2.lock().unwrap();
                    let _ = writeln!(w, "{} {:x} {:x} {:x} 0 0 2 9e99", ops::OPS[o as usize - 1].name, a[0] as u128 | (a[1] as u128) << 64, a[2] as u128 | (a[3] as u128) << 64, a[4] as u128 | (a[5] as u128) << 64);
                    let _ = w.flush();
                    println!("HANG {}", ops::OPS[o as usize - 1].name);
                    std::process::exit(0);
                }
            }
        }
    });
    for (opi, op) in ops::OPS.iter().enumerate().filter(|(_, o)| names.iter().any(|n| *n == o.name || *n == "all")) {
        let f = fmt(op.fmt);
        let sp = specials(f);
        let hard: Vec<u128> = hardf.lines().filter_map(|l| { let mut i = l.split_whitespace(); if i.next()? == f.w.to_string() { u128::from_str_radix(i.next()?, 16).ok() } else { None } }).collect();
        let t0 = Instant::now();
        let prof = profiles.of(op);
        let unary = matches!(op.sig, Sig::U | Sig::UI | Sig::UU | Sig::UUI);
        let tabs: Vec<Table> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nth).map(|th| { let (sp, dict, hard, prof) = (&sp, &dict, &hard, &prof); s.spawn(move || {
                let c = Ctx { op, opi, rf: refs::lookup(op.name), fast: if op.fmt == 64 && !measure { fast::fast(op.name) } else { None }, th, screen, range, measure, prof };
                let mut t = Table::new();
                let mut r = Rng::new(seed.wrapping_mul(1000003) ^ (opi as u64) << 20 ^ th as u64);
                SLOTS[th].op.store(opi as u64 + 1, Relaxed);
                let g = Gen { f, sp: sp.clone(), dict, hard };
                // 1. special-value products
                let mut k = th; while let Some(a) = input::shape(f, op, sp, k) { c.one(&mut t, &mut r, a); k += nth; }
                // 2. exhaustive sweeps
                let mut exhaustive = false;
                if unary && f.w == 16 { let mut x = th as u128; while x < 1 << 16 { c.one(&mut t, &mut r, [x, 0, 0]); x += nth as u128 } exhaustive = true }
                if unary && f.w == 32 && sweep > 0 { let ph = if sweep > 1 { seed % sweep } else { 0 }; let mut x = th as u64 * sweep + ph; while x < 1 << 32 { c.one(&mut t, &mut r, [x as u128, 0, 0]); x += nth as u64 * sweep; if x & 0xfff == 0 && t0.elapsed().as_secs_f64() > cap * 4.0 { break } } exhaustive = sweep == 1 }
                // 3. generated inputs and local search
                if !exhaustive { for i in 0..n / nth as u64 { let a = if measure && r.n(2) == 0 { profile::pick(op, &mut r) } else { args(op, &g, &mut r, &t) }; c.one(&mut t, &mut r, a); if i & 0xff == 0 && t0.elapsed().as_secs_f64() > cap { break } } }
                SLOTS[th].op.store(0, Relaxed);
                t
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let seen: u64 = tabs.iter().map(|t| t.seen).sum();
        let max = tabs.iter().map(|t| t.max).fold(0.0, f64::max);
        let mut evs: Vec<Ev> = vec![];
        let mut buckets = 0;
        for b in 0..NB { if let Some(e) = tabs.iter().filter_map(|t| t.best[b]).max_by(|x, y| x.score.partial_cmp(&y.score).unwrap()) { buckets += 1; evs.push(e) } }
        evs.sort_by(|x, y| y.score.partial_cmp(&x.score).unwrap());
        let bad = evs.iter().filter(|e| e.score >= BAD / 8.0).count();
        if evs.len() > keep { // the most suspicious half, then an even selection of the rest
            let h = keep / 2; let rest = evs.split_off(h); let st = rest.len() as f64 / (keep - h) as f64;
            for k in 0..keep - h { evs.push(rest[(k as f64 * st) as usize]) }
        }
        let mut pan: Vec<Ev> = tabs.iter().flat_map(|t| t.panics.iter().copied()).collect();
        let np = pan.len(); pan.truncate(200);
        let rnd: Vec<Ev> = { let per = (keep / 3 / nth).max(1); tabs.iter().flat_map(|t| t.rand.iter().take(per).copied()).collect() };
        let mut w = out.lock().unwrap();
        if measure {
            // worst error seen in every part of the domain, and where
            for k in 0..profile::NP { for i in 0..2 {
                let m = tabs.iter().map(|t| t.prof[k][i]).max_by(|x, y| x.0.partial_cmp(&y.0).unwrap()).unwrap();
                if m.0 > 0.0 { writeln!(w, "{} {} {} {:.4} {:x} {:x}", op.name, k, i, m.0, m.1, m.2).unwrap(); }
            } }
            w.flush().unwrap();
            println!("STAT op={} calls={} secs={:.1}", op.name, seen, t0.elapsed().as_secs_f64());
            continue;
        }
        for e in pan.iter().chain(evs.iter()).chain(rnd.iter()) { writeln!(w, "{} {:x} {:x} {:x} {:x} {:x} {} {:.3e}", op.name, e.a[0], e.a[1], e.a[2], e.r[0], e.r[1], e.flag, e.score).unwrap(); }
        w.flush().unwrap();
        let top: Vec<String> = evs.iter().take(3).map(|e| format!("{:x},{:x}->{:x}({:.3})", e.a[0], e.a[1], e.r[0], e.score)).collect();
        println!("STAT op={} calls={} buckets={} events={} maxscore={:.4} bad={} panics={} secs={:.1} top={}", op.name, seen, buckets, pan.len() + evs.len() + rnd.len(), max, bad, np, t0.elapsed().as_secs_f64(), top.join(" "));
    }
}
/// Class of a datum: sign, and which kind of special number it is.
fn class(f: Fmt, b: u128) -> u32 {
    let m = b & !f.sign();
    let k = if m == 0 { 0 } else if m == 1 { 1 } else if m < 1 << f.mb { 2 } else if m == 1 << f.mb { 3 } else if m == f.inf() - 1 { 4 } else if m == f.inf() { 5 } else if m > f.inf() { if m >> (f.mb - 1) & 1 == 1 { 6 } else { 7 } } else {
        let e = f.exp(m);
        let one = f.mk(0, 0, 0);
        if m == one { 8 } else if e < -(f.mb as i64) - 2 { 9 } else if e < -1 { 10 } else if m < one { 11 } else if e > f.mb as i64 { 12 }
        else { let fr = m & f.mm() & ((1u128 << (f.mb as i64 - e)) - 1); let low = m >> (f.mb as i64 - e) & 1;
            if fr == 0 { if low == 1 || e == 0 { 13 } else { 14 } } else if fr == 1 << (f.mb as i64 - e - 1).max(0) { 15 } else { 16 } }
    };
    k * 2 + (b >= f.sign()) as u32
}
/// One observation or more of every combination of operand classes.
fn special(argv: &[String]) {
    let names: Vec<&str> = argv[0].split(',').collect();
    let seed: u64 = opt(argv, "--seed", "1").parse().unwrap();
    let keep: usize = opt(argv, "--keep", "400").parse().unwrap();
    let per: usize = opt(argv, "--per", "2").parse().unwrap();
    let n: usize = opt(argv, "--n", "20000").parse().unwrap();
    let dict = Dict::load(&opt(argv, "--dict", "/nonexistent"));
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::BufWriter::new(std::fs::File::create(opt(argv, "--out", "/dev/stdout")).unwrap());
    for (opi, op) in ops::OPS.iter().enumerate().filter(|(_, o)| names.iter().any(|n| *n == o.name)) {
        let f = fmt(op.fmt);
        let sp = specials(f);
        let g = Gen { f, sp: sp.clone(), dict: &dict, hard: &[] };
        let mut r = Rng::new(seed ^ (opi as u64) << 32);
        let fl: &[usize] = match op.sig { Sig::B | Sig::BBI => &[0, 1], Sig::T => &[0, 1, 2], Sig::IB => &[1], _ => &[0] };
        let mut cls: std::collections::BTreeMap<(u32, u32, u32, u32), Vec<Ev>> = Default::default();
        let (mut k, mut calls) = (0, 0u64);
        let mut more = n;
        loop {
            let a = match input::shape(f, op, &sp, k) { Some(a) => a, None => { if more == 0 { break } more -= 1;
                let mut a = input::generate(op, &g, &mut r);
                for &i in fl { if r.n(2) == 0 { a[i] = sp[r.n(sp.len() as u64) as usize] } }
                if op.sig == Sig::IB && (a[0] as i32).unsigned_abs() > 3000 && !input::quick_order(f, a[1]) { a[0] &= 0xff }
                a } };
            k += 1; calls += 1;
            let a = bounded(op, a);
            let (res, flag) = call(op, a);
            let c = |i: usize| if fl.contains(&i) { class(f, a[i]) } else if op.sig == Sig::BI || op.sig == Sig::IB { let n = a[i] as i32; if n.unsigned_abs() < 4 { (n + 4) as u32 } else { 9 + (n < 0) as u32 + 2 * (n & 1) as u32 + 4 * (n.unsigned_abs().leading_zeros() / 8) } } else { 0 };
            let key = (c(0), c(1), c(2), class(f, res[0]));
            let v = cls.entry(key).or_default();
            let e = Ev { a, r: res, flag, score: 0.0 };
            if v.len() < per { v.push(e) } else { let j = r.n(calls) as usize; if j < per { v[j] = e } }
        }
        let nc = cls.len();
        let mut evs: Vec<Ev> = cls.into_values().flatten().collect();
        // where the classes are too many: those whose result class is rarest first come for free, then an even selection
        for i in (1..evs.len()).rev() { evs.swap(i, r.n(i as u64 + 1) as usize) }
        evs.truncate(keep);
        for e in &evs { writeln!(out, "{} {:x} {:x} {:x} {:x} {:x} {} 0", op.name, e.a[0], e.a[1], e.a[2], e.r[0], e.r[1], e.flag).unwrap(); }
        println!("STAT op={} calls={} buckets={} events={} maxscore=0 bad=0 panics=0", op.name, calls, nc, evs.len());
    }
}
/// stdin: "op a0 a1 a2"; stdout: the observation
fn replay() {
    if std::env::var("VPANIC").is_err() { std::panic::set_hook(Box::new(|_| {})) }
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let o = std::io::stdout(); let mut o = std::io::BufWriter::new(o.lock());
    for l in s.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 4 { continue }
        let op = match ops::OPS.iter().find(|o| o.name == p[0]) { Some(o) => o, None => continue };
        let a = [1, 2, 3].map(|i| u128::from_str_radix(p[i], 16).unwrap());
        let (r, flag) = call(op, a);
        writeln!(o, "{} {:x} {:x} {:x} {:x} {:x} {} 0", op.name, a[0], a[1], a[2], r[0], r[1], flag).unwrap();
    }
}
/// A register machine over the real functions: executes programs, feeding its own results forward.
/// P r0..r7 i0 i1 | L d value i0 i1 | A op kind s0 s1 s2 neg d d2 k; prints what each A did.
fn program(argv: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let mut o = std::io::BufWriter::new(std::fs::File::create(opt(argv, "--out", "/dev/stdout")).unwrap());
    let (mut regs, mut ints) = ([0u128; 8], [0u32; 2]);
    let hex = |t: &str| u128::from_str_radix(t, 16).unwrap();
    for l in s.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        match p[0] {
            "P" => { for i in 0..8 { regs[i] = hex(p[1 + i]) } ints = [hex(p[9]) as u32, hex(p[10]) as u32]; }
            "L" => { regs[hex(p[1]) as usize] = hex(p[2]); ints = [hex(p[3]) as u32, hex(p[4]) as u32]; }
            _ => {
                let op = ops::OPS.iter().find(|o| o.name == p[1]).expect("operation");
                let f = fmt(op.fmt);
                let n: Vec<usize> = p[2..].iter().map(|t| hex(t) as usize).collect(); // kind s0 s1 s2 neg d d2 k
                let src = |i: usize| regs[n[1 + i]] ^ if n[4] >> i & 1 == 1 { f.sign() } else { 0 };
                let iv = if n[4] >> 3 & 1 == 1 && ints[n[7]] != 1 << 31 { ints[n[7]].wrapping_neg() } else { ints[n[7]] };
                let a = match op.sig { Sig::BI => [src(0), iv as u128, 0], Sig::U | Sig::UI | Sig::UU | Sig::UUI => [src(0), 0, 0], Sig::T => [src(0), src(1), src(2)], _ => [src(0), src(1), 0] };
                let (r, flag) = call(op, a);
                writeln!(o, "{} {:x} {:x} {:x} {:x} {:x} {}", op.name, a[0], a[1], a[2], r[0], r[1], flag).unwrap();
                // a NaN is one value, except where the operation is one on bits (kind 1)
                let canon = |x: u128| if n[0] == 0 && x & !f.sign() > f.inf() { f.inf() | 1 << (f.mb - 1) } else { x };
                match op.sig {
                    Sig::UI => ints[n[7]] = r[0] as u32,
                    Sig::UU => { regs[n[5]] = canon(r[0]); regs[n[6]] = canon(r[1]) }
                    Sig::UUI | Sig::BBI => { regs[n[5]] = canon(r[0]); ints[n[7]] = r[1] as u32 }
                    _ => regs[n[5]] = canon(r[0]),
                }
            }
        }
    }
}
fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    match v[0].as_str() {
        "explore" => explore(&v[1..]),
        "special" => special(&v[1..]),
        "replay" => replay(),
        "program" => program(&v[1..]),
        "ops" => for o in ops::OPS { println!("{} {} {:?}", o.name, o.fmt, o.sig) },
        _ => panic!("usage"),
    }
}
