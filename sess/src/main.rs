//! Records histories of calls: the same and related calls through different functions, formats, entry points,
//! builds and threads.  A native copy of the laws only decides which histories are written out first.
#![feature(f16, f128)]
#![allow(unused_unsafe)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/input.rs"]
mod input;
mod laws;
#[path = "../../harness/src/ops.rs"]
mod ops;
use gen::*;
use laws::*;
use std::ffi::{c_char, c_int, c_void, CString};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig { U, B, T, BI, UI, IB, UU, UUI, BBI }
pub struct Op { pub name: &'static str, pub fmt: u32, pub sig: Sig, pub call: fn([u128; 3]) -> [u128; 2] }
extern "C" { fn dlopen(p: *const c_char, f: c_int) -> *mut c_void; fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void; }
type VCall = extern "C" fn(u32, u32, *const [u128; 3], *mut [u128; 2]) -> u32;
struct Plug { label: String, call: VCall, method: Vec<Vec<u32>>, has: Vec<bool> }
fn load(spec: &str) -> Plug {
    let (label, path) = spec.split_once('=').unwrap();
    let p = CString::new(path).unwrap();
    unsafe {
        let h = dlopen(p.as_ptr(), 2);
        assert!(!h.is_null(), "cannot load {path}");
        let s = |n: &str| { let c = CString::new(n).unwrap(); let x = dlsym(h, c.as_ptr()); assert!(!x.is_null()); x };
        let call: VCall = std::mem::transmute(s("vcall"));
        let quiet: extern "C" fn() = std::mem::transmute(s("vquiet"));
        if std::env::var("VPANIC").is_err() { quiet() }
        let m: extern "C" fn(*const u8, usize, u32) -> i32 = std::mem::transmute(s("vmethod"));
        let method = ops::OPS.iter().map(|o| (0..).map(|k| m(o.name.as_ptr(), o.name.len(), k)).take_while(|x| *x >= 0).map(|x| x as u32).collect()).collect();
        let c = CString::new("vhas").unwrap();
        let has = dlsym(h, c.as_ptr());
        let has = if has.is_null() { vec![true; ops::OPS.len()] } else { let f: extern "C" fn(u32) -> u32 = std::mem::transmute(has); (0..ops::OPS.len()).map(|i| f(i as u32) != 0).collect() };
        Plug { label: label.to_string(), call, method, has }
    }
}
/// One observed call. via: plug * 256 + method (0: the function itself), th: thread
#[derive(Clone, Copy)]
struct Ev { op: u16, via: u16, th: u16, flag: u8, a: [u128; 3], r: [u128; 2] }
static ALIVE: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
struct World { plugs: Vec<Plug>, fam: Vec<u32>, at: Vec<Vec<Vec<Comp>>> }
/// A related call: function, which operands change sign, whether the first two swap
#[derive(Clone, Copy)]
struct Comp { op: u16, mask: u8, swap: bool, kind: u8 } // kind 1 mirror, 2 alias, 4 format
impl World {
    fn call(&self, op: u16, via: u16, th: u16, a: [u128; 3]) -> Ev {
        let p = &self.plugs[(via >> 8) as usize];
        let mut r = [0u128; 2];
        let m = via & 255;
        let flag = if m == 0 { (p.call)(0, op as u32, &a, &mut r) } else { (p.call)(1, p.method[op as usize][m as usize - 1], &a, &mut r) };
        ALIVE[th as usize & 63].fetch_add(1, Relaxed);
        Ev { op, via, th, flag: flag as u8, a, r }
    }
    fn facts(&self, e: &Ev) -> Facts { facts(self.fam[e.op as usize], fmt(ops::OPS[e.op as usize].fmt), e.a, e.r) }
    fn agree(&self, g: &[Ev]) -> bool {
        let mut known: Vec<Fact> = Vec::with_capacity(8);
        for e in g {
            if e.flag != 0 { return false }
            let fs = self.facts(e);
            for x in &fs.f[..fs.n] { match known.iter().find(|k| k.0 == x.0) { Some(k) => if k.1 != x.1 { return false }, None => known.push(*x) } }
        }
        true
    }
    fn line(&self, e: &Ev) -> String {
        let p = &self.plugs[(e.via >> 8) as usize];
        format!("{} {:x} {:x} {:x} {:x} {:x} {} 0 {}{}{}", ops::OPS[e.op as usize].name, e.a[0], e.a[1], e.a[2], e.r[0], e.r[1], e.flag, p.label, if e.via & 255 != 0 { "/method" } else { "" }, if e.th > 0 { format!("/thread{}", e.th) } else { String::new() })
    }
}
fn opt(args: &[String], k: &str, d: &str) -> String { args.iter().position(|x| x == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string()) }
fn floats(s: Sig) -> &'static [usize] { match s { Sig::U | Sig::UI | Sig::UU | Sig::UUI | Sig::BI => &[0], Sig::B | Sig::BBI => &[0, 1], Sig::T => &[0, 1, 2], Sig::IB => &[1] } }
fn related(c: &Comp, src: &Op, a: [u128; 3]) -> [u128; 3] {
    let d = &ops::OPS[c.op as usize];
    let (f, g) = (fmt(src.fmt), fmt(d.fmt));
    let mut b = a;
    if c.swap { b.swap(0, 1) }
    for (k, &i) in floats(src.sig).iter().enumerate() {
        if c.mask >> k & 1 == 1 { b[i] ^= f.sign() }
        b[i] = widen(f, g, b[i]);
    }
    if src.sig == Sig::IB && c.mask >> 1 & 1 == 1 { b[0] = (b[0] as u32 as i32).wrapping_neg() as u32 as u128 }
    // jn(n, x) against j0(x), j1(x)
    if src.sig == Sig::IB && d.sig == Sig::U { b = [b[1], 0, 0] }
    if src.sig == Sig::U && d.sig == Sig::IB { b = [if base(src.name).ends_with('1') { 1 } else { 0 }, b[0], 0] }
    b
}
fn world(plugs: &str) -> World {
    let plugs: Vec<Plug> = plugs.split(',').map(load).collect();
    let fam: Vec<u32> = ops::OPS.iter().map(|o| laws::fam(o.name)).collect();
    let mut r = Rng::new(7);
    let dict = Dict::load("/nonexistent");
    // which related calls can speak about the same value: tried out on random operands, no results needed
    let at = ops::OPS.iter().enumerate().map(|(i, o)| {
        let g = Gen { f: fmt(o.fmt), sp: specials(fmt(o.fmt)), dict: &dict, hard: &[] };
        let mut v: [Vec<Comp>; 1] = [vec![]];
        for (j, d) in ops::OPS.iter().enumerate() {
            if d.fmt < o.fmt { continue }
            let bessel = (o.sig == Sig::IB && d.sig == Sig::U && base(d.name).len() == 2) || (o.sig == Sig::U && base(o.name).len() == 2 && d.sig == Sig::IB);
            if floats(d.sig).len() != floats(o.sig).len() || ((d.sig == Sig::IB) != (o.sig == Sig::IB) && !bessel) || ((d.sig == Sig::BI) != (o.sig == Sig::BI)) { continue }
            let nm = if bessel { 2 } else if o.sig == Sig::IB { 4 } else { 1u8 << floats(o.sig).len() };
            for mask in 0..nm { for swap in [false, true] {
                if swap && floats(o.sig).len() < 2 { continue }
                if i == j && mask == 0 && !swap { continue }
                let c = Comp { op: j as u16, mask, swap, kind: if d.fmt != o.fmt { 4 } else if i == j { 1 } else { 2 } };
                let hit = (0..200).any(|_| {
                    let a = input::generate(o, &g, &mut r);
                    let b = related(&c, o, a);
                    let (x, y) = (facts(fam[i], fmt(o.fmt), a, [0; 2]), facts(fam[j], fmt(d.fmt), b, [0; 2]));
                    x.f[..x.n].iter().any(|p| y.f[..y.n].iter().any(|q| p.0 == q.0))
                });
                if hit { v[0].push(c) }
            } }
        }
        v.to_vec()
    }).collect();
    World { plugs, fam, at }
}
struct Rec { bad: Vec<Vec<Ev>>, some: Vec<Vec<Ev>>, groups: u64, calls: u64 }
fn orbit(argv: &[String]) {
    let w = world(&opt(argv, "--plugs", ""));
    let names = argv[0].clone(); let names: Vec<&str> = names.split(',').collect();
    let seed: u64 = opt(argv, "--seed", "1").parse().unwrap();
    let secs: f64 = opt(argv, "--secs", "1").parse().unwrap();
    let keep: usize = opt(argv, "--keep", "20").parse().unwrap();
    let nth: usize = opt(argv, "--threads", "8").parse().unwrap();
    let kinds: u8 = opt(argv, "--kinds", "7").parse().unwrap();
    let methods = opt(argv, "--methods", "1") == "1";
    let every = opt(argv, "--every", "0") == "1"; // related calls through every build as well
    let dict = Dict::load(&opt(argv, "--dict", "/nonexistent"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(opt(argv, "--out", "/dev/stdout")).unwrap());
    for (opi, op) in ops::OPS.iter().enumerate().filter(|(_, o)| names.iter().any(|n| *n == o.name || *n == "all")) {
        // a build may lack f16 and f128; the C interface has to have what it is asked for
        if w.plugs.iter().any(|p| !p.has[opi] && p.label == "c") { continue }
        let active: Vec<usize> = (0..w.plugs.len()).filter(|p| w.plugs[*p].has[opi]).collect();
        let f = fmt(op.fmt);
        let sp = specials(f);
        let comps: Vec<Comp> = w.at[opi][0].iter().filter(|c| c.kind & kinds != 0).copied().collect();
        if comps.is_empty() && !methods && active.len() == 1 { continue }
        let t0 = Instant::now();
        let recs: Vec<Rec> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nth).map(|th| { let (sp, dict, w, comps, active) = (&sp, &dict, &w, &comps, &active); s.spawn(move || {
                let g = Gen { f, sp: sp.clone(), dict, hard: &[] };
                let mut r = Rng::new(seed.wrapping_mul(1000003) ^ (opi as u64) << 20 ^ th as u64 ^ 0x5e55);
                let mut rec = Rec { bad: vec![], some: vec![], groups: 0, calls: 0 };
                let unary = floats(op.sig).len() == 1 && !matches!(op.sig, Sig::BI | Sig::IB);
                let mut grp: Vec<Ev> = vec![];
                let mut one = |a: [u128; 3], r: &mut Rng| {
                    grp.clear();
                    for &p in active { grp.push(w.call(opi as u16, (p as u16) << 8, 0, a)) }
                    if methods { let p = active[r.n(active.len() as u64) as usize]; for m in 0..w.plugs[p].method[opi].len() { grp.push(w.call(opi as u16, (p as u16) << 8 | (m as u16 + 1), 0, a)) } }
                    for c in comps.iter() {
                        let b = related(c, op, a);
                        if every { for p in (0..w.plugs.len()).filter(|p| w.plugs[*p].has[c.op as usize]) { grp.push(w.call(c.op, (p as u16) << 8, 0, b)) } } else { grp.push(w.call(c.op, 0, 0, b)) }
                    }
                    rec.groups += 1; rec.calls += grp.len() as u64;
                    if !w.agree(&grp) { if rec.bad.len() < 24 { rec.bad.push(grp.clone()) } }
                    else if rec.some.len() < keep { rec.some.push(grp.clone()) }
                    else { let k = r.u() % rec.groups; if (k as usize) < keep { rec.some[k as usize] = grp.clone() } }
                };
                let mut k = th; while let Some(a) = input::shape(f, op, sp, k) { one(a, &mut r); k += nth * if matches!(op.sig, Sig::T) { 7 } else { 1 }; if k & 0xff == th && t0.elapsed().as_secs_f64() > secs * 0.6 { break } }
                if unary && f.w == 16 { let mut x = th as u128; while x < 1 << 16 { one([x, 0, 0], &mut r); x += nth as u128 } }
                else { loop { for _ in 0..64 { let a = input::generate(op, &g, &mut r); one(a, &mut r) } if t0.elapsed().as_secs_f64() > secs { break } } }
                rec
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let (mut nb, mut ng, mut nc) = (0, 0, 0);
        for rc in &recs { nb += rc.bad.len(); ng += rc.groups; nc += rc.calls; }
        for g in recs.iter().flat_map(|x| x.bad.iter()).take(24) { for e in g { writeln!(out, "{}", w.line(e)).unwrap() } writeln!(out, "-").unwrap() }
        let n = (keep / nth).max(1);
        for g in recs.iter().flat_map(|x| x.some.iter().take(n)) { for e in g { writeln!(out, "{}", w.line(e)).unwrap() } writeln!(out, "-").unwrap() }
        println!("STAT op={} groups={} calls={} related={} bad={}", op.name, ng, nc, comps.len(), nb);
    }
    out.flush().unwrap();
}
/// Concurrent histories: bursts of calls by several threads over a small pool of clustered operands.
fn threads(argv: &[String]) {
    let w = world(&opt(argv, "--plugs", ""));
    let names = argv[0].clone(); let names: Vec<&str> = names.split(',').collect();
    let seed: u64 = opt(argv, "--seed", "1").parse().unwrap();
    let secs: f64 = opt(argv, "--secs", "10").parse().unwrap();
    let keep: usize = opt(argv, "--keep", "100").parse().unwrap();
    let nth: usize = opt(argv, "--threads", "8").parse().unwrap();
    let rounds: usize = opt(argv, "--rounds", "400").parse().unwrap();
    let dict = Dict::load(&opt(argv, "--dict", "/nonexistent"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(opt(argv, "--out", "/dev/stdout")).unwrap());
    let sel: Vec<usize> = (0..ops::OPS.len()).filter(|&i| names.iter().any(|n| *n == ops::OPS[i].name || *n == "all")).collect();
    // functions by format, so that a burst mixes functions that share kernels
    let mut r = Rng::new(seed ^ 0x7ead);
    let t0 = Instant::now();
    let (mut bursts, mut calls, mut bad) = (0u64, 0u64, 0usize);
    let mut kept: Vec<Vec<Ev>> = vec![];
    let mut badg: Vec<Vec<Ev>> = vec![];
    let mut lead = 0usize;
    while t0.elapsed().as_secs_f64() < secs {
        // 1..4 functions: one in turn, the others of the same format
        let mut fs = vec![sel[lead % sel.len()]]; lead += 1;
        for _ in 0..r.n(4) { let k = sel[r.n(sel.len() as u64) as usize]; if ops::OPS[k].fmt == ops::OPS[fs[0]].fmt || r.n(4) == 0 { fs.push(k) } }
        let mut pool: Vec<(u16, [u128; 3])> = vec![];
        let f0 = fmt(ops::OPS[fs[0]].fmt);
        let g0 = Gen { f: f0, sp: specials(f0), dict: &dict, hard: &[] };
        let shared: Vec<[u128; 3]> = (0..3).map(|_| input::generate(&ops::OPS[fs[0]], &g0, &mut r)).collect();
        for &k in &fs {
            let o = &ops::OPS[k];
            let f = fmt(o.fmt);
            let g = Gen { f, sp: specials(f), dict: &dict, hard: &[] };
            let mut ins: Vec<[u128; 3]> = vec![];
            if o.fmt == f0.w && o.sig == ops::OPS[fs[0]].sig { ins.extend(shared.iter()) }
            for _ in 0..3 { let a = input::generate(o, &g, &mut r);
                ins.push(a);
                // operands that a sloppy cache key would confuse with this one
                for _ in 0..3 {
                    let mut b = a;
                    let fl = floats(o.sig); let i = fl[r.n(fl.len() as u64) as usize];
                    b[i] = match r.n(5) { 0 => b[i] ^ f.sign(), 1 => f.bump(b[i], r.i(-2, 2)), 2 => b[i] ^ (1u128 << r.n(f.w as u64)), 3 => { let k = r.n(f.w as u64); (b[i] >> k << k) | (r.w() & ((1u128 << k) - 1)) } _ => { let k = r.n(f.w as u64); ((r.w() & f.mask()) >> k << k) | (b[i] & ((1u128 << k) - 1)) } };
                    if o.sig == Sig::IB || o.sig == Sig::BI { if r.n(2) == 0 { let j = 1 - fl[0]; b[j] = (a[j] as i32).wrapping_add(r.i(-2, 2) as i32) as u32 as u128 } }
                    if o.sig == Sig::IB && (b[0] as u32 as i32).unsigned_abs() > 3000 && !input::quick_order(f, b[1]) { b = a }
                    ins.push(b);
                } }
            pool.extend(ins.into_iter().map(|a| (k as u16, a)));
        }
        // concurrent phase: everyone calls at random; per thread the first result and every deviation from it
        let per: Vec<(Vec<Option<Ev>>, Vec<Ev>, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nth).map(|th| { let (w, pool) = (&w, &pool); let sd = r.u(); s.spawn(move || {
                let mut r = Rng::new(sd ^ th as u64);
                let mut first: Vec<Option<Ev>> = vec![None; pool.len()];
                let mut dev = vec![];
                let mut n = 0u64;
                let t = Instant::now();
                for k in 0..rounds {
                    let i = if k < pool.len() && th % 2 == 0 { if th % 4 == 0 { k } else { pool.len() - 1 - k } } else { r.n(pool.len() as u64) as usize };
                    let e = w.call(pool[i].0, 0, th as u16 + 1, pool[i].1); n += 1;
                    match &first[i] { None => first[i] = Some(e), Some(f) => if (f.r != e.r || f.flag != e.flag) && dev.len() < 16 { dev.push(e) } }
                    if k & 15 == 0 && t.elapsed().as_millis() > 60 { break }
                }
                (first, dev, n)
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        bursts += 1;
        // one history per pool: the other builds give an independent opinion, then the threads' observations
        for i in 0..pool.len() {
            let mut g: Vec<Ev> = vec![];
            if w.plugs.len() > 1 { g.push(w.call(pool[i].0, 1 << 8, 0, pool[i].1)) }
            for (first, dev, _) in &per { if let Some(e) = first[i] { g.push(e) } g.extend(dev.iter().filter(|e| e.op == pool[i].0 && e.a == pool[i].1)) }
            if g.is_empty() { continue }
            if !w.agree(&g) { bad += 1; if badg.len() < 60 { badg.push(g) } }
            else if kept.len() < keep { kept.push(g) } else { let k = r.u() % (bursts * 20); if (k as usize) < keep { kept[k as usize] = g } }
        }
        calls += per.iter().map(|x| x.2).sum::<u64>();
    }
    for g in badg.iter().chain(kept.iter()) { for e in g { writeln!(out, "{}", w.line(e)).unwrap() } writeln!(out, "-").unwrap() }
    out.flush().unwrap();
    println!("STAT op=bursts groups={} calls={} related=0 bad={}", bursts, calls, bad);
}
/// stdin: recorded histories; every call is made again, in order, through the same build and entry point
fn replay(argv: &[String]) {
    let w = world(&opt(argv, "--plugs", ""));
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    for l in s.lines() {
        let p: Vec<&str> = l.split('#').next().unwrap().split_whitespace().collect();
        if p.len() < 7 { println!("-"); continue }
        let op = match ops::OPS.iter().position(|o| o.name == p[0]) { Some(o) => o, None => continue };
        let a = [1, 2, 3].map(|i| u128::from_str_radix(p[i], 16).unwrap());
        let ctx = p.get(8).copied().unwrap_or("");
        let k = w.plugs.iter().position(|x| x.label == ctx.split('/').next().unwrap()).unwrap_or(0);
        let mut e = w.call(op as u16, (k as u16) << 8 | ctx.contains("/method") as u16, 0, a);
        e.th = 0;
        println!("{}", w.line(&e));
    }
}
fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    match v[0].as_str() { "orbit" => orbit(&v[1..]), "threads" => threads(&v[1..]), "replay" => replay(&v[1..]), _ => panic!("usage") }
}
