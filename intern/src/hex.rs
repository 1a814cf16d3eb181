//! Reading and writing hexadecimal floating-point text.  p: total bits, a: significand bits, b: rounding direction.
use crate::{guard, view, Ev, Out, Rng};
use libm::support::hex_float::{hf128, hf16, hf32, hf64, parse_any, parse_hex_exact};
use libm::support::{Hexf, Round, Status};
use std::ffi::{c_char, CString};
extern "C" {
    fn strtod(s: *const c_char, e: *mut *mut c_char) -> f64;
    fn strtof(s: *const c_char, e: *mut *mut c_char) -> f32;
}
fn round(k: u128) -> Round { match k { 0 => Round::Nearest, 1 => Round::Negative, 2 => Round::Positive, _ => Round::Zero } }
pub fn status(s: Status) -> u128 { // only what the type shows
    [Status::INVALID, Status::DIVIDE_BY_ZERO].iter().enumerate().filter(|(_, x)| s == **x).map(|(i, _)| 1 << (100 + i)).sum::<u128>() | (s.underflow() as u128) << 4 | (s.overflow() as u128) << 3 | (s.inexact() as u128) << 5
}
/// flag 0 with c = 1: a number was delivered; c = 0: refused
pub fn exec(e: Ev) -> Ev {
    guard(e, |e| {
        let t = e.text.clone();
        match e.op {
            60 => if let Ok((b, s)) = parse_any(&t, e.p, e.a.lo as u32, round(e.b.lo)) { e.r0 = b.into(); e.r1 = status(s).into(); e.c = 1u128.into(); } else { e.c = 0u128.into() },
            61 => if let Ok(b) = parse_hex_exact(&t, e.p, e.a.lo as u32) { e.r0 = b.into(); e.c = 1u128.into() } else { e.c = 0u128.into() },
            62 => {
                e.c = 0u128.into();
                let p = e.p;
                if let Ok(b) = std::panic::catch_unwind(|| match p { 16 => hf16(&t).to_bits() as u128, 32 => hf32(&t).to_bits() as u128, 64 => hf64(&t).to_bits() as u128, _ => hf128(&t).to_bits() }) { e.r0 = b.into(); e.c = 1u128.into() }
            }
            63 => { let b = e.a.lo; e.text = match e.p { 16 => format!("{:x}", Hexf(f16::from_bits(b as u16))), 32 => format!("{:x}", Hexf(f32::from_bits(b as u32))), 64 => format!("{:x}", Hexf(f64::from_bits(b as u64))), _ => format!("{:x}", Hexf(f128::from_bits(b))) } }
            64 => { let b = e.a.lo; e.text = match e.p { 16 => format!("{:?}", Hexf(f16::from_bits(b as u16))), 32 => format!("{:?}", Hexf(f32::from_bits(b as u32))), 64 => format!("{:?}", Hexf(f64::from_bits(b as u64))), _ => format!("{:?}", Hexf(f128::from_bits(b))) } }
            65 => { let (a, b) = (e.a.lo, e.b.lo); e.text = match e.p { 32 => format!("{:x}", Hexf((f32::from_bits(a as u32), f32::from_bits(b as u32)))), _ => format!("{:x}", Hexf((f64::from_bits(a as u64), f64::from_bits(b as u64)))) } }
            _ => e.flag = 9,
        }
    })
}
fn digits(r: &mut Rng, n: u64) -> String {
    let kind = r.n(5);
    let k = r.n(n.max(1));
    (0..n).map(|i| { let d = match kind { 0 => r.n(16), 1 => 0, 2 => 15, 3 => if i == k { 1 << r.n(4) } else { 0 }, _ => if i < k { r.n(16) } else if i == n - 1 { r.n(16) } else { 0 } };
        let c = std::char::from_digit(d as u32, 16).unwrap(); if r.n(3) == 0 { c.to_ascii_uppercase() } else { c } }).collect()
}
/// A text that denotes a number: near a rounding boundary of the target more often than not.
fn number(r: &mut Rng, p: u32, s: u32) -> String {
    let eb = (p - s - 1) as i64;
    let bias = (1i64 << (eb - 1)) - 1;
    let sign = ["", "-", "+"][r.n(3) as usize];
    let x = if r.n(4) == 0 { 'X' } else { 'x' };
    let pc = if r.n(4) == 0 { 'P' } else { 'p' };
    let (int, frac, mut len): (String, String, i64);
    if r.n(3) > 0 { // a significand of s + 1 bits, then a pattern of further bits around the tie
        let m = (1u128 << s.min(118)) | r.int(s);
        let k = r.n(6) as u32 + 1; // bits below the last place, tie at the middle
        let low = match r.n(6) { 0 => 0, 1 => 1u128 << (k - 1), 2 => (1 << (k - 1)) - 1, 3 => (1 << (k - 1)) + 1, 4 => (1 << k) - 1, _ => r.n(1 << k) as u128 } & ((1 << k) - 1);
        let (hi, lo) = if s + k < 124 { ((m << k) | low, String::new()) } else { (m, std::char::from_digit(r.n(16) as u32, 16).unwrap().to_string()) };
        let tail = match r.n(4) { 0 => String::new(), 1 => { let n = r.n(40); "0".repeat(n as usize) } 2 => { let n = r.n(60); format!("{}{:x}", "0".repeat(n as usize), r.n(15) + 1) } _ => { let n = r.n(12); digits(r, n) } };
        let d = format!("{}{:x}{}{}", "0".repeat(r.n(3) as usize), hi, lo, tail);
        len = 4 * (format!("{hi:x}").len() + lo.len()) as i64;
        let cut = r.n(d.len() as u64 + 1) as usize;
        len -= 4 * (d.len() - cut) as i64 - 4 * tail.len() as i64;
        int = d[..cut].to_string(); frac = d[cut..].to_string();
    } else {
        let n = if r.n(10) == 0 { r.n(80) } else { r.n(34) }; let i = digits(r, n);
        let n = if r.n(10) == 0 { r.n(80) } else { r.n(34) }; let f = digits(r, n);
        len = 4 * i.trim_start_matches('0').len() as i64;
        int = i; frac = f;
    }
    // leading bit of the value is near 2^(len + e)
    let e: i64 = match r.n(12) {
        0 | 1 | 2 => -bias - s as i64 - len + r.i(-6, 8),                     // around the smallest subnormal
        3 | 4 => -bias - len + r.i(-(s as i64) - 2, 4),                       // subnormals, smallest normal
        5 | 6 => bias - len + r.i(-5, 5),                                     // around overflow
        7 => -len + r.i(-3, 3),
        8 => [i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 40, -(1 << 40), i32::MAX as i64 - 600, i32::MIN as i64 + 600, 0][r.n(8) as usize] + r.i(-2, 2),
        9 => { let k = r.n(34); r.i(-(1 << k), 1 << k) }
        _ => r.i(-bias - s as i64, bias),
    };
    let point = if frac.is_empty() && r.n(2) == 0 { "" } else { "." };
    let es = if e < 0 { format!("-{}{}", "0".repeat(r.n(3) as usize), -e) } else { format!("{}{}{}", ["", "+"][r.n(2) as usize], "0".repeat(r.n(3) as usize), e) };
    format!("{sign}0{x}{int}{point}{frac}{pc}{es}")
}
fn broken(r: &mut Rng, mut t: String) -> String {
    match r.n(3) {
        0 => [ "", "-", "+", "0", "0x", "0xp0", "0x.p0", "0x1", "0x1.", "0x1p", "0x1p+", "0x1p-", "0x1.2.3p0", "1p0", "x1p0", "0x1p1.0", "inf", "-inf", "+INF", "Inf", "nan", "-NaN", "NAN", "infinity", "in", "0xinf", "--0x1p0", "+-0x1p0", "0x1q0", "0xgp0", "0x-1p0", " 0x1p0", "0x1p0 ", "0x1pf", "nan(1)", "0x1p 1", "0X0P0", "-0x0p0", "0x.0p9999999999999", "0x1_0p0", "na\u{e9}"][r.n(41) as usize].to_string(),
        1 => { let k = r.n(t.len() as u64) as usize; t.remove(k); t }
        _ => { let k = r.n(t.len() as u64 + 1) as usize; t.insert(k, ['.', 'p', '-', '+', 'x', '0', '1', 'f', 'g', ' ', 'P', '9', '_', '/', ':', '@', 'G', '`'][r.n(18) as usize]); t }
    }
}
const STD: [(u32, u32); 4] = [(16, 10), (32, 23), (64, 52), (128, 112)];
const ODD: [(u32, u32); 12] = [(8, 3), (8, 2), (19, 10), (18, 7), (24, 16), (32, 12), (79, 63), (128, 119), (128, 98), (4, 1), (31, 1), (100, 90)];
pub fn run(o: &mut Out, seed: u64, secs: f64, keep: usize) {
    let mut r = Rng::new(seed ^ 0x4e);
    let t0 = std::time::Instant::now();
    let mut bad = 0;
    // the host's reader as a screen on f32 and f64
    while t0.elapsed().as_secs_f64() < secs {
        for _ in 0..64 {
            let (p, s) = STD[1 + r.n(2) as usize];
            let t = number(&mut r, p, s);
            let m = r.n(4) as u128;
            let e = exec(Ev { op: 60, p, a: (s as u128).into(), b: m.into(), text: t.clone(), ..Default::default() });
            o.calls += 1;
            let c = CString::new(t).unwrap();
            // (the host rounds some subnormal texts wrongly in the directed modes)
            let h = unsafe { if p == 32 { strtof(c.as_ptr(), std::ptr::null_mut()).to_bits() as u128 } else { strtod(c.as_ptr(), std::ptr::null_mut()).to_bits() as u128 } };
            if e.flag != 0 || (e.c.lo == 1 && if m == 0 { h != e.r0.lo } else { h.abs_diff(e.r0.lo) > 1 || (e.r1.lo == 0 && h != e.r0.lo) }) { o.bad += 1; bad += 1; if bad < 100 { o.put(&e) } }
        }
    }
    for i in 0..keep {
        let op = [60, 60, 60, 60, 60, 61, 61, 62, 63, 64][i % 10];
        let (p, s) = if op < 62 && r.n(4) == 0 { ODD[r.n(12) as usize] } else { STD[r.n(4) as usize] };
        let mut e = Ev { op, p, ..Default::default() };
        if op < 63 {
            e.a = (s as u128).into();
            if op == 60 { e.b = (r.n(4) as u128).into() }
            e.text = number(&mut r, p, s);
            if op != 60 && r.n(3) > 0 { // often something exact: what the writer would write, or a short number
                let b = view::datum(if op == 61 { [16, 32, 64, 128][r.n(4) as usize] } else { p }, &mut r);
                e.text = match p { 16 => format!("{:x}", Hexf(f16::from_bits(b as u16))), 32 => format!("{:x}", Hexf(f32::from_bits(b as u32))), 64 => format!("{:x}", Hexf(f64::from_bits(b as u64))), _ => format!("{:x}", Hexf(f128::from_bits(b))) };
            }
            if r.n(6) == 0 { e.text = broken(&mut r, e.text) }
        } else { e.a = view::datum(p, &mut r).into() }
        let e = exec(e);
        o.calls += 1;
        o.put(&e);
    }
}
