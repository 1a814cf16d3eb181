//! Arguments for a call of each signature.
use crate::gen::*;
use crate::{Op, Sig};
pub fn generate(op: &Op, g: &Gen, r: &mut Rng) -> [u128; 3] {
    let f = g.f;
    match op.sig {
        Sig::U | Sig::UI | Sig::UU | Sig::UUI => [g.float(r), 0, 0],
        Sig::B | Sig::BBI => { let x = g.float(r); let y = if r.n(2) == 0 { g.second(r, op.name, x) } else { g.float(r) }; if r.n(4) == 0 && !op.name.starts_with("pow") { [y, x, 0] } else { [x, y, 0] } }
        Sig::T => { let (x, y) = match r.n(5) { 0 => g.near_product(r), 1 => { let x = g.float(r); (x, g.second(r, op.name, x)) } _ => (g.float(r), g.float(r)) }; [x, y, g.third(r, x, y)] }
        Sig::BI => { let x = g.float(r); let n = if r.n(3) == 0 { // result near a boundary of the format
                let e = f.exp(x).max(-f.bias()); let t = match r.n(3) { 0 => f.bias() + r.i(-2, 2), 1 => -f.bias() - r.i(-3, f.mb as i64 + 4), _ => -f.bias() - f.mb as i64 + r.i(-3, 3) }; (t - e) as i32 as u32 } else { g.int(r) }; [x, n as u128, 0] }
        Sig::IB if r.n(8) == 0 => { let x = g.float(r); let x = if quick_order(f, x) { x } else { f.bump(0, r.i(0, 1000)) }; let n = match r.n(3) { 0 => i32::MIN.wrapping_add(r.i(-4, 4) as i32) as u32, _ => g.int(r) as u32 }; [n as u128, x, 0] }
        Sig::IB => { let n = match r.n(6) { 0 => r.i(0, 3), 1 | 2 => r.i(-20, 60), 3 => r.i(-200, 1000), 4 => { let k = r.n(15); r.i(-(1 << k), 1 << k) } _ => r.i(-3, 12) } as i32 as u32;
            let x = match r.n(3) { 0 => { let m = (n as i32).unsigned_abs().max(1) as f64; f.from_f64(m * (0.25 + r.unit() * 4.0)) } _ => g.float(r) }; [n as u128, x, 0] }
    }
}
/// Arguments for which a Bessel function of any order returns at once (elsewhere it loops once per order).
pub fn quick_order(f: Fmt, x: u128) -> bool {
    let m = x & !(1u128 << (f.w - 1)); let e = f.exp(m);
    m == 0 || m >> f.mb >= (1u128 << (f.w - 1 - f.mb)) - 1 || e < -(f.mb as i64 - 3).max(21) - 9 || (f.w == 64 && e > 302)
}
pub fn shape(f: Fmt, op: &Op, sp: &[u128], k: usize) -> Option<[u128; 3]> {
    let n = sp.len();
    let ints: [i32; 40] = [0, 1, -1, 2, -2, 3, 4, 5, 7, 10, 15, 16, 23, 24, -23, -24, 52, 53, -52, -53, 100, 126, 127, 128, -126, -127, -149, -150, 277, 1022, 1023, 1024, -1022, -1074, -1075, 2098, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1];
    let _ = f;
    match op.sig {
        Sig::U | Sig::UI | Sig::UU | Sig::UUI => if k < n { Some([sp[k], 0, 0]) } else { None },
        Sig::B | Sig::BBI => if k < n * n { Some([sp[k / n], sp[k % n], 0]) } else { None },
        Sig::T => { // every third special to keep the cube affordable
            let m = 40.min(n); let step = n / m; if k < m * m * m { Some([sp[(k / m / m) * step], sp[(k / m % m) * step], sp[(k % m) * step]]) } else { None } }
        Sig::BI => if k < n * 40 { Some([sp[k / 40], ints[k % 40] as u32 as u128, 0]) } else { None },
        Sig::IB => if k < n * 12 { Some([ints[k % 12] as u32 as u128, sp[k / 12], 0]) } else if k < n * 52 {
            let (i, x) = (ints[(k - n * 12) % 40], sp[(k - n * 12) / 40]);
            Some(if i.unsigned_abs() < 3000 || quick_order(f, x) { [i as u32 as u128, x, 0] } else { [i as u32 as u128, 0, 0] }) } else { None },
    }
}
