//! Input generators.  Everything works on raw bits, parametrised by the format.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.u(); r.u(); r }
    #[inline] pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[inline] pub fn n(&mut self, n: u64) -> u64 { ((self.u() as u128 * n as u128) >> 64) as u64 }
    #[inline] pub fn i(&mut self, lo: i64, hi: i64) -> i64 { lo + self.n((hi - lo + 1) as u64) as i64 }
    #[inline] pub fn w(&mut self) -> u128 { (self.u() as u128) << 64 | self.u() as u128 }
    #[inline] pub fn unit(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
}
#[derive(Clone, Copy)]
pub struct Fmt { pub w: u32, pub eb: u32, pub mb: u32 }
pub fn fmt(w: u32) -> Fmt {
    match w { 16 => Fmt { w, eb: 5, mb: 10 }, 32 => Fmt { w, eb: 8, mb: 23 }, 64 => Fmt { w, eb: 11, mb: 52 }, 128 => Fmt { w, eb: 15, mb: 112 }, _ => unreachable!() }
}
impl Fmt {
    pub fn mask(&self) -> u128 { if self.w == 128 { !0 } else { (1u128 << self.w) - 1 } }
    pub fn sign(&self) -> u128 { 1u128 << (self.w - 1) }
    pub fn bias(&self) -> i64 { (1i64 << (self.eb - 1)) - 1 }
    pub fn emax(&self) -> u128 { (1u128 << self.eb) - 1 }
    pub fn inf(&self) -> u128 { self.emax() << self.mb }
    pub fn mm(&self) -> u128 { (1u128 << self.mb) - 1 }
    pub fn is_nan(&self, b: u128) -> bool { (b & !self.sign()) > self.inf() }
    pub fn exp(&self, b: u128) -> i64 { ((b & !self.sign()) >> self.mb) as i64 - self.bias() }
    pub fn mk(&self, s: u64, e: i64, m: u128) -> u128 {
        let be = (e + self.bias()).clamp(0, self.emax() as i64 - 1) as u128;
        ((s as u128 & 1) << (self.w - 1)) | (be << self.mb) | (m & self.mm())
    }
    pub fn from_f64(&self, x: f64) -> u128 {
        match self.w { 16 => (x as f16).to_bits() as u128, 32 => (x as f32).to_bits() as u128, 64 => x.to_bits() as u128, _ => (x as f128).to_bits() }
    }
    pub fn to_f64(&self, b: u128) -> f64 {
        match self.w { 16 => f16::from_bits(b as u16) as f64, 32 => f32::from_bits(b as u32) as f64, 64 => f64::from_bits(b as u64), _ => f128::from_bits(b) as f64 }
    }
    pub fn to_f128(&self, b: u128) -> f128 {
        match self.w { 16 => f16::from_bits(b as u16) as f128, 32 => f32::from_bits(b as u32) as f128, 64 => f64::from_bits(b as u64) as f128, _ => f128::from_bits(b) }
    }
    pub fn from_f128(&self, x: f128) -> u128 {
        match self.w { 16 => (x as f16).to_bits() as u128, 32 => (x as f32).to_bits() as u128, 64 => (x as f64).to_bits() as u128, _ => x.to_bits() }
    }
    /// signed ordinal
    pub fn ord(&self, b: u128) -> i128 { let m = (b & !self.sign()) as i128; if b & self.sign() != 0 { -m } else { m } }
    pub fn bump(&self, b: u128, k: i64) -> u128 {
        let o = self.ord(b & self.mask()) + k as i128;
        let o = o.clamp(-(self.inf() as i128), self.inf() as i128);
        if o < 0 { ((-o) as u128) | self.sign() } else { o as u128 }
    }
}
pub fn specials(f: Fmt) -> Vec<u128> {
    let mut v = vec![0u128, 1, 2, 3, f.mm(), f.mm() - 1, 1 << f.mb, (1 << f.mb) + 1, 3 << (f.mb - 1), f.inf() - 1, f.inf() - 2, f.inf(),
        f.inf() | 1 << (f.mb - 1), f.inf() | 1, f.inf() | f.mm(), f.inf() | 1 << (f.mb - 1) | 0x155, 1 << (f.mb / 2), f.inf() - (1 << f.mb), (f.inf() - (1 << f.mb)) | 1];
    for x in [1.0f64, 0.5, 0.25, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 8.0, 10.0, 0.1, 0.75, 100.0, 1000.0, 63.0, 64.0, 65.0, 255.0, 1024.0, 0.3333333333] {
        let b = f.from_f64(x); v.push(b); v.push(b + 1); v.push(b - 1);
    }
    for k in [f.mb as i64 - 1, f.mb as i64, f.mb as i64 + 1, f.mb as i64 + 2, 31, 32, 63, 64, -(f.mb as i64), -(f.mb as i64) - 1, -(f.mb as i64) - 2, -(f.mb as i64) / 2] {
        if k.abs() < f.bias() { let b = f.mk(0, k, 0); v.push(b); v.push(b + 1); v.push(b - 1); }
    }
    let n: Vec<u128> = v.iter().map(|b| b | f.sign()).collect();
    v.extend(n); v.sort(); v.dedup(); v
}
pub struct Dict { pub d16: Vec<u128>, pub d32: Vec<u128>, pub d64: Vec<u128>, pub d128: Vec<u128>, pub ints: Vec<i64> }
impl Dict {
    /// lines:  f <float literal in decimal>   |   i <integer literal>
    pub fn load(path: &str) -> Dict {
        let mut d = Dict { d16: vec![], d32: vec![], d64: vec![], d128: vec![], ints: vec![] };
        if let Ok(t) = std::fs::read_to_string(path) {
            for l in t.lines() {
                let mut it = l.split_whitespace();
                match (it.next(), it.next()) {
                    (Some("f"), Some(x)) => if let Ok(v) = x.parse::<f64>() {
                        d.d64.push(v.to_bits() as u128); d.d32.push((v as f32).to_bits() as u128); d.d16.push((v as f16).to_bits() as u128); d.d128.push((v as f128).to_bits());
                    },
                    (Some("i"), Some(x)) => if let Ok(v) = x.parse::<u128>() {
                        if v < 1 << 16 { d.d16.push(v); d.ints.push(v as i64); let x = v as f64; d.d64.push(x.to_bits() as u128); d.d32.push((v as f32).to_bits() as u128); d.d16.push((v as f16).to_bits() as u128); d.d128.push((v as f128).to_bits()); }
                        if v < 1 << 32 { if v > 1 << 16 { d.d32.push(v); d.d64.push(v << 32); d.d64.push(v << 32 | 0xffffffff); } }
                        else if v < 1 << 64 { d.d64.push(v); } else { d.d128.push(v); }
                    },
                    _ => {}
                }
            }
        }
        for v in [&mut d.d16, &mut d.d32, &mut d.d64, &mut d.d128] { v.sort(); v.dedup(); }
        d.ints.sort(); d.ints.dedup();
        d
    }
    pub fn of(&self, w: u32) -> &Vec<u128> { match w { 16 => &self.d16, 32 => &self.d32, 64 => &self.d64, _ => &self.d128 } }
}
pub struct Gen<'a> { pub f: Fmt, pub sp: Vec<u128>, pub dict: &'a Dict, pub hard: &'a [u128] }
const CONSTS: [f64; 12] = [0.7853981633974483, 1.5707963267948966, 3.141592653589793, 0.6931471805599453, 2.302585092994046, 0.34657359027997264, 1.0, 0.5, 0.30102999566398120, 2.718281828459045, 1.4142135623730951, 0.125];
impl<'a> Gen<'a> {
    pub fn mant(&self, r: &mut Rng) -> u128 {
        let f = self.f;
        match r.n(8) {
            0 => 0,
            1 => f.mm(),
            2 => 1u128 << r.n(f.mb as u64),
            3 => f.mm() ^ (1u128 << r.n(f.mb as u64)),
            4 => { let a = r.n(f.mb as u64 + 1); let b = r.n(a + 1); (f.mm() >> a) << b }
            5 => { let k = r.n(f.mb as u64); r.w() & f.mm() & (f.mm() << k) }
            6 => { let k = r.n(f.mb as u64); (r.w() & ((1u128 << k) - 1)).wrapping_sub(r.n(2) as u128 * (1u128 << k) / 2) & f.mm() }
            _ => r.w() & f.mm(),
        }
    }
    pub fn float(&self, r: &mut Rng) -> u128 {
        let f = self.f;
        let s = (r.n(2) as u128) << (f.w - 1);
        let b = match r.n(24) {
            0 | 1 => r.w() & f.mask(),
            2..=4 => { let k = [1i64, 2, 4, 8, 30, 70, 140][r.n(7) as usize].min(f.bias() - 1); let e = r.i(-k, k); f.mk(0, e, r.w()) }
            5 => self.sp[r.n(self.sp.len() as u64) as usize],
            6..=8 => { let d = self.dict.of(f.w); if d.is_empty() { 0 } else { let b = d[r.n(d.len() as u64) as usize]; let k = r.i(-3, 3); f.bump(b, k) } }
            9..=11 => { let d = self.dict.of(f.w); if d.is_empty() { 0 } else { let b = d[r.n(d.len() as u64) as usize]; let k = r.n(f.mb as u64); let m = (1u128 << k) - 1;
                    match r.n(3) { 0 => (b & !m) | (r.w() & m), 1 => (b & !m) | (self.mant(r) & m), _ => { let k = (1i64 << k.min(40)) ; f.bump(b, r.i(-k, k)) } } } }
            12 | 13 => { let m = self.mant(r); f.mk(0, r.i(-f.bias(), f.bias()), m) }
            14 | 15 => { let m = self.mant(r); let k = [2i64, 8, 40][r.n(3) as usize].min(f.bias() - 1); f.mk(0, r.i(-k, k), m) }
            16 | 17 => { let bb = if r.n(2) == 0 { 9 } else { (f.mb as u64 + 4).min(62) }; let bits = r.n(bb); let k = r.u() & ((1u64 << bits) | ((1u64 << bits) - 1)); let x = k as f64 + if r.n(2) == 0 { 0.5 } else { 0.0 }; f.bump(f.from_f64(x), if r.n(2) == 0 { 0 } else { r.i(-3, 3) }) }
            18 => { let bits = r.n(40); let k = (r.u() & ((2u64 << bits) - 1)) as f64; let c = CONSTS[r.n(12) as usize]; let p = if f.w == 32 || f.w == 16 { f.from_f64(k * c) } else { f.from_f128(k as f128 * c as f128) }; f.bump(p, r.i(-4, 4)) }
            19 | 20 => { let c = [1.0f64, 2.0, 10.0, 30.0, 110.0, 200.0, 750.0, 1100.0][r.n(8) as usize]; f.from_f64(r.unit() * c) }
            21 => { let e = (r.n(f.mb as u64 + 3) as i64).min(60); let one = f.from_f64(1.0) as i128; let d = (r.u() & ((2u64 << e.min(60)) - 1)) as i128; (if r.n(2) == 0 { one + d } else { one - d }) as u128 & f.mask() & !f.sign() }
            22 => { if self.hard.is_empty() { r.w() & f.mask() } else { let h = self.hard[r.n(self.hard.len() as u64) as usize]; f.bump(h, if r.n(2) == 0 { 0 } else { r.i(-1, 1) }) } }
            _ => { /* subnormals and neighbours */ let k = r.n(f.mb as u64 + 2); (r.w() & f.mm() & ((2u128 << k) - 1)) & (f.mask() >> 1) }
        };
        (b & f.mask()) ^ s
    }
    pub fn int(&self, r: &mut Rng) -> u32 {
        let lim = f_lim(self.f);
        (match r.n(8) {
            0 => r.i(-3, 3),
            1 => r.i(-40, 40),
            2 | 3 => r.i(-lim, lim),
            4 => { let b = [i32::MIN as i64, i32::MIN as i64 + 1, i32::MAX as i64, i32::MAX as i64 - 1, -lim, lim, -2 * lim, 2 * lim, 3 * lim, -3 * lim][r.n(10) as usize]; (b + r.i(-2, 2)).clamp(i32::MIN as i64, i32::MAX as i64) }
            5 => { if self.dict.ints.is_empty() { 0 } else { let k = self.dict.ints[r.n(self.dict.ints.len() as u64) as usize]; (if r.n(2) == 0 { k } else { -k }) + r.i(-2, 2) } }
            6 => (r.u() as i32) as i64,
            _ => { let k = r.n(31); (((r.u() & ((2u64 << k) - 1)) as i64) * if r.n(2) == 0 { 1 } else { -1 }).clamp(i32::MIN as i64, i32::MAX as i64) }
        }) as i32 as u32
    }
    /// second operand related to the first
    pub fn second(&self, r: &mut Rng, name: &str, x: u128) -> u128 {
        let f = self.f;
        let ex = f.exp(x);
        match r.n(10) {
            0 => f.bump(x, r.i(-3, 3)),
            1 => f.bump(x, r.i(-3, 3)) ^ f.sign(),
            2 => { let k = r.i(-(f.mb as i64) - 8, f.mb as i64 + 8); let m = r.w(); f.mk(r.n(2), ex + k, m) }
            3 => { let k = r.i(-(f.mb as i64) - 8, f.mb as i64 + 8); let m = self.mant(r); f.mk(r.n(2), ex + k, m) }
            4 => { let k = r.i(-70, 70); f.mk(r.n(2), ex + k, x) }
            5 if name.starts_with("pow") => self.pow_y(r, x),
            6 if name.starts_with("pow") => self.pow_y(r, x),
            5 | 6 if name.starts_with("rem") || name.starts_with("fmod") => { // x ~ (n + {0,1/2}) y
                let q = f.to_f128(x); let bb = if r.n(2) == 0 { 6 } else { f.mb as u64 + 10 }; let bits = r.n(bb).min(62); let n = (r.u() & ((2u64 << bits) - 1)) as f128 + if r.n(2) == 0 { 0.5f128 } else { 0.0f128 };
                if n == 0.0 { x } else { f.bump(f.from_f128(q / n), r.i(-1, 1)) } }
            5 => { let q = f.to_f128(x); f.bump(f.from_f128(1.0f128 / q), r.i(-2, 2)) }
            _ => self.float(r),
        }
    }
    fn pow_y(&self, r: &mut Rng, x: u128) -> u128 {
        let f = self.f; let v = f.to_f128(x & !f.sign());
        let l = lg2(v);
        let targets: &[f64] = if f.w == 32 { &[128.0, -126.0, -149.0, -150.0, 127.999, -140.0, 0.0, 1.0, 1e-3, 60.0] } else { &[1024.0, -1022.0, -1074.0, -1075.0, 1023.9999, -1050.0, 0.0, 1.0, 1e-3, 500.0] };
        let t = targets[r.n(10) as usize] + (r.unit() - 0.5) * [1e-12, 1e-6, 1e-3, 1.0, 10.0][r.n(5) as usize];
        let y = f.from_f64(t / l);
        match r.n(4) { 0 => f.from_f64((t / l).round()), 1 => f.from_f64((t / l * 2.0).round() / 2.0), _ => f.bump(y, r.i(-2, 2)) }
    }
    pub fn third(&self, r: &mut Rng, x: u128, y: u128) -> u128 {
        let f = self.f;
        let (ex, ey) = (f.exp(x), f.exp(y));
        match r.n(8) {
            0 => self.float(r),
            1 => { let m = self.mant(r); let k = r.i(-2 * f.mb as i64 - 4, f.mb as i64 + 4); f.mk(r.n(2), ex + ey + k, m) }
            2 => { let m = r.w(); f.mk(r.n(2), ex + ey + r.i(-3, 3), m) }
            3 => { let p = f.from_f128(f.to_f128(x) * f.to_f128(y)); f.bump(p ^ f.sign(), r.i(-2, 2)) }
            4 => { let p = f.from_f128(f.to_f128(x) * f.to_f128(y)); f.bump(p, r.i(-2, 2)) }
            5 => { let m = self.mant(r); f.mk(r.n(2), ex + ey + f.mb as i64 + r.i(-1, 3), m) }
            6 => { let m = self.mant(r); f.mk(r.n(2), ex + ey - f.mb as i64 + r.i(-2, 2), m) }
            _ => self.mant(r) | (r.n(2) as u128) << (f.w - 1),
        }
    }
    /// operands whose product lies near a chosen exponent (subnormal and overflow boundaries)
    pub fn near_product(&self, r: &mut Rng) -> (u128, u128) {
        let f = self.f;
        let t = match r.n(3) { 0 => -f.bias() - f.mb as i64 + r.i(-4, 6), 1 => -f.bias() + r.i(-(f.mb as i64), 4), _ => f.bias() + r.i(-3, 2) };
        let ex = r.i((-f.bias() + 1).max(t - f.bias()), (f.bias() - 1).min(t + f.bias()));
        let (m1, m2) = (self.mant(r), self.mant(r));
        (f.mk(r.n(2), ex, m1), f.mk(r.n(2), t - ex, m2))
    }
}
fn f_lim(f: Fmt) -> i64 { f.bias() + f.mb as i64 + 2 }
fn lg2(v: f128) -> f64 {
    // log2 of a positive f128 (screen quality)
    let b = v.to_bits(); let e = ((b >> 112) & 0x7fff) as i64;
    if e == 0 || e == 0x7fff { return 1.0; }
    let m = f128::from_bits((b & ((1u128 << 112) - 1)) | (16383u128 << 112));
    let e = e - 16383;
    let mm = m - 1.0f128;
    let l = if mm < 1e-8 { mm as f64 } else { (m as f64).ln() };
    let (e, l) = if e == -1 { (0, { let d = v - 1.0f128; if d > -1e-8 { d as f64 } else { (v as f64).ln() } }) } else { (e, l) };
    e as f64 + l * std::f64::consts::LOG2_E
}
