//! The C interface of crates/compiler-builtins-smoke-test, called by index like a build of libm (see plug/).
#![feature(f16, f128)]
#![allow(improper_ctypes_definitions)]
use std::ffi::{c_char, c_int, c_void, CStr, CString};
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig { U, B, T, BI, UI, IB, UU, UUI, BBI }
#[path = "../../harness/src/ops.rs"]
#[allow(dead_code)]
mod ops;
pub struct Op { pub name: &'static str, pub fmt: u32, pub sig: Sig, pub call: fn([u128; 3]) -> [u128; 2] }
extern "C" { fn dlopen(p: *const c_char, f: c_int) -> *mut c_void; fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void; }
#[repr(C)]
struct Entry { name: *const c_char, at: *const c_void }
/// None: no part of the C interface; Some(0): declared, but missing from the objects
fn table() -> &'static Vec<Option<usize>> {
    static T: std::sync::OnceLock<Vec<Option<usize>>> = std::sync::OnceLock::new();
    T.get_or_init(|| unsafe {
        let p = CString::new(std::env::var("VCSYMS").expect("VCSYMS")).unwrap();
        let h = dlopen(p.as_ptr(), 2);
        assert!(!h.is_null(), "cannot load {p:?}");
        let f: extern "C" fn() -> *const Entry = std::mem::transmute(dlsym(h, c"csyms".as_ptr()));
        let mut e = f();
        let mut v: Vec<(String, usize)> = vec![];
        while !(*e).name.is_null() { v.push((CStr::from_ptr((*e).name).to_str().unwrap().to_string(), (*e).at as usize)); e = e.add(1) }
        ops::OPS.iter().map(|o| v.iter().find(|x| x.0 == o.name).map(|x| x.1)).collect()
    })
}
#[no_mangle]
pub extern "C" fn vhas(i: u32) -> u32 { table()[i as usize].is_some() as u32 }
trait Bits: Copy { fn of(x: u128) -> Self; fn bits(self) -> u128; }
impl Bits for f16 { fn of(x: u128) -> Self { f16::from_bits(x as u16) } fn bits(self) -> u128 { self.to_bits() as u128 } }
impl Bits for f32 { fn of(x: u128) -> Self { f32::from_bits(x as u32) } fn bits(self) -> u128 { self.to_bits() as u128 } }
impl Bits for f64 { fn of(x: u128) -> Self { f64::from_bits(x as u64) } fn bits(self) -> u128 { self.to_bits() as u128 } }
impl Bits for f128 { fn of(x: u128) -> Self { f128::from_bits(x) } fn bits(self) -> u128 { self.to_bits() } }
/// The call as a C program makes it: operands in order, results through pointers to memory that holds something else.
unsafe fn call<F: Bits>(at: usize, name: &str, sig: Sig, a: [u128; 3]) -> [u128; 2] {
    let (x, y, z) = (F::of(a[0]), F::of(a[1]), F::of(a[2]));
    let (mut f, mut g, mut n) = (F::of(!a[0] ^ 0x5a), F::of(a[0] ^ 0xa5), 0x5a5a5a5a as c_int);
    macro_rules! c {(($($t:ty),*) -> $r:ty, $($v:expr),*) => { std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(at)($($v),*) };}
    match sig {
        Sig::U => [c!((F) -> F, x).bits(), 0],
        Sig::B => [c!((F, F) -> F, x, y).bits(), 0],
        Sig::T => [c!((F, F, F) -> F, x, y, z).bits(), 0],
        Sig::BI => [c!((F, c_int) -> F, x, a[1] as c_int).bits(), 0],
        Sig::IB => [c!((c_int, F) -> F, a[0] as c_int, y).bits(), 0],
        Sig::UI => [c!((F) -> c_int, x) as u32 as u128, 0],
        Sig::UU if name.starts_with("sincos") => { c!((F, *mut F, *mut F) -> (), x, &mut f, &mut g); [f.bits(), g.bits()] }
        // modf: the library returns (fraction, integral part); so does C, the integral part through the pointer
        Sig::UU => { let r = c!((F, *mut F) -> F, x, &mut f); [r.bits(), f.bits()] }
        Sig::UUI => { let r = c!((F, *mut c_int) -> F, x, &mut n); [r.bits(), n as u32 as u128] }
        Sig::BBI => { let r = c!((F, F, *mut c_int) -> F, x, y, &mut n); [r.bits(), n as u32 as u128] }
    }
}
/// 0: the call returned and r holds the result; 1: there is no such symbol
#[no_mangle]
pub extern "C" fn vcall(_entry: u32, i: u32, a: *const [u128; 3], r: *mut [u128; 2]) -> u32 {
    let (o, at) = (&ops::OPS[i as usize], table()[i as usize].unwrap_or(0));
    if at == 0 { return 1 }
    unsafe {
        let a = *a;
        *r = match o.fmt { 16 => call::<f16>(at, o.name, o.sig, a), 32 => call::<f32>(at, o.name, o.sig, a), 64 => call::<f64>(at, o.name, o.sig, a), _ => call::<f128>(at, o.name, o.sig, a) };
    }
    0
}
#[no_mangle]
pub extern "C" fn vquiet() {}
#[no_mangle]
pub extern "C" fn vmethod(_: *const u8, _: usize, _: u32) -> i32 { -1 }
