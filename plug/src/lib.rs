//! One build of libm as a loadable object: the public functions and the methods of Libm<T>, called by index.
#![cfg_attr(not(feature = "narrow"), feature(f16, f128))]
#![allow(unused_unsafe)]
#![allow(unused_macros)]
mod hops { include!(concat!(env!("OUT_DIR"), "/hops.rs")); }
mod ops { include!(concat!(env!("OUT_DIR"), "/ops.rs")); }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig { U, B, T, BI, UI, IB, UU, UUI, BBI }
pub struct Op { pub name: &'static str, pub fmt: u32, pub sig: Sig, pub call: fn([u128; 3]) -> [u128; 2] }
/// 0: the call returned and r holds the result; 1: it panicked
#[no_mangle]
pub extern "C" fn vcall(entry: u32, i: u32, a: *const [u128; 3], r: *mut [u128; 2]) -> u32 {
    let t = if entry == 0 { ops::OPS } else { hops::HOPS };
    let (f, a) = (t[i as usize].call, unsafe { *a });
    match std::panic::catch_unwind(|| f(a)) { Ok(v) => { unsafe { *r = v }; 0 } Err(_) => 1 }
}
#[no_mangle]
pub extern "C" fn vquiet() { std::panic::set_hook(Box::new(|_| {})) }
/// index of the method that is to be the named function, or -1
#[no_mangle]
pub extern "C" fn vmethod(name: *const u8, len: usize, k: u32) -> i32 {
    let n = unsafe { std::slice::from_raw_parts(name, len) };
    hops::HOPS.iter().enumerate().filter(|(_, o)| o.name.as_bytes() == n).nth(k as usize).map(|x| x.0 as i32).unwrap_or(-1)
}
/// whether this build has the function
#[no_mangle]
pub extern "C" fn vhas(i: u32) -> u32 { (!cfg!(feature = "narrow") || matches!(ops::OPS[i as usize].fmt, 32 | 64)) as u32 }
