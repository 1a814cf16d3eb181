//! 256-bit values as recorded.
use std::fmt;
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct B { pub hi: u128, pub lo: u128 }
impl B {
    pub fn parse(s: &str) -> B { let k = s.len().saturating_sub(32); B { hi: if k > 0 { u128::from_str_radix(&s[..k], 16).unwrap() } else { 0 }, lo: u128::from_str_radix(&s[k..], 16).unwrap() } }
}
impl From<u128> for B { fn from(x: u128) -> B { B { hi: 0, lo: x } } }
impl fmt::Display for B { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.hi != 0 { write!(f, "{:x}{:032x}", self.hi, self.lo) } else { write!(f, "{:x}", self.lo) } } }
