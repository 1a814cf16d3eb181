#!/usr/bin/env python3
"""Regenerate harness/src/fast.rs: host C library double functions used only as a first-stage screen."""
un="acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp10 exp2 expm1 j0 j1 lgamma log log10 log1p log2 sin sinh tan tanh tgamma y0 y1".split()
bi="atan2 hypot pow".split()
ib="jn yn".split()
o=["// Generated by tools/gen_fast.py. Host C library, untrusted first-stage screen for f64.","#[link(name = \"m\")]","extern \"C\" {"]
for n in un:o.append(f"    fn {n}(x: f64) -> f64;")
for n in bi:o.append(f"    fn {n}(x: f64, y: f64) -> f64;")
for n in ib:o.append(f"    fn {n}(n: i32, y: f64) -> f64;")
o.append("}\nfn d(b: u128) -> f64 { f64::from_bits(b as u64) }\npub fn fast(name: &str) -> Option<fn([u128; 3]) -> f64> {\n    Some(match name {")
for n in un:o.append(f"        \"{n}\" => |a| unsafe {{ {n}(d(a[0])) }},")
o.append("        \"lgamma_r\" => |a| unsafe { lgamma(d(a[0])) },")
for n in bi:o.append(f"        \"{n}\" => |a| unsafe {{ {n}(d(a[0]), d(a[1])) }},")
for n in ib:o.append(f"        \"{n}\" => |a| unsafe {{ {n}(a[0] as i32, d(a[1])) }},")
o.append("        _ => return None,\n    })\n}")
open(__file__.rsplit('/',2)[0]+"/harness/src/fast.rs","w").write("\n".join(o)+"\n")
