//! The tables of functions and methods; without f16 and f128 (feature "narrow") their rows stay, but cannot be called.
use std::{env, fs, path::Path};
fn main() {
    let narrow = env::var("CARGO_FEATURE_NARROW").is_ok();
    let out = env::var("OUT_DIR").unwrap();
    for (from, to, keep) in [("../harness/src/ops.rs", "ops.rs", true), ("tables/hops.rs", "hops.rs", false)] {
        println!("cargo:rerun-if-changed={from}");
        let s = fs::read_to_string(from).unwrap().lines().filter_map(|l| {
            let wide = narrow && (l.contains("fmt: 16,") || l.contains("fmt: 128,"));
            if !wide { Some(l.to_string()) } else if keep { Some(format!("{} call: |_| unreachable!() }},", &l[..l.find(" call:").unwrap()])) } else { None }
        }).collect::<Vec<_>>().join("\n");
        fs::write(Path::new(&out).join(to), s + "\n").unwrap();
    }
}
