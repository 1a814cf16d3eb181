fn main() {
    for c in ["f16_enabled", "f128_enabled"] { println!("cargo:rustc-check-cfg=cfg({c})"); println!("cargo:rustc-cfg={c}"); }
}
