fn main() {
    println!("cargo:rustc-cfg=big_o_mc");
    println!("cargo:rustc-check-cfg=cfg(big_o_mc)");
    println!("cargo:rerun-if-changed=build.rs");
    // run.sh identifies the code under test by its content
    println!("cargo:rerun-if-env-changed=BIGO_HASH");
    println!("cargo:rustc-env=BIGO_HASH={}", std::env::var("BIGO_HASH").unwrap_or_default());
}
