use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/native.o");
    let a = format!("{out}/libsymnative.a");
    assert!(Command::new("cc").args(["-O1", "-c", "native.c", "-o", &o]).status().unwrap().success());
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=symnative");
    println!("cargo:rerun-if-changed=native.c");
    println!("cargo:rerun-if-changed=build.rs");
}
