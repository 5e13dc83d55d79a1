fn main() {
    let d = std::env::var("SYMEX_Z3_DIR").unwrap_or_else(|_| "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib".into());
    println!("cargo:rustc-link-search=native={}", d);
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", d);
    println!("cargo:rerun-if-env-changed=SYMEX_Z3_DIR");
}
