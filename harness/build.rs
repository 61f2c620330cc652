use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/sym.o");
    let a = format!("{out}/libsymnative.a");
    let ok = |c: &mut Command| assert!(c.status().expect("run").success());
    ok(Command::new("cc").args(["-O1", "-c", "csrc/sym.c", "-o", &o]));
    let _ = std::fs::remove_file(&a);
    ok(Command::new("ar").args(["rcs", &a, &o]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=symnative");
    println!("cargo:rerun-if-changed=csrc/sym.c");
    println!("cargo:rerun-if-changed=build.rs");
}
