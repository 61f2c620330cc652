fn main() {
    // libz3: an explicit directory, or whatever the linker finds.
    if let Ok(dir) = std::env::var("SYMX_Z3_DIR") {
        println!("cargo:rustc-link-search=native={dir}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{dir}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-env-changed=SYMX_Z3_DIR");
}
