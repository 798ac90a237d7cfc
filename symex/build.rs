fn main() {
    // libz3-dev's shared library (system location).
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
