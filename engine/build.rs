fn main() {
    // the C header/runtime of z3 4.8 ships with the sandbox (libz3-dev)
    println!("cargo:rustc-link-lib=dylib=z3");
}
