fn main() {
    // libz3-dev provides libz3.so in the default search path
    println!("cargo:rustc-link-lib=dylib=z3");
}
