fn main() {
    // the overridden libc symbols must also be found by dlsym (std looks some up that way)
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
