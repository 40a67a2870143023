fn main() {
    // The interposed libc symbols must be visible to dlsym(RTLD_DEFAULT): std looks some of them up at run time.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
