fn main() {
    // VERIF_NO_HOOKS: for trees the decided scheduler doesn't fit to
    if std::env::var("VERIF_NO_HOOKS").is_err() {
        println!("cargo:rustc-cfg=verif_hooks");
    }
    println!("cargo:rerun-if-env-changed=VERIF_NO_HOOKS");
    println!("cargo:rerun-if-changed=build.rs");
}
