fn main() {
    println!("cargo:rustc-cfg=auto_enums_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
