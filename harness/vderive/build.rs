fn main() {
    println!("cargo:rustc-cfg=hyperdrive_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
