fn main() {
    println!("cargo:rustc-env=SNAPCHAIN_PROTO_VERSION=0");
    println!("cargo:rerun-if-changed=build.rs");
}
