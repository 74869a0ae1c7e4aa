// two versions of neutron-sdk each export `requires_neutron`; it is never called natively
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins=-Wl,-z,muldefs");
}
