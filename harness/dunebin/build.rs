fn main() {
    // Turns on the guarded hook module in /repo/src/bin.rs.
    println!("cargo:rustc-cfg=dune_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
