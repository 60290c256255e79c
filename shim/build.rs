fn main() {
    println!("cargo::rerun-if-changed=build.rs");
    println!("cargo::rustc-cfg=cniic_verif");
    println!("cargo::rustc-check-cfg=cfg(cniic_verif)");
    println!("cargo::rustc-check-cfg=cfg(cniic_verif_small)");
}
