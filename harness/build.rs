use std::{env, process::Command};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let dir = env::var("CARGO_MANIFEST_DIR").unwrap();
    println!("cargo:rerun-if-changed=sim/sim.c");
    println!("cargo:rerun-if-changed=sim/sim.h");
    println!("cargo:rerun-if-changed=build.rs");
    let ok = Command::new("gcc")
        .args(["-O2", "-g", "-Wall", "-fno-omit-frame-pointer", "-c", "-o"])
        .arg(format!("{out}/sim.o"))
        .arg(format!("{dir}/sim/sim.c"))
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "sim.c");
    println!("cargo:rustc-link-arg-bins={out}/sim.o");
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
