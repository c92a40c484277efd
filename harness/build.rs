use std::{env, path::PathBuf, process::Command};
fn main() {
    println!("cargo:rerun-if-changed=fuel.c");
    println!("cargo:rerun-if-changed=build.rs");
    let obj = PathBuf::from(env::var("OUT_DIR").unwrap()).join("fuel.o");
    let ok = Command::new("gcc").args(["-O2", "-fPIC", "-c", "fuel.c", "-o"]).arg(&obj).status().unwrap();
    assert!(ok.success());
    println!("cargo:rustc-link-arg-bins={}", obj.display());
}
