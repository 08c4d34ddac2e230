use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=csrc/variadic.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let st = Command::new("cc")
        .args(["-O1", "-fno-builtin", "-c", "csrc/variadic.c", "-o"])
        .arg(format!("{out}/variadic.o"))
        .status()
        .unwrap();
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={out}/variadic.o");
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
