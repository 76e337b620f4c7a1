use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/sym.o");
    let a = format!("{out}/libsymc.a");
    assert!(Command::new("gcc").args(["-O1", "-c", "sym.c", "-o", &o]).status().unwrap().success());
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=symc");
    println!("cargo:rerun-if-changed=sym.c");
}
