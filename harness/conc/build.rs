use std::process::Command;
fn main() {
    let o = std::env::var("OUT_DIR").unwrap();
    let ok = |c: &mut Command| assert!(c.status().unwrap().success());
    ok(Command::new("gcc").args(["-O2", "-fPIC", "-c", "rt.c", "-o", &format!("{o}/rt.o")]));
    ok(Command::new("ar").args(["crs", &format!("{o}/libschedrt.a"), &format!("{o}/rt.o")]));
    println!("cargo:rustc-link-search=native={o}");
    println!("cargo:rustc-link-lib=static:+whole-archive=schedrt");
    println!("cargo:rerun-if-changed=rt.c");
}
