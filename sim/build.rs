use std::{env, path::Path, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=rt/rt.c");
    let obj = Path::new(&out).join("rt.o");
    let lib = Path::new(&out).join("libsimrt.a");
    let _ = std::fs::remove_file(&lib);
    let ok = Command::new("gcc").args(["-O2", "-g1", "-fPIC", "-mcx16", "-Wall", "-c", "rt/rt.c", "-o"]).arg(&obj).status().unwrap();
    assert!(ok.success());
    let ok = Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().unwrap();
    assert!(ok.success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
}
