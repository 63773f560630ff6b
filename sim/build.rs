// Compiles the C half of the simulator runtime (entropy, futex and scheduler
// seams) with the system compiler; it is never sanitizer-instrumented.
use std::{env, path::PathBuf, process::Command};

fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let obj = out.join("rt.o");
    let lib = out.join("libsimrt.a");
    let ok = Command::new("cc")
        .args(["-O2", "-fPIC", "-Wall", "-Wextra", "-fno-tree-loop-distribute-patterns", "-c", "rt/rt.c"])
        .args(if env::var("CARGO_ENCODED_RUSTFLAGS").unwrap_or_default().contains("sancov-module") { vec!["-DSIM_TRACED", "-fno-builtin"] } else { vec![] })
        .arg("-o")
        .arg(&obj)
        .status()
        .expect("cc")
        .success();
    assert!(ok, "rt.c does not compile");
    let _ = std::fs::remove_file(&lib);
    let ok = Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().expect("ar").success();
    assert!(ok, "ar failed");
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    println!("cargo:rerun-if-changed=rt/rt.c");
}
