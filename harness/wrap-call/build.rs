//! The Go half of the gnark bridge as a C archive, built against the stand-in for gnark.
use std::{env, fs, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let here = env::var("CARGO_MANIFEST_DIR").unwrap();
    println!("cargo:rerun-if-changed=/repo/recursion-gnark/ffi/go");
    println!("cargo:rerun-if-changed={here}/../standin");
    let s = Command::new("bash").args([&format!("{here}/../standin/build.sh"), &out]).status().expect("bash");
    assert!(s.success(), "the Go library did not build");
    fs::write(
        format!("{out}/bindings.rs"),
        "use std::ffi::c_char as ch;\nextern \"C\" { pub fn BuildGroth16(vk: *mut ch, out: *mut ch, proof: *mut ch, inputs: *mut ch); pub fn FreeString(s: *mut ch); }\n",
    )
    .unwrap();
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=eigengnark");
}
