//! One call of the bridge: wrapcall VK-FILE OUTPUT-DIR PROOF INPUTS
#[path = "/repo/recursion-gnark/ffi/src/ffi/native.rs"]
mod native;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    native::build_groth16(&a[1], &a[2], &a[3], &a[4]);
}
