//! The gnark bridge's Rust half, compiled from the repository's own files.
//! The crate itself cannot be a dependency here: its build script needs the
//! Go module cache to build the gnark side.
#[path = "/repo/recursion-gnark/ffi/src/json_util.rs"]
pub mod json_util;
#[path = "/repo/recursion-gnark/ffi/src/proof.rs"]
pub mod proof;
#[path = "/repo/recursion-gnark/ffi/src/traits.rs"]
pub mod traits;
