//! Helpers shared by the starky monitors.
use fields::field_gl::Fr as FGL;
use fields::PrimeField;

pub mod backend;
pub mod gl_rc;
pub mod refhash;
pub use common::{gl, gl_val, Report, Rng, P};

/// a field element from a canonical integer
pub fn fe(v: u64) -> FGL {
    FGL::from(v)
}
pub fn fes(v: &[u64]) -> Vec<FGL> {
    v.iter().map(|x| fe(*x)).collect()
}
/// the canonical integer of an element; the Montgomery reduction is redone here so that the
/// conversion under test is not the one the oracle relies on
pub fn val(x: &FGL) -> u64 {
    // the internal form is x * 2^128 mod p, and 2^192 = 1 mod p, so x = raw * 2^64 mod p
    let raw = x.into_raw_repr().0[0];
    ((raw as u128 * 0xffff_ffffu128) % P as u128) as u64
}
pub fn vals(v: &[FGL]) -> Vec<u64> {
    v.iter().map(val).collect()
}
pub mod sponge;
pub mod ext;
pub mod pilref;
pub mod pilgen;
pub mod starks;
pub mod circom;
pub mod attack;
