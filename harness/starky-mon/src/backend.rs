//! The three hash backends (Goldilocks, BN254, BLS12-381) behind one interface, each with its reference.
use crate::refhash::*;
use crate::{fe, val, vals};
use fields::field_gl::Fr as FGL;
use num_bigint::BigUint;
use rayon::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::traits::{MTNodeType, MerkleTree, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use std::sync::OnceLock;

pub type BnFr = starky::field_bn128::Fr;
pub type BlsFr = <MerkleTreeBLS12381 as MerkleTree>::BaseField;

pub fn bn() -> &'static RefPoseidon {
    static R: OnceLock<RefPoseidon> = OnceLock::new();
    R.get_or_init(|| RefPoseidon::new(Curve::Bn254))
}
pub fn bls() -> &'static RefPoseidon {
    static R: OnceLock<RefPoseidon> = OnceLock::new();
    R.get_or_init(|| RefPoseidon::new(Curve::Bls12381))
}
pub fn limbs(x: &U256) -> BigUint {
    to_big(x)
}

pub trait Backend: 'static {
    const NAME: &'static str;
    const ARITY: usize;
    type Node: MTNodeType + Copy + std::fmt::Display + std::fmt::Debug + Default + Send + Sync + Serialize + DeserializeOwned;
    type Base: Clone + Default + std::fmt::Debug + PartialEq + Serialize + DeserializeOwned + Send + Sync;
    type M: MerkleTree<ExtendField = starky::f3g::F3G, MTNode = Self::Node, BaseField = Self::Base>
        + Default
        + Send
        + Sync
        + Serialize
        + DeserializeOwned;
    type T: Transcript;
    /// the digest a node stands for, as one integer: the four limbs (GL) or the curve scalar
    fn node(n: &<Self::M as MerkleTree>::MTNode) -> BigUint;
    /// a node holding the given digest; None if this digest cannot be represented
    fn make(x: &BigUint) -> Option<<Self::M as MerkleTree>::MTNode>;
    fn leaf(row: &[u64]) -> BigUint;
    fn parent(children: &[BigUint]) -> BigUint;
    /// one path level as the digests of its children or siblings
    fn level(l: &[<Self::M as MerkleTree>::BaseField]) -> Vec<BigUint>;
    fn mutate_base(x: &<Self::M as MerkleTree>::BaseField, add: u64) -> <Self::M as MerkleTree>::BaseField;
    /// whether some node of the tree cannot be held as a digest (about one curve digest in 2^30)
    fn has_unrepresentable(rows: &[Vec<u64>]) -> bool {
        let mut l: Vec<BigUint> = rows.par_iter().map(|r| Self::leaf(r)).collect();
        loop {
            if l.iter().any(|x| Self::make(x).is_none()) {
                return true;
            }
            if l.len() <= 1 {
                return false;
            }
            l = l.par_chunks(Self::ARITY).map(|c| Self::parent(c)).collect();
        }
    }
    fn ref_root(rows: &[Vec<u64>]) -> BigUint {
        let mut l: Vec<BigUint> = rows.par_iter().map(|r| Self::leaf(r)).collect();
        while l.len() > 1 {
            l = l.par_chunks(Self::ARITY).map(|c| Self::parent(c)).collect();
        }
        l.pop().unwrap()
    }
}

fn gl_int(d: &[u64; 4]) -> BigUint {
    to_big(d)
}
pub struct Gl;
impl Backend for Gl {
    const NAME: &'static str = "GL";
    const ARITY: usize = 2;
    type Node = <MerkleTreeGL as MerkleTree>::MTNode;
    type Base = <MerkleTreeGL as MerkleTree>::BaseField;
    type M = MerkleTreeGL;
    type T = TranscriptGL;
    fn node(n: &<Self::M as MerkleTree>::MTNode) -> BigUint {
        gl_int(&vals(n.as_elements()).try_into().unwrap())
    }
    fn make(x: &BigUint) -> Option<<Self::M as MerkleTree>::MTNode> {
        let l = from_big(x);
        if l.iter().any(|v| *v >= common::P) {
            return None;
        }
        Some(<Self::M as MerkleTree>::MTNode::new(&l.map(fe)))
    }
    fn leaf(row: &[u64]) -> BigUint {
        gl_int(&gl_linear(row, 0))
    }
    fn parent(c: &[BigUint]) -> BigUint {
        let mut b = [0u64; 8];
        for (i, x) in c.iter().enumerate() {
            b[i * 4..i * 4 + 4].copy_from_slice(&from_big(x));
        }
        gl_int(&gl_sponge(&b))
    }
    fn level(l: &[FGL]) -> Vec<BigUint> {
        l.iter().map(|x| BigUint::from(val(x))).collect()
    }
    fn mutate_base(x: &FGL, add: u64) -> FGL {
        fe(common::gl::add(val(x), add))
    }
}

macro_rules! curve_backend {
    ($n:ident, $name:expr, $m:ty, $t:ty, $r:path, $fr:ty) => {
        pub struct $n;
        impl Backend for $n {
            const NAME: &'static str = $name;
            const ARITY: usize = 16;
            type Node = <$m as MerkleTree>::MTNode;
            type Base = <$m as MerkleTree>::BaseField;
            type M = $m;
            type T = $t;
            fn node(n: &<Self::M as MerkleTree>::MTNode) -> BigUint {
                let raw: U256 = vals(n.as_elements()).try_into().unwrap();
                let f = &$r().f;
                to_big(&f.from_mont(&raw))
            }
            fn make(x: &BigUint) -> Option<<Self::M as MerkleTree>::MTNode> {
                let raw = $r().f.to_mont(&from_big(x));
                if raw.iter().any(|v| *v >= common::P) {
                    return None;
                }
                Some(<Self::M as MerkleTree>::MTNode::new(&raw.map(fe)))
            }
            fn leaf(row: &[u64]) -> BigUint {
                $r().linear(row)
            }
            fn parent(c: &[BigUint]) -> BigUint {
                let mut v = c.to_vec();
                v.resize(16, BigUint::from(0u32));
                $r().hash(&v, &BigUint::from(0u32))
            }
            fn level(l: &[$fr]) -> Vec<BigUint> {
                use ff::PrimeField;
                l.iter()
                    .map(|x| {
                        let raw: U256 = x.into_raw_repr().as_ref().try_into().unwrap();
                        to_big(&$r().f.from_mont(&raw))
                    })
                    .collect()
            }
            fn mutate_base(x: &$fr, add: u64) -> $fr {
                use ff::{Field, PrimeField};
                let mut y = *x;
                y.add_assign(&<$fr>::from_str(&add.to_string()).unwrap());
                y
            }
        }
    };
}
curve_backend!(Bn, "BN128", MerkleTreeBN128, TranscriptBN128, bn, BnFr);
curve_backend!(Bls, "BLS12381", MerkleTreeBLS12381, TranscriptBLS128, bls, BlsFr);

/// a digest a curve tree cannot hold: some limb of its Montgomery form is not a Goldilocks element.
/// (about one digest in 2^30; such a commitment panics, which is a recorded finding of D01)
pub fn unrepresentable(r: &RefPoseidon, x: &BigUint) -> bool {
    r.f.to_mont(&from_big(x)).iter().any(|v| *v >= common::P)
}
