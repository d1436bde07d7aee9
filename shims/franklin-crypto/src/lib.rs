//! Stand-in for franklin-crypto (a git dependency that is not available offline).
//! It has the traits and types /repo uses, with bellman's semantics, and nothing else.

pub extern crate ff;
pub mod curve;
pub mod groth16;

pub mod bellman {
    pub mod pairing {
        pub use crate::ff;
        pub use crate::ff::ScalarEngine;
        use crate::ff::PrimeField;

        pub use crate::curve::{CurveAffine, EncodedPoint, NoPoint};

        pub trait Engine: ScalarEngine + 'static {
            type Fq: PrimeField;
            type G1Affine: CurveAffine<Base = Self::Fq>;
            type G2Affine: CurveAffine;
            type Curve: crate::curve::Curve<Fr = Self::Fr, G1 = Self::G1Affine, G2 = Self::G2Affine>;
        }

        #[allow(clippy::all)]
        pub mod bn256 {
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
            #[PrimeFieldGenerator = "7"]
            pub struct Fr(FrRepr);
            pub use fq::{Fq, FqRepr};
            mod fq {
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = "21888242871839275222246405745257275088696311157297823662689037894645226208583"]
            #[PrimeFieldGenerator = "3"]
            pub struct Fq(FqRepr);
            }
            pub type Fq2 = crate::curve::Fq2<Fq>;
            pub type G1Affine = crate::curve::Point<Fq>;
            pub type G2Affine = crate::curve::Point<Fq2>;

            #[derive(Clone, Copy, Debug)]
            pub struct Bn256;
            impl ScalarEngine for Bn256 {
                type Fr = Fr;
            }
            impl super::Engine for Bn256 {
                type Fq = Fq;
                type G1Affine = G1Affine;
                type G2Affine = G2Affine;
                type Curve = crate::curve::BnCurve;
            }
        }
        #[allow(clippy::all)]
        pub mod bls12_381 {
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
            #[PrimeFieldGenerator = "7"]
            pub struct Fr(FrRepr);
            pub use fq::{Fq, FqRepr};
            mod fq {
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"]
            #[PrimeFieldGenerator = "2"]
            pub struct Fq(FqRepr);
            }
            pub type Fq2 = crate::curve::Fq2<Fq>;
            pub type G1Affine = crate::curve::Point<Fq>;
            pub type G2Affine = crate::curve::Point<Fq2>;

            #[derive(Clone, Copy, Debug)]
            pub struct Bls12;
            impl ScalarEngine for Bls12 {
                type Fr = Fr;
            }
            impl super::Engine for Bls12 {
                type Fq = Fq;
                type G1Affine = G1Affine;
                type G2Affine = G2Affine;
                type Curve = crate::curve::BlsCurve;
            }
        }
    }
    pub use crate::groth16;
    pub use pairing::{bls12_381, CurveAffine};
    pub use pairing::ff::{Field, PrimeField, PrimeFieldRepr, ScalarEngine};
    pub use pairing::{bn256, Engine};

    pub mod kate_commitment {
        use super::Engine;
        use std::marker::PhantomData;
        pub struct CrsForLagrangeForm;
        pub struct CrsForMonomialForm;
        pub struct Crs<E: Engine, T>(PhantomData<(E, T)>);
        impl<E: Engine, T> Crs<E, T> {
            pub fn read<R: std::io::Read>(_r: R) -> std::io::Result<Self> {
                unimplemented!("stand-in: universal setups are out of scope")
            }
        }
    }

    #[derive(Debug)]
    pub enum SynthesisError {
        AssignmentMissing,
        Unsatisfiable,
        PolynomialDegreeTooLarge,
        UnexpectedIdentity,
        IoError(std::io::Error),
        MalformedVerifyingKey,
        UnconstrainedVariable,
    }
    impl std::fmt::Display for SynthesisError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for SynthesisError {}
    impl From<std::io::Error> for SynthesisError {
        fn from(e: std::io::Error) -> Self {
            SynthesisError::IoError(e)
        }
    }

    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    pub enum Index {
        Input(usize),
        Aux(usize),
    }
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
    pub struct Variable(Index);
    impl Variable {
        pub fn new_unchecked(idx: Index) -> Variable {
            Variable(idx)
        }
        pub fn get_unchecked(&self) -> Index {
            self.0
        }
    }
    #[derive(Clone, Debug)]
    pub struct LinearCombination<E: ScalarEngine>(pub Vec<(Variable, E::Fr)>);
    impl<E: ScalarEngine> AsRef<[(Variable, E::Fr)]> for LinearCombination<E> {
        fn as_ref(&self) -> &[(Variable, E::Fr)] {
            &self.0
        }
    }
    impl<E: ScalarEngine> LinearCombination<E> {
        pub fn zero() -> Self {
            LinearCombination(vec![])
        }
    }
    impl<E: ScalarEngine> std::ops::Add<(E::Fr, Variable)> for LinearCombination<E> {
        type Output = Self;
        fn add(mut self, (c, v): (E::Fr, Variable)) -> Self {
            self.0.push((v, c));
            self
        }
    }
    impl<E: ScalarEngine> std::ops::Sub<(E::Fr, Variable)> for LinearCombination<E> {
        type Output = Self;
        fn sub(mut self, (mut c, v): (E::Fr, Variable)) -> Self {
            c.negate();
            self.0.push((v, c));
            self
        }
    }
    impl<E: ScalarEngine> std::ops::Add<Variable> for LinearCombination<E> {
        type Output = Self;
        fn add(mut self, v: Variable) -> Self {
            self.0.push((v, E::Fr::one()));
            self
        }
    }

    pub trait ConstraintSystem<E: Engine>: Sized {
        fn one() -> Variable {
            Variable::new_unchecked(Index::Input(0))
        }
        fn alloc<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn alloc_input<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>;
    }

    pub trait Circuit<E: Engine> {
        fn synthesize<CS: ConstraintSystem<E>>(self, cs: &mut CS) -> Result<(), SynthesisError>;
    }
}

pub mod plonk {
    pub mod circuit {
        pub mod bigint {
            pub mod bigint {
                use ff::{PrimeField, PrimeFieldRepr};
                use num_bigint::BigUint;
                pub fn fe_to_biguint<F: PrimeField>(el: &F) -> BigUint {
                    let mut b = vec![];
                    el.into_repr().write_be(&mut b).unwrap();
                    BigUint::from_bytes_be(&b)
                }
                pub fn biguint_to_fe<F: PrimeField>(value: BigUint) -> F {
                    F::from_str(&value.to_str_radix(10)).unwrap()
                }
            }
            pub mod field {
                use crate::bellman::Engine;
                use ff::PrimeField;
                use num_bigint::BigUint;
                use std::marker::PhantomData;
                pub struct LimbParams {
                    pub limb_size_bits: usize,
                    pub limb_max_value: BigUint,
                }
                pub struct RangeInfo {
                    pub minimal_multiple: usize,
                }
                pub struct RnsParameters<E: Engine, F: PrimeField> {
                    pub num_limbs_for_in_field_representation: usize,
                    pub num_binary_limbs: usize,
                    pub binary_limbs_params: LimbParams,
                    pub range_check_info: RangeInfo,
                    pub binary_limbs_bit_widths: Vec<usize>,
                    pub binary_limbs_max_values: Vec<BigUint>,
                    pub _marker: PhantomData<(E, F)>,
                }
                impl<E: Engine, F: PrimeField> RnsParameters<E, F> {
                    pub fn can_allocate_from_double_limb_witness(&self) -> bool {
                        self.num_limbs_for_in_field_representation % 2 == 0
                    }
                }
            }
        }
    }
}
