//! The two crates under test, each for the fields it can be instantiated with.
use crate::{Decoded, Loaded, Prime, Synth};
use num_bigint::BigUint;
use std::io::Cursor;

/// one reader/circuit implementation at one field
pub trait Imp {
    fn name(&self) -> String;
    fn prime(&self) -> Prime;
    fn decode(&self, file: &[u8]) -> Result<Decoded, String>;
    fn load_bin(&self, file: &[u8]) -> Loaded;
    fn load_file(&self, path: &str) -> Loaded;
    /// synthesize the circuit of a file (by path) with a witness
    fn synth(&self, path: &str, witness: &[BigUint], map: Option<Vec<usize>>, aux_offset: usize) -> Synth;
    /// synthesize without a witness, as key generation does: (inputs, aux, constraints)
    fn shape(&self, path: &str) -> (usize, usize, usize);
    fn wtns(&self, file: &[u8]) -> Result<Vec<BigUint>, String>;
    fn wtns_file(&self, path: &str) -> Vec<BigUint>;
}

macro_rules! common_imp {
    ($krate:ident, $e:ty, $fr:ty, $to:path, $from:path) => {
        fn decode(&self, file: &[u8]) -> Result<Decoded, String> {
            let f = $krate::r1cs_file::from_reader::<_, $e>(Cursor::new(file)).map_err(|e| e.to_string())?;
            let lc = |v: &Vec<(usize, $fr)>| v.iter().map(|(i, c)| (*i, $to(c))).collect::<Vec<_>>();
            Ok(Decoded {
                header: [
                    f.header.n_wires as u64,
                    f.header.n_pub_out as u64,
                    f.header.n_pub_in as u64,
                    f.header.n_prv_in as u64,
                    f.header.n_labels,
                    f.header.n_constraints as u64,
                ],
                use_custom_gates: f.header.use_custom_gates,
                constraints: f.constraints.iter().map(|c| [lc(&c.0), lc(&c.1), lc(&c.2)]).collect(),
                map: f.wire_mapping.clone(),
                gates: f
                    .custom_gates
                    .iter()
                    .map(|g| (g.template_name.clone(), g.parameters.iter().map(|x| $to(x)).collect()))
                    .collect(),
                uses: f.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
            })
        }
        fn load_bin(&self, file: &[u8]) -> Loaded {
            let (r, map) = $krate::reader::load_r1cs_from_bin::<_, $e>(Cursor::new(file));
            self.loaded(r, map)
        }
        fn load_file(&self, path: &str) -> Loaded {
            self.loaded($krate::reader::load_r1cs::<$e>(path), vec![])
        }
        fn synth(&self, path: &str, witness: &[BigUint], map: Option<Vec<usize>>, aux_offset: usize) -> Synth {
            let c = $krate::circom_circuit::CircomCircuit::<$e> {
                r1cs: $krate::reader::load_r1cs::<$e>(path),
                witness: Some(witness.iter().map(|x| $from(x)).collect()),
                wire_mapping: map,
                aux_offset,
            };
            let public = c.get_public_inputs().unwrap().iter().map(|x| $to(x)).collect();
            let public_json: Vec<String> = serde_json::from_str(&c.get_public_inputs_json()).unwrap();
            let mut cs = Self::cs(aux_offset, true);
            use $krate::__circuit::Circuit;
            c.synthesize(&mut cs).unwrap();
            Synth { inputs: cs.0.inputs, aux: cs.0.aux, constraints: cs.0.constraints, public, public_json }
        }
        fn shape(&self, path: &str) -> (usize, usize, usize) {
            let c = $krate::circom_circuit::CircomCircuit::<$e> {
                r1cs: $krate::reader::load_r1cs::<$e>(path),
                witness: None,
                wire_mapping: None,
                aux_offset: 0,
            };
            assert!(c.get_public_inputs().is_none());
            let mut cs = Self::cs(0, false);
            use $krate::__circuit::Circuit;
            c.synthesize(&mut cs).unwrap();
            (cs.inputs.len(), cs.aux.len(), cs.constraints.len())
        }
        fn wtns(&self, file: &[u8]) -> Result<Vec<BigUint>, String> {
            let a = $krate::reader::load_witness_from_bin_reader::<$e, _>(file)
                .map(|v| v.iter().map(|x| $to(x)).collect::<Vec<_>>())
                .map_err(|e| e.to_string());
            let b = $krate::reader::load_witness_from_array::<$e>(file.to_vec())
                .map(|v| v.iter().map(|x| $to(x)).collect::<Vec<_>>())
                .map_err(|e| e.to_string());
            assert!(a.is_ok() == b.is_ok() && (a.is_err() || a == b), "the two readers differ");
            a
        }
        fn wtns_file(&self, path: &str) -> Vec<BigUint> {
            $krate::reader::load_witness_from_file::<$e>(path).iter().map(|x| $to(x)).collect()
        }
    };
}

/// a constraint system that writes down what it is given
#[derive(Default)]
pub struct Recorder {
    values: bool,
    offset: usize,
    pub inputs: Vec<BigUint>,
    pub aux: Vec<BigUint>,
    pub constraints: Vec<[Vec<(bool, usize, BigUint)>; 3]>,
}

pub mod cpu {
    use super::*;
    use algebraic::bellman_ce as bce;
    use bce::{ConstraintSystem, Engine, Index, LinearCombination, PrimeField, PrimeFieldRepr, ScalarEngine, SynthesisError, Variable};
    use std::marker::PhantomData;

    pub fn to<F: PrimeField>(x: &F) -> BigUint {
        let mut b = vec![];
        x.into_repr().write_le(&mut b).unwrap();
        BigUint::from_bytes_le(&b)
    }
    pub fn from<F: PrimeField>(x: &BigUint) -> F {
        let mut b = x.to_bytes_le();
        let mut r = F::Repr::default();
        b.resize(r.as_ref().len() * 8, 0);
        r.read_le(&b[..]).unwrap();
        F::from_repr(r).unwrap()
    }

    pub struct Rec<E: Engine>(Recorder, PhantomData<E>);
    impl<E: Engine> std::ops::Deref for Rec<E> {
        type Target = Recorder;
        fn deref(&self) -> &Recorder {
            &self.0
        }
    }
    impl<E: Engine> ConstraintSystem<E> for Rec<E> {
        fn alloc<F, A, AR>(&mut self, _a: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            let v = if self.0.values { to(&f()?) } else { Default::default() };
            self.0.aux.push(v);
            Ok(Variable::new_unchecked(Index::Aux(self.0.aux.len() - 1 + self.0.offset)))
        }
        fn alloc_input<F, A, AR>(&mut self, _a: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            let v = if self.0.values { to(&f()?) } else { Default::default() };
            self.0.inputs.push(v);
            Ok(Variable::new_unchecked(Index::Input(self.0.inputs.len())))
        }
        fn enforce<A, AR, LA, LB, LC>(&mut self, _a: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        {
            let t = |l: LinearCombination<E>| {
                l.as_ref()
                    .iter()
                    .map(|(v, c)| match v.get_unchecked() {
                        Index::Input(i) => (true, i, to(c)),
                        Index::Aux(i) => (false, i - self.0.offset, to(c)),
                    })
                    .collect::<Vec<_>>()
            };
            let z = LinearCombination::zero;
            let c = [t(a(z())), t(b(z())), t(c(z()))];
            self.0.constraints.push(c);
        }
    }

    /// the STARK field as an engine, so that circuits over it can be synthesised too
    #[derive(Clone, Copy, Debug)]
    pub struct GlEngine;
    impl ScalarEngine for GlEngine {
        type Fr = fields::field_gl::Fr;
    }
    impl Engine for GlEngine {
        type Fq = fields::field_gl::Fr;
        type G1Affine = franklin_crypto::curve::NoPoint<Self::Fq>;
        type G2Affine = franklin_crypto::curve::NoPoint<Self::Fq>;
        type Curve = franklin_crypto::curve::NoCurve<Self::Fq>;
    }

    pub struct Cpu<E>(pub Prime, pub PhantomData<E>);
    impl<E: Engine> Cpu<E> {
        fn cs(offset: usize, values: bool) -> Rec<E> {
            Rec(Recorder { values, offset, ..Default::default() }, PhantomData)
        }
        fn loaded(&self, r: algebraic::circom_circuit::R1CS<E>, map: Vec<usize>) -> Loaded {
            let lc = |v: &Vec<(usize, E::Fr)>| v.iter().map(|(i, c)| (*i, to(c))).collect::<Vec<_>>();
            Loaded {
                num_inputs: r.num_inputs,
                num_aux: r.num_aux,
                num_variables: r.num_variables,
                num_outputs: r.num_outputs,
                constraints: r.constraints.iter().map(|c| [lc(&c.0), lc(&c.1), lc(&c.2)]).collect(),
                gates: r
                    .custom_gates
                    .iter()
                    .map(|g| (g.template_name.clone(), g.parameters.iter().map(|x| to(x)).collect()))
                    .collect(),
                uses: r.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
                map,
            }
        }
    }
    impl<E: Engine> Imp for Cpu<E> {
        fn name(&self) -> String {
            format!("algebraic/{:?}", self.0)
        }
        fn prime(&self) -> Prime {
            self.0
        }
        common_imp!(algebraic_face, E, <E as ScalarEngine>::Fr, to, from::<<E as ScalarEngine>::Fr>);
    }
    /// algebraic, plus where its Circuit trait is
    mod algebraic_face {
        pub use algebraic::*;
        pub mod __circuit {
            pub use algebraic::bellman_ce::Circuit;
        }
    }
}

pub mod gpu {
    use super::*;
    use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
    use ff::PrimeField;
    use std::marker::PhantomData;

    // the crate prints public inputs of types that format as "Scalar(0x..)"
    #[derive(ff::PrimeField)]
    #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
    #[PrimeFieldGenerator = "7"]
    #[PrimeFieldReprEndianness = "little"]
    pub struct Scalar([u64; 4]);

    pub fn to<F: PrimeField>(x: &F) -> BigUint {
        BigUint::from_bytes_le(x.to_repr().as_ref())
    }
    pub fn from<F: PrimeField>(x: &BigUint) -> F {
        F::from_str_vartime(&x.to_str_radix(10)).unwrap()
    }

    pub struct Rec<E: PrimeField>(Recorder, PhantomData<E>);
    impl<E: PrimeField> std::ops::Deref for Rec<E> {
        type Target = Recorder;
        fn deref(&self) -> &Recorder {
            &self.0
        }
    }
    impl<E: PrimeField> ConstraintSystem<E> for Rec<E> {
        type Root = Self;
        fn alloc<F, A, AR>(&mut self, _a: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            let v = if self.0.values { to(&f()?) } else { Default::default() };
            self.0.aux.push(v);
            Ok(Variable::new_unchecked(Index::Aux(self.0.aux.len() - 1 + self.0.offset)))
        }
        fn alloc_input<F, A, AR>(&mut self, _a: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            let v = if self.0.values { to(&f()?) } else { Default::default() };
            self.0.inputs.push(v);
            Ok(Variable::new_unchecked(Index::Input(self.0.inputs.len())))
        }
        fn enforce<A, AR, LA, LB, LC>(&mut self, _a: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        {
            let t = |l: LinearCombination<E>| {
                l.iter()
                    .map(|(v, c)| match v.get_unchecked() {
                        Index::Input(i) => (true, i, to(c)),
                        Index::Aux(i) => (false, i - self.0.offset, to(c)),
                    })
                    .collect::<Vec<_>>()
            };
            let z = LinearCombination::zero;
            let c = [t(a(z())), t(b(z())), t(c(z()))];
            self.0.constraints.push(c);
        }
        fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _n: N) {}
        fn pop_namespace(&mut self) {}
        fn get_root(&mut self) -> &mut Self {
            self
        }
    }

    pub struct Gpu<E>(pub Prime, pub PhantomData<E>);
    impl<E: PrimeField> Gpu<E> {
        fn cs(offset: usize, values: bool) -> Rec<E> {
            Rec(Recorder { values, offset, ..Default::default() }, PhantomData)
        }
        fn loaded(&self, r: algebraic_gpu::circom_circuit::R1CS<E>, map: Vec<usize>) -> Loaded {
            let lc = |v: &Vec<(usize, E)>| v.iter().map(|(i, c)| (*i, to(c))).collect::<Vec<_>>();
            Loaded {
                num_inputs: r.num_inputs,
                num_aux: r.num_aux,
                num_variables: r.num_variables,
                num_outputs: r.num_outputs,
                constraints: r.constraints.iter().map(|c| [lc(&c.0), lc(&c.1), lc(&c.2)]).collect(),
                gates: r
                    .custom_gates
                    .iter()
                    .map(|g| (g.template_name.clone(), g.parameters.iter().map(|x| to(x)).collect()))
                    .collect(),
                uses: r.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
                map,
            }
        }
    }
    impl<E: PrimeField> Imp for Gpu<E> {
        fn name(&self) -> String {
            format!("algebraic-gpu/{:?}", self.0)
        }
        fn prime(&self) -> Prime {
            self.0
        }
        common_imp!(gpu_face, E, E, to, from::<E>);
    }
    mod gpu_face {
        pub use algebraic_gpu::*;
        pub mod __circuit {
            pub use bellpepper_core::Circuit;
        }
    }
}

pub fn all() -> Vec<Box<dyn Imp>> {
    use algebraic::bellman_ce::pairing::{bls12_381::Bls12, bn256::Bn256};
    use std::marker::PhantomData;
    vec![
        Box::new(cpu::Cpu::<Bn256>(Prime::Bn254, PhantomData)),
        Box::new(cpu::Cpu::<Bls12>(Prime::Bls381, PhantomData)),
        Box::new(cpu::Cpu::<cpu::GlEngine>(Prime::Gl, PhantomData)),
        Box::new(gpu::Gpu::<gpu::Scalar>(Prime::Bn254, PhantomData)),
        Box::new(gpu::Gpu::<blstrs::Scalar>(Prime::Bls381, PhantomData)),
    ]
}
