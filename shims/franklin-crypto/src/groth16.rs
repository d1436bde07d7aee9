//! Groth16 with bellman's interface and file layout, by the book.
use crate::bellman::pairing::Engine;
use crate::bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use crate::curve::{Curve, CurveAffine};
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, Evaluations, GeneralEvaluationDomain};
use rand::Rng;
use std::io::{self, Read, Write};
use std::marker::PhantomData;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct VerifyingKey<E: Engine> {
    pub alpha_g1: E::G1Affine,
    pub beta_g1: E::G1Affine,
    pub beta_g2: E::G2Affine,
    pub gamma_g2: E::G2Affine,
    pub delta_g1: E::G1Affine,
    pub delta_g2: E::G2Affine,
    pub ic: Vec<E::G1Affine>,
}
#[derive(Clone, Debug)]
pub struct Proof<E: Engine> {
    pub a: E::G1Affine,
    pub b: E::G2Affine,
    pub c: E::G1Affine,
}
#[derive(Clone, Debug)]
pub struct Parameters<E: Engine> {
    pub vk: VerifyingKey<E>,
    pub h: Arc<Vec<E::G1Affine>>,
    pub l: Arc<Vec<E::G1Affine>>,
    pub a: Arc<Vec<E::G1Affine>>,
    pub b_g1: Arc<Vec<E::G1Affine>>,
    pub b_g2: Arc<Vec<E::G2Affine>>,
}
pub struct PreparedVerifyingKey<E: Engine>(VerifyingKey<E>);

fn write_points<P: CurveAffine>(b: &mut Vec<u8>, v: &[P]) {
    b.extend((v.len() as u32).to_be_bytes());
    v.iter().for_each(|p| p.write_raw(b));
}
fn read_points<P: CurveAffine>(r: &mut dyn Read, checked: bool) -> io::Result<Vec<P>> {
    let mut n = [0; 4];
    r.read_exact(&mut n)?;
    (0..u32::from_be_bytes(n)).map(|_| P::read_raw(r, checked)).collect()
}
impl<E: Engine> VerifyingKey<E> {
    pub fn write<W: Write>(&self, w: W) -> io::Result<()> {
        let mut b = vec![];
        self.alpha_g1.write_raw(&mut b);
        self.beta_g1.write_raw(&mut b);
        self.beta_g2.write_raw(&mut b);
        self.gamma_g2.write_raw(&mut b);
        self.delta_g1.write_raw(&mut b);
        self.delta_g2.write_raw(&mut b);
        write_points(&mut b, &self.ic);
        crate::curve::write_all(w, &b)
    }
    pub fn read<R: Read>(mut r: R) -> io::Result<Self> {
        Self::read_with(&mut r, true)
    }
    fn read_with(r: &mut dyn Read, checked: bool) -> io::Result<Self> {
        Ok(VerifyingKey {
            alpha_g1: CurveAffine::read_raw(r, checked)?,
            beta_g1: CurveAffine::read_raw(r, checked)?,
            beta_g2: CurveAffine::read_raw(r, checked)?,
            gamma_g2: CurveAffine::read_raw(r, checked)?,
            delta_g1: CurveAffine::read_raw(r, checked)?,
            delta_g2: CurveAffine::read_raw(r, checked)?,
            ic: read_points(r, checked)?,
        })
    }
}
impl<E: Engine> Parameters<E> {
    pub fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        self.vk.write(&mut w)?;
        let mut b = vec![];
        write_points(&mut b, &self.h);
        write_points(&mut b, &self.l);
        write_points(&mut b, &self.a);
        write_points(&mut b, &self.b_g1);
        write_points(&mut b, &self.b_g2);
        w.write_all(&b)
    }
    pub fn read<R: Read>(mut r: R, checked: bool) -> io::Result<Self> {
        Ok(Parameters {
            vk: VerifyingKey::read_with(&mut r, true)?,
            h: Arc::new(read_points(&mut r, checked)?),
            l: Arc::new(read_points(&mut r, checked)?),
            a: Arc::new(read_points(&mut r, checked)?),
            b_g1: Arc::new(read_points(&mut r, checked)?),
            b_g2: Arc::new(read_points(&mut r, checked)?),
        })
    }
}
impl<E: Engine> Proof<E> {
    /// bellman compresses the points of a proof; nothing here needs that
    pub fn write<W: Write>(&self, w: W) -> io::Result<()> {
        let mut b = vec![];
        self.a.write_raw(&mut b);
        self.b.write_raw(&mut b);
        self.c.write_raw(&mut b);
        crate::curve::write_all(w, &b)
    }
}

type S<E> = <<<E as Engine>::Curve as Curve>::P as Pairing>::ScalarField;
type Rows<E> = Vec<[Vec<(Index, S<E>)>; 3]>;
struct Recorder<E: Engine> {
    rows: Rows<E>,
    inputs: Vec<Option<S<E>>>,
    aux: Vec<Option<S<E>>>,
    values: bool,
    _e: PhantomData<E>,
}
impl<E: Engine> ConstraintSystem<E> for Recorder<E> {
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.values { Some(E::Curve::fr(&f()?)) } else { None };
        self.aux.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.values { Some(E::Curve::fr(&f()?)) } else { None };
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
    {
        let t = |l: LinearCombination<E>| l.0.iter().map(|(v, c)| (v.get_unchecked(), E::Curve::fr(c))).collect::<Vec<_>>();
        let z = LinearCombination::zero;
        self.rows.push([t(a(z())), t(b(z())), t(c(z()))]);
    }
}
fn record<E: Engine, C: Circuit<E>>(circuit: C, values: bool) -> Result<Recorder<E>, SynthesisError> {
    let mut r = Recorder { rows: vec![], inputs: vec![Some(S::<E>::one())], aux: vec![], values, _e: PhantomData };
    circuit.synthesize(&mut r)?;
    // every input takes part in some constraint
    for i in 0..r.inputs.len() {
        r.rows.push([vec![(Index::Input(i), S::<E>::one())], vec![], vec![]]);
    }
    Ok(r)
}
fn random<E: Engine, R: Rng>(rng: &mut R) -> S<E> {
    use ark_ff::PrimeField;
    loop {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        let x = S::<E>::from_le_bytes_mod_order(&b);
        if !x.is_zero() {
            return x;
        }
    }
}
type P<E> = <<E as Engine>::Curve as Curve>::P;
fn g1<E: Engine>(x: S<E>) -> E::G1Affine {
    E::Curve::from_g1(&(<P<E> as Pairing>::G1Affine::generator() * x).into_affine())
}
fn g2<E: Engine>(x: S<E>) -> E::G2Affine {
    E::Curve::from_g2(&(<P<E> as Pairing>::G2Affine::generator() * x).into_affine())
}
pub fn generate_random_parameters<E: Engine, C: Circuit<E>, R: Rng>(circuit: C, rng: &mut R) -> Result<Parameters<E>, SynthesisError> {
    let r = record::<E, C>(circuit, false)?;
    let [alpha, beta, gamma, delta, tau] = [(); 5].map(|_| random::<E, R>(rng));
    let d = GeneralEvaluationDomain::<S<E>>::new(r.rows.len()).ok_or(SynthesisError::PolynomialDegreeTooLarge)?;
    let lag = d.evaluate_all_lagrange_coefficients(tau);
    // the polynomials of every variable, at tau
    let n = r.inputs.len();
    let mut u = vec![[S::<E>::zero(); 3]; n + r.aux.len()];
    for (row, l) in r.rows.iter().zip(&lag) {
        for k in 0..3 {
            for (i, c) in &row[k] {
                let at = match i {
                    Index::Input(i) => *i,
                    Index::Aux(i) => n + i,
                };
                u[at][k] += *c * l;
            }
        }
    }
    let (gi, di) = (gamma.inverse().unwrap(), delta.inverse().unwrap());
    let mixed: Vec<S<E>> = u.iter().map(|[a, b, c]| *a * beta + *b * alpha + c).collect();
    if mixed[n..].iter().any(|x| x.is_zero()) {
        return Err(SynthesisError::UnconstrainedVariable);
    }
    let z = d.evaluate_vanishing_polynomial(tau);
    let mut h = vec![];
    let mut t = z * di;
    for _ in 0..d.size() - 1 {
        h.push(g1::<E>(t));
        t *= tau;
    }
    Ok(Parameters {
        vk: VerifyingKey {
            alpha_g1: g1::<E>(alpha),
            beta_g1: g1::<E>(beta),
            beta_g2: g2::<E>(beta),
            gamma_g2: g2::<E>(gamma),
            delta_g1: g1::<E>(delta),
            delta_g2: g2::<E>(delta),
            ic: mixed[..n].iter().map(|x| g1::<E>(*x * gi)).collect(),
        },
        h: Arc::new(h),
        l: Arc::new(mixed[n..].iter().map(|x| g1::<E>(*x * di)).collect()),
        a: Arc::new(u.iter().map(|x| g1::<E>(x[0])).collect()),
        b_g1: Arc::new(u.iter().map(|x| g1::<E>(x[1])).collect()),
        b_g2: Arc::new(u.iter().map(|x| g2::<E>(x[1])).collect()),
    })
}
fn sum1<E: Engine>(p: &[E::G1Affine], x: &[S<E>]) -> <P<E> as Pairing>::G1 {
    assert_eq!(p.len(), x.len(), "key and circuit are of different sizes");
    p.iter().zip(x).map(|(p, x)| E::Curve::g1(p) * x).sum()
}
pub fn create_random_proof<E: Engine, C: Circuit<E>, R: Rng, K: std::borrow::Borrow<Parameters<E>>>(circuit: C, key: K, rng: &mut R) -> Result<Proof<E>, SynthesisError> {
    let key = key.borrow();
    let rec = record::<E, C>(circuit, true)?;
    let n = rec.inputs.len();
    let w: Vec<S<E>> = rec.inputs.iter().chain(&rec.aux).map(|x| x.unwrap()).collect();
    let d = GeneralEvaluationDomain::<S<E>>::new(rec.rows.len()).ok_or(SynthesisError::PolynomialDegreeTooLarge)?;
    let mut v = [vec![], vec![], vec![]];
    for row in &rec.rows {
        for k in 0..3 {
            v[k].push(row[k].iter().fold(S::<E>::zero(), |s, (i, c)| {
                s + *c
                    * w[match i {
                        Index::Input(i) => *i,
                        Index::Aux(i) => n + i,
                    }]
            }));
        }
    }
    let [a, b, c]: [DensePolynomial<S<E>>; 3] = v.map(|mut x| {
        x.resize(d.size(), S::<E>::zero());
        Evaluations::from_vec_and_domain(x, d).interpolate()
    });
    // like bellman, whatever the witness: the quotient by the vanishing polynomial, remainder dropped
    let (quot, _) = (&(&a * &b) - &c).divide_by_vanishing_poly(d);
    let mut h = quot.coeffs.clone();
    h.resize(d.size() - 1, S::<E>::zero());
    let (r, s) = (random::<E, R>(rng), random::<E, R>(rng));
    let delta1 = E::Curve::g1(&key.vk.delta_g1);
    let pa = E::Curve::g1(&key.vk.alpha_g1) + sum1::<E>(&key.a, &w) + delta1 * r;
    let pb1 = E::Curve::g1(&key.vk.beta_g1) + sum1::<E>(&key.b_g1, &w) + delta1 * s;
    assert_eq!(key.b_g2.len(), w.len(), "key and circuit are of different sizes");
    let mut pb: <P<E> as Pairing>::G2 = key.b_g2.iter().zip(&w).map(|(p, x)| E::Curve::g2(p) * x).sum();
    pb += E::Curve::g2(&key.vk.beta_g2);
    pb += E::Curve::g2(&key.vk.delta_g2) * s;
    let pc = sum1::<E>(&key.l, &w[n..]) + sum1::<E>(&key.h, &h) + pa * s + pb1 * r - delta1 * (r * s);
    Ok(Proof { a: E::Curve::from_g1(&pa.into_affine()), b: E::Curve::from_g2(&pb.into_affine()), c: E::Curve::from_g1(&pc.into_affine()) })
}
pub fn prepare_verifying_key<E: Engine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    PreparedVerifyingKey(vk.clone())
}
pub fn verify_proof<E: Engine>(pvk: &PreparedVerifyingKey<E>, p: &Proof<E>, inputs: &[E::Fr]) -> Result<bool, SynthesisError> {
    let vk = &pvk.0;
    if inputs.len() + 1 != vk.ic.len() {
        return Err(SynthesisError::MalformedVerifyingKey);
    }
    let mut acc: <P<E> as Pairing>::G1 = E::Curve::g1(&vk.ic[0]).into();
    for (x, p) in inputs.iter().zip(&vk.ic[1..]) {
        acc += E::Curve::g1(p) * E::Curve::fr(x);
    }
    let left = P::<E>::multi_pairing(
        [E::Curve::g1(&p.a), (-acc).into_affine(), (-E::Curve::g1(&p.c).into_group()).into_affine()],
        [E::Curve::g2(&p.b), E::Curve::g2(&vk.gamma_g2), E::Curve::g2(&vk.delta_g2)],
    );
    Ok(left == P::<E>::pairing(E::Curve::g1(&vk.alpha_g1), E::Curve::g2(&vk.beta_g2)))
}
