//! Circuits that can be satisfied in many ways, and Groth16 verification on integers by arkworks.
pub mod sol;
use ark_ec::{pairing::Pairing, short_weierstrass::Affine, short_weierstrass::SWCurveConfig, AffineRepr, CurveGroup};
use ark_ff::{AdditiveGroup, BigInteger, Field, PrimeField};
use common::Rng;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use r1cs_mon::{echo, eval, file, inv, sections, Lc, Prime, Spec};
use serde_json::{json, Value};
use std::fs;

/// Every wire after the inputs is computed from earlier ones: A * B = k w + C.
pub struct Program {
    pub spec: Spec,
    /// wire computed by each constraint
    pub order: Vec<usize>,
}
impl Program {
    pub fn n_pub(&self) -> usize {
        (self.spec.n_pub_out + self.spec.n_pub_in) as usize
    }
    pub fn inputs(&self) -> std::ops::Range<usize> {
        let o = 1 + self.spec.n_pub_out as usize;
        o..o + (self.spec.n_pub_in + self.spec.n_prv_in) as usize
    }
    pub fn witness(&self, inputs: &[BigUint]) -> Vec<BigUint> {
        let p = self.spec.prime.modulus();
        let mut w = vec![BigUint::zero(); self.spec.n_wires as usize];
        w[0] = BigUint::one();
        w[self.inputs()].clone_from_slice(inputs);
        for (c, k) in self.spec.constraints.iter().zip(&self.order) {
            let l = |l: &Lc, w: &[BigUint]| eval(&l.iter().map(|(i, v)| (*i as usize, v.clone())).collect::<Vec<_>>(), w, &p);
            let coef = c[2].iter().find(|t| t.0 as usize == *k).unwrap().1.clone();
            w[*k] = BigUint::zero();
            let ab = l(&c[0], &w) * l(&c[1], &w) % &p;
            let rest = l(&c[2], &w);
            w[*k] = (ab + &p - rest) * inv(&coef, &p) % &p;
        }
        w
    }
}
pub fn program(r: &mut Rng, prime: Prime, big: bool) -> Program {
    let (n_out, n_in, n_prv) = loop {
        let mut t = (r.below(4) as u32, r.below(4) as u32, r.below(4) as u32);
        // now and then many publics
        if r.chance(1, 7) {
            t.1 = r.range(5, 36) as u32;
        }
        if r.chance(1, 12) {
            t.0 = r.range(5, 20) as u32;
        }
        if t.1 + t.2 > 0 {
            break t;
        }
    };
    let inner = if big { r.range(20, 120) } else { r.range(if n_out == 0 { 1 } else { 0 }, 10) } as u32;
    let n_wires = 1 + n_out + n_in + n_prv + inner;
    let first = 1 + n_out;
    let ins = n_in + n_prv;
    let mut known: Vec<u32> = std::iter::once(0).chain(first..first + ins).collect();
    let mut todo: Vec<u32> = (first + ins..n_wires).collect();
    todo.extend(1..=n_out);
    let mut cons = vec![];
    for k in &todo {
        let lc = |r: &mut Rng, max: usize| -> Lc {
            let mut ids = known.clone();
            r.shuffle(&mut ids);
            ids.truncate(r.range(0, max));
            ids.into_iter().map(|i| (i, prime.nonzero(r))).collect()
        };
        let (a, b) = (lc(r, 4), lc(r, 4));
        let mut c = lc(r, 3);
        c.push((*k, if r.chance(1, 2) { BigUint::one() } else { prime.nonzero(r) }));
        cons.push([a, b, c]);
        known.push(*k);
    }
    // every private wire takes part
    for i in first + n_in..first + ins {
        if !cons.iter().any(|c| c.iter().any(|l| l.iter().any(|t| t.0 == i))) {
            let k = r.below(cons.len() as u64) as usize;
            let s = r.below(3) as usize;
            cons[k][s].push((i, prime.nonzero(r)));
        }
    }
    for c in &mut cons {
        for l in c {
            l.sort_by_key(|t| t.0);
        }
    }
    let spec = Spec {
        prime,
        n_wires,
        n_pub_out: n_out,
        n_pub_in: n_in,
        n_prv_in: n_prv,
        n_labels: n_wires as u64,
        constraints: cons,
        map: (0..n_wires as u64).collect(),
        gates: None,
        uses: None,
    };
    Program { spec, order: todo.iter().map(|k| *k as usize).collect() }
}

/// a number as the files write it; `None` if it is not one
pub fn number(s: &str) -> Option<BigUint> {
    match s.strip_prefix("0x") {
        Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
        None if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) => BigUint::parse_bytes(s.as_bytes(), 10),
        None => None,
    }
}
fn num(v: &Value) -> Option<BigUint> {
    number(v.as_str()?)
}
fn fe<F: PrimeField>(x: &BigUint) -> Option<F> {
    let m = BigUint::from_bytes_le(&F::MODULUS.to_bytes_le());
    (*x < m).then(|| F::from_le_bytes_mod_order(&x.to_bytes_le()))
}
pub fn int<F: PrimeField>(x: &F) -> BigUint {
    BigUint::from_bytes_le(&x.into_bigint().to_bytes_le())
}
/// coordinates as lists of integers
pub trait Coords: Field {
    fn parse(v: &Value) -> Option<Self>;
    fn ints(&self) -> Vec<BigUint>;
}
macro_rules! coords {
    ($q:ty, $q2:ty) => {
        impl Coords for $q {
            fn parse(v: &Value) -> Option<Self> {
                fe(&num(v)?)
            }
            fn ints(&self) -> Vec<BigUint> {
                vec![int(self)]
            }
        }
        impl Coords for $q2 {
            fn parse(v: &Value) -> Option<Self> {
                let a = v.as_array()?;
                if a.len() != 2 {
                    return None;
                }
                Some(<$q2>::new(fe(&num(&a[0])?)?, fe(&num(&a[1])?)?))
            }
            fn ints(&self) -> Vec<BigUint> {
                vec![int(&self.c0), int(&self.c1)]
            }
        }
    };
}
coords!(bn254_ark::Fq, bn254_ark::Fq2);
coords!(ark_bls12_381::Fq, ark_bls12_381::Fq2);

pub trait Cv: 'static {
    const NAME: &'static str;
    const PRIME: Prime;
    type E: Pairing<G1Affine = Affine<Self::C1>, G2Affine = Affine<Self::C2>, G1 = <Affine<Self::C1> as AffineRepr>::Group, G2 = <Affine<Self::C2> as AffineRepr>::Group, ScalarField = Self::F>;
    type F: PrimeField;
    type C1: SWCurveConfig<ScalarField = Self::F, BaseField = Self::Q1>;
    type C2: SWCurveConfig<ScalarField = Self::F, BaseField = Self::Q2>;
    type Q1: Coords;
    type Q2: Coords;
}
pub struct Bn;
impl Cv for Bn {
    const NAME: &'static str = "BN128";
    const PRIME: Prime = Prime::Bn254;
    type E = bn254_ark::Bn254;
    type F = bn254_ark::Fr;
    type C1 = bn254_ark::G1Config;
    type C2 = bn254_ark::G2Config;
    type Q1 = bn254_ark::Fq;
    type Q2 = bn254_ark::Fq2;
}
pub struct Bls;
impl Cv for Bls {
    const NAME: &'static str = "BLS12381";
    const PRIME: Prime = Prime::Bls381;
    type E = ark_bls12_381::Bls12_381;
    type F = ark_bls12_381::Fr;
    type C1 = ark_bls12_381::g1::Config;
    type C2 = ark_bls12_381::g2::Config;
    type Q1 = ark_bls12_381::Fq;
    type Q2 = ark_bls12_381::Fq2;
}

/// `None` unless the coordinates are reduced and the point is in the group
pub fn point<C: SWCurveConfig>(v: &Value) -> Option<Affine<C>>
where
    C::BaseField: Coords,
{
    let p = Affine::<C>::new_unchecked(C::BaseField::parse(&v["x"])?, C::BaseField::parse(&v["y"])?);
    (p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve()).then_some(p)
}
pub struct Key<K: Cv> {
    pub alpha: Affine<K::C1>,
    pub beta1: Affine<K::C1>,
    pub beta: Affine<K::C2>,
    pub gamma: Affine<K::C2>,
    pub delta1: Affine<K::C1>,
    pub delta: Affine<K::C2>,
    pub ic: Vec<Affine<K::C1>>,
}
pub fn key<K: Cv>(v: &Value) -> Option<Key<K>> {
    Some(Key {
        alpha: point(&v["vk_alpha_1"])?,
        beta1: point(&v["vk_beta_1"])?,
        beta: point(&v["vk_beta_2"])?,
        gamma: point(&v["vk_gamma_2"])?,
        delta1: point(&v["vk_delta_1"])?,
        delta: point(&v["vk_delta_2"])?,
        ic: v["IC"].as_array()?.iter().map(point).collect::<Option<_>>()?,
    })
}
pub struct Proof<K: Cv> {
    pub a: Affine<K::C1>,
    pub b: Affine<K::C2>,
    pub c: Affine<K::C1>,
}
pub fn proof<K: Cv>(v: &Value) -> Option<Proof<K>> {
    Some(Proof { a: point(&v["pi_a"])?, b: point(&v["pi_b"])?, c: point(&v["pi_c"])? })
}
/// canonical field elements, or `None`
pub fn publics<K: Cv>(v: &Value) -> Option<Vec<K::F>> {
    v.as_array()?.iter().map(|x| fe(&num(x)?)).collect()
}
/// e(A,B) = e(alpha,beta) e(IC(x),gamma) e(C,delta), with everything well formed
pub fn accepts<K: Cv>(vk: &Value, x: &Value, p: &Value) -> bool {
    let (Some(k), Some(x), Some(p)) = (key::<K>(vk), publics::<K>(x), proof::<K>(p)) else { return false };
    if x.len() + 1 != k.ic.len() {
        return false;
    }
    let mut acc = k.ic[0].into_group();
    for (x, i) in x.iter().zip(&k.ic[1..]) {
        acc += *i * *x;
    }
    let l = K::E::pairing(p.a, p.b);
    let r = K::E::multi_pairing([k.alpha, acc.into_affine(), p.c], [k.beta, k.gamma, k.delta]);
    l == r
}
pub fn render(x: &BigUint, hex: Option<usize>) -> Value {
    Value::String(match hex {
        Some(n) => format!("0x{x:0>n$x}", n = n),
        None => x.to_string(),
    })
}
/// a point as the files write it
pub fn write<C: SWCurveConfig>(p: &Affine<C>, hex: Option<usize>) -> Value
where
    C::BaseField: Coords,
{
    let c = |f: &C::BaseField| {
        let v: Vec<Value> = f.ints().iter().map(|x| render(x, hex)).collect();
        if v.len() == 1 {
            v[0].clone()
        } else {
            Value::Array(v)
        }
    };
    serde_json::json!({"x": c(&p.x), "y": c(&p.y)})
}
pub fn scalar<F: PrimeField>(r: &mut Rng) -> F {
    loop {
        let x = F::from_le_bytes_mod_order(&r.bytes(48));
        if x != F::ZERO {
            return x;
        }
    }
}
/// a point of the curve whose order divides the cofactor (not the identity)
pub fn torsion<C: SWCurveConfig>(r: &mut Rng) -> Option<Affine<C>>
where
    C::BaseField: Coords,
{
    if C::cofactor_is_one() {
        return None;
    }
    loop {
        let Some(x) = C::BaseField::from_random_bytes(&r.bytes(200)[..]) else { continue };
        if let Some(p) = Affine::<C>::get_point_from_x_unchecked(x, r.chance(1, 2)) {
            // by hand: the library's multiplication may assume a point of the group
            let mut t = ark_ec::short_weierstrass::Projective::<C>::zero();
            for b in ark_ff::BitIteratorBE::new(C::ScalarField::MODULUS) {
                t.double_in_place();
                if b {
                    t += p;
                }
            }
            let t = t.into_affine();
            if !t.is_zero() {
                assert!(t.is_on_curve() && !t.is_in_correct_subgroup_assuming_on_curve());
                return Some(t);
            }
        }
    }
}

pub fn words(p: &BigUint) -> Vec<u32> {
    let mut b = p.to_bytes_le();
    b.resize(32, 0);
    b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}
pub struct Dir(pub String);
impl Dir {
    pub fn p(&self, n: &str) -> String {
        format!("{}/{n}", self.0)
    }
    pub fn json(&self, n: &str) -> Value {
        serde_json::from_slice(&fs::read(self.p(n)).unwrap()).unwrap()
    }
    pub fn put(&self, n: &str, v: &Value) {
        fs::write(self.p(n), serde_json::to_vec(v).unwrap()).unwrap()
    }
    pub fn remove(&self, n: &str) {
        let _ = fs::remove_file(self.p(n));
    }
}
/// files for a circuit: c.r1cs, c.wasm (repeats its input) and w.json
pub fn circuit(d: &Dir, c: &Program, tag: &str) {
    fs::write(d.p(&format!("{tag}.r1cs")), file(&sections(&c.spec))).unwrap();
    fs::write(d.p(&format!("{tag}.wasm")), echo::module(&words(&c.spec.prime.modulus()), &[("w".into(), c.spec.n_wires - 1)], 2)).unwrap();
}
pub fn inputs(d: &Dir, w: &[BigUint]) {
    d.put("w.json", &json!({"w": w[1..].iter().map(|x| x.to_string()).collect::<Vec<_>>()}));
}
pub fn rehex(v: &Value, hex: Option<usize>) -> Value {
    match v {
        Value::String(s) => number(s).map(|x| render(&x, hex)).unwrap_or(v.clone()),
        Value::Array(a) => Value::Array(a.iter().map(|x| rehex(x, hex)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), rehex(x, hex))).collect()),
        _ => v.clone(),
    }
}
pub fn q<K: Cv>() -> BigUint {
    // -1 is the largest
    int_of::<K::Q1>(&-<K::Q1 as Field>::ONE) + 1u32
}
pub fn int_of<F: Coords>(x: &F) -> BigUint {
    x.ints()[0].clone()
}

pub struct Setting {
    pub vk: Value,
    pub x: Value,
    pub proof: Value,
    pub hex: Option<usize>,
    pub what: String,
}
/// ways to change what is verified; each comes with its name
pub fn variants<K: Cv>(r: &mut Rng, s: &Setting, others: &[(&str, Value, Value, Value)]) -> Vec<(String, Value, Value, Value)> {
    let mut o: Vec<(String, Value, Value, Value)> = vec![];
    let m = K::PRIME.modulus();
    let xs: Vec<BigUint> = s.x.as_array().unwrap().iter().map(|v| number(v.as_str().unwrap()).unwrap()).collect();
    let render_x = |v: &[BigUint], hex: Option<usize>| Value::Array(v.iter().map(|x| render(x, hex)).collect());
    let mut x = |n: &str, v: &[BigUint], hex: Option<usize>| o.push((n.into(), s.vk.clone(), render_x(v, hex), s.proof.clone()));
    x("publics in hex", &xs, Some(64));
    // of many publics the last and some others
    let mut some: Vec<usize> = (0..xs.len()).collect();
    if some.len() > 6 {
        let last = some.pop().unwrap();
        r.shuffle(&mut some);
        some.truncate(4);
        some.push(last);
    }
    for i in some {
        let mut t = |n: &str, v: BigUint| {
            let mut y = xs.clone();
            y[i] = v;
            x(&format!("public {i} {n}"), &y, None);
        };
        t("plus one", (&xs[i] + 1u32) % &m);
        t("negated", (&m - &xs[i]) % &m);
        t("random", K::PRIME.elem(r));
        t("zero", BigUint::from(0u32));
        // the same residue, written differently
        t("plus the modulus", &xs[i] + &m);
        t("plus twice the modulus", &xs[i] + &m * 2u32);
        if i > 0 {
            let mut y = xs.clone();
            y.swap(i, i - 1);
            x("two publics exchanged", &y, None);
        }
    }
    if !xs.is_empty() {
        x("one public fewer", &xs[..xs.len() - 1], None);
        x("no publics", &[], None);
    }
    x("one public more", &[&xs[..], &[BigUint::from(0u32)]].concat(), None);
    let mut p = |n: &str, f: &dyn Fn(&mut Value)| {
        let mut v = s.proof.clone();
        f(&mut v);
        o.push((format!("proof: {n}"), s.vk.clone(), s.x.clone(), v));
    };
    let g: Proof<K> = proof(&s.proof).unwrap();
    let h = s.hex;
    p("in decimal", &|v| *v = rehex(v, None));
    p("in hexadecimal", &|v| *v = rehex(v, Some(96)));
    p("a negated", &|v| v["pi_a"] = write(&(-g.a), h));
    p("b negated", &|v| v["pi_b"] = write(&(-g.b), h));
    p("c negated", &|v| v["pi_c"] = write(&(-g.c), h));
    p("a and b negated (still a proof)", &|v| {
        v["pi_a"] = write(&(-g.a), h);
        v["pi_b"] = write(&(-g.b), h)
    });
    let k: K::F = scalar(r);
    let ki = k.inverse().unwrap();
    p("rerandomised (still a proof)", &|v| {
        v["pi_a"] = write(&(g.a * k).into_affine(), h);
        v["pi_b"] = write(&(g.b * ki).into_affine(), h)
    });
    p("a scaled", &|v| v["pi_a"] = write(&(g.a * k).into_affine(), h));
    p("c shifted", &|v| v["pi_c"] = write(&(g.c + <K::E as ark_ec::pairing::Pairing>::G1Affine::generator() * k).into_affine(), h));
    p("a and c exchanged", &|v| {
        let t = v["pi_a"].clone();
        v["pi_a"] = v["pi_c"].clone();
        v["pi_c"] = t
    });
    p("parts of b.x exchanged", &|v| v["pi_b"]["x"].as_array_mut().unwrap().swap(0, 1));
    p("x and y of a exchanged", &|v| {
        let t = v["pi_a"]["x"].clone();
        v["pi_a"]["x"] = v["pi_a"]["y"].clone();
        v["pi_a"]["y"] = t
    });
    p("a at the origin", &|v| v["pi_a"] = json!({"x": "0", "y": "0"}));
    p("a at the point (0, 1)", &|v| v["pi_a"] = json!({"x": "0", "y": "1"}));
    p("c at the point (0, 1)", &|v| v["pi_c"] = json!({"x": "0", "y": "1"}));
    p("everything (0, 0)", &|v| {
        v["pi_a"] = json!({"x": "0", "y": "0"});
        v["pi_b"] = json!({"x": ["0", "0"], "y": ["0", "0"]});
        v["pi_c"] = json!({"x": "0", "y": "0"})
    });
    for (pt, c) in [("pi_a", "x"), ("pi_a", "y"), ("pi_c", "x"), ("pi_c", "y")] {
        p(&format!("{pt}.{c} plus the modulus"), &|v| v[pt][c] = render(&(number(v[pt][c].as_str().unwrap()).unwrap() + q::<K>()), h));
    }
    let (c, i) = (*r.pick(&["x", "y"]), r.range(0, 1));
    p(&format!("pi_b.{c}[{i}] plus the modulus"), &|v| v["pi_b"][c][i] = render(&(number(v["pi_b"][c][i].as_str().unwrap()).unwrap() + q::<K>()), h));
    p("a not on the curve", &|v| v["pi_a"]["y"] = render(&((number(v["pi_a"]["y"].as_str().unwrap()).unwrap() + 1u32) % q::<K>()), h));
    if let Some(t) = torsion::<K::C1>(r) {
        p("a plus a point of another order", &|v| v["pi_a"] = write(&(g.a + t).into_affine(), h));
        p("c plus a point of another order", &|v| v["pi_c"] = write(&(g.c + t).into_affine(), h));
    }
    if let Some(t) = torsion::<K::C2>(r) {
        p("b plus a point of another order", &|v| v["pi_b"] = write(&(g.b + t).into_affine(), h));
    }
    p("a number that is none", &|v| v["pi_a"]["x"] = json!("12x"));
    p("without c", &|v| {
        v.as_object_mut().unwrap().remove("pi_c");
    });
    let mut kk = |n: &str, f: &dyn Fn(&mut Value)| {
        let mut v = s.vk.clone();
        f(&mut v);
        o.push((format!("key: {n}"), v, s.x.clone(), s.proof.clone()));
    };
    let key: Key<K> = key(&s.vk).unwrap();
    kk("in decimal", &|v| *v = rehex(v, None));
    kk("in hexadecimal", &|v| *v = rehex(v, Some(if K::PRIME == Prime::Bn254 { 64 } else { 96 })));
    kk("alpha scaled", &|v| v["vk_alpha_1"] = write(&(key.alpha * k).into_affine(), h));
    kk("beta scaled", &|v| v["vk_beta_2"] = write(&(key.beta * k).into_affine(), h));
    kk("gamma scaled", &|v| v["vk_gamma_2"] = write(&(key.gamma * k).into_affine(), h));
    kk("delta scaled", &|v| v["vk_delta_2"] = write(&(key.delta * k).into_affine(), h));
    kk("gamma and delta exchanged", &|v| {
        let t = v["vk_gamma_2"].clone();
        v["vk_gamma_2"] = v["vk_delta_2"].clone();
        v["vk_delta_2"] = t
    });
    kk("alpha scaled, beta by the inverse (the same equation)", &|v| {
        v["vk_alpha_1"] = write(&(key.alpha * k).into_affine(), h);
        v["vk_beta_2"] = write(&(key.beta * ki).into_affine(), h)
    });
    let n = key.ic.len();
    let i = r.below(n as u64) as usize;
    kk(&format!("IC {i} of {n} scaled"), &|v| v["IC"][i] = write(&(key.ic[i] * k).into_affine(), h));
    if n > 1 {
        kk("first and last of IC exchanged", &|v| v["IC"].as_array_mut().unwrap().swap(0, n - 1));
        kk("IC too short", &|v| {
            v["IC"].as_array_mut().unwrap().pop();
        });
    }
    kk("IC too long", &|v| {
        let t = v["IC"][0].clone();
        v["IC"].as_array_mut().unwrap().push(t)
    });
    for (n, vk, x, p) in others {
        o.push((n.to_string(), vk.clone(), x.clone(), p.clone()));
    }
    o
}

