//! D01: conversions and serializations of field elements and digests.
use common::{gl_val, guard, Report, Rng, P};
use ff::PrimeField;
use fields::field_gl::Fr as FGL;
use num_bigint::BigUint;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::helper::{biguint_to_be, biguint_to_fr, fr_to_biguint};
use starky::traits::{FieldExtension, MTNodeType, MerkleTree};
use starky::ElementDigest;
use starky_mon::backend::*;
use starky_mon::refhash::*;
use starky_mon::*;

/// writes the value as JSON, expects `want`, reads it back through text and through a value tree
fn json_trip<T: Serialize + DeserializeOwned>(r: &mut Report, key: &str, x: &T, want: &Value, eq: impl Fn(&T) -> bool) {
    let s = guard(|| serde_json::to_string(x).unwrap());
    let w = serde_json::to_string(want).unwrap();
    if !r.check(&format!("{key}-json"), s.as_ref() == Ok(&w), || format!("{key}: serialised as {s:?}, expected {w}")) {
        return;
    }
    let back = guard(|| serde_json::from_str::<T>(&w).map_err(|e| e.to_string()));
    r.check(&format!("{key}-json-back"), matches!(&back, Ok(Ok(y)) if eq(y)), || format!("{key}: {w} does not read back: {:?}", back.as_ref().map(|b| b.as_ref().map(|_| "a different value"))));
    let back = guard(|| serde_json::from_value::<T>(want.clone()).map_err(|e| e.to_string()));
    r.check(&format!("{key}-json-back"), matches!(&back, Ok(Ok(y)) if eq(y)), || format!("{key}: value {w} does not read back"));
    r.count("json round trips", 2);
}

fn extension<F: FieldExtension + Serialize + DeserializeOwned>(r: &mut Report, rng: &mut Rng, name: &str, n: usize, coeffs: impl Fn(&F) -> Vec<u64>, dim: impl Fn(&F) -> usize) {
    let one_dim = rng.chance(1, 3);
    let c: Vec<u64> = (0..n).map(|i| if one_dim && i > 0 { 0 } else if rng.chance(1, 4) { 0 } else { gl_val(rng) }).collect();
    let x: F = if one_dim { F::from(fe(c[0])) } else { F::from_vec(fes(&c)) };
    let d = if one_dim { 1 } else { n };
    r.check(&format!("{name}-coefficients"), coeffs(&x) == c && dim(&x) == d, || format!("{name} of {c:?} holds {:?} in dimension {}", coeffs(&x), dim(&x)));
    let want = if one_dim { json!(c[0].to_string()) } else { json!(c.iter().map(|v| v.to_string()).collect::<Vec<_>>()) };
    json_trip(r, name, &x, &want, |y: &F| coeffs(y) == c && dim(y) == d && *y == x);
    let e = x.as_elements();
    r.check(&format!("{name}-elements"), vals(&e) == c[..d], || format!("{name} {c:?}: as_elements {:?}", vals(&e)));
    if !one_dim {
        let y = F::from_vec(e.clone());
        r.check(&format!("{name}-elements"), coeffs(&y) == c && y == x, || format!("{name} {c:?}: from_vec(as_elements)"));
    }
    let txt = if one_dim { c[0].to_string() } else { format!("[{}]", c.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")) };
    r.check(&format!("{name}-display"), format!("{x}") == txt || name == "F5G", || format!("{name} {c:?} prints as {x}"));
    // bytes: equal for equal elements, different for different ones
    let bytes = |x: &F| x.as_bytes().to_vec();
    let same: F = if one_dim { F::from(fe(c[0])) } else { F::from_vec(fes(&c)) };
    r.check(&format!("{name}-bytes"), bytes(&x) == bytes(&same) && common::hash64(&x) == common::hash64(&same), || format!("{name} {c:?}: bytes differ between equal elements"));
    let j = rng.range(0, if one_dim { 0 } else { n - 1 });
    let mut c2 = c.clone();
    c2[j] = common::gl::add(c2[j], 1 + rng.below(P - 1));
    let y: F = if one_dim { F::from(fe(c2[0])) } else { F::from_vec(fes(&c2)) };
    r.check(&format!("{name}-bytes"), bytes(&x) != bytes(&y) && x != y, || format!("{name}: {c:?} and {c2:?} have the same bytes"));
    r.check(&format!("{name}-json-distinct"), serde_json::to_string(&x).unwrap() != serde_json::to_string(&y).unwrap() && format!("{x}") != format!("{y}"), || format!("{name}: {c:?} and {c2:?} have one text"));
    r.case(&(name, one_dim, c), true);
    r.count(name, 1);
}

fn gl_digest(r: &mut Report, rng: &mut Rng) {
    let mut c = [gl_val(rng), gl_val(rng), gl_val(rng), gl_val(rng)];
    match rng.below(6) {
        0 => c = [c[0], 0, 0, 0],
        1 => c[rng.range(1, 3)] = 0,
        2 => {
            // three zeros out of four, the non-zero one anywhere
            let k = rng.range(0, 3);
            for i in 0..4 {
                if i != k {
                    c[i] = 0;
                }
            }
        }
        _ => {}
    }
    let x = ElementDigest::<4, FGL>::new(&fes(&c));
    let one = c[1] == 0 && c[2] == 0 && c[3] == 0;
    let want = if one { json!(c[0].to_string()) } else { json!(c.iter().map(|v| v.to_string()).collect::<Vec<_>>()) };
    json_trip(r, "GL-digest", &x, &want, |y: &ElementDigest<4, FGL>| vals(y.as_elements()) == c && *y == x);
    r.check("GL-digest-dim", x.is_dim_1() == one, || format!("{c:?}"));
    r.check("GL-digest-display", format!("{x}").split_whitespace().map(|s| s.parse::<u64>().unwrap_or(u64::MAX)).collect::<Vec<_>>() == c, || format!("{c:?} prints as {x}"));
    let raw: [u64; 4] = x.as_scalar::<BlsFr>().as_ref().try_into().unwrap();
    r.check("GL-digest-limbs", raw == c, || format!("{c:?}: limbs {raw:?}"));
    r.case(&("gl digest", c), true);
    r.count("GL digests", 1);
}

fn scalar(rng: &mut Rng, rp: &RefPoseidon) -> U256 {
    // a Montgomery form below the modulus: boundary limbs on purpose
    loop {
        let raw: U256 = match rng.below(6) {
            0 => {
                let x = rp.f.to_mont(&from_big(&BigUint::from(rng.below(5))));
                x
            }
            1 => [gl_val(rng), gl_val(rng), gl_val(rng), gl_val(rng) >> rng.range(2, 63)],
            2 => [*rng.pick(&[0, P - 1, P - 2, 1]), *rng.pick(&[0, P - 1]), *rng.pick(&[0, P - 1]), rng.below(1 << 61)],
            3 => from_big(&(&rp.p - 1u32 - rng.below(4))),
            _ => from_big(&(BigUint::from_bytes_le(&rng.bytes(40)) % &rp.p)),
        };
        if to_big(&raw) < rp.p && raw.iter().all(|l| *l < P) {
            return raw;
        }
    }
}

fn curve<B: Backend, F: PrimeField + Default + Serialize + DeserializeOwned>(r: &mut Report, rng: &mut Rng, rp: &'static RefPoseidon, mk: impl Fn(U256) -> F)
where
    ElementDigest<4, F>: Serialize + DeserializeOwned,
    B::M: MerkleTree<BaseField = F, MTNode = ElementDigest<4, F>>,
{
    let n = B::NAME;
    let raw = scalar(rng, rp);
    let can = to_big(&rp.f.from_mont(&raw));
    let s = mk(raw);
    let got: U256 = s.into_raw_repr().as_ref().try_into().unwrap();
    r.check(&format!("{n}-raw"), got == raw, || format!("{n}: raw {raw:?} is held as {got:?}"));
    r.check(&format!("{n}-biguint"), fr_to_biguint(&s) == can, || format!("{n}: raw {raw:?} is {}, expected {can}", fr_to_biguint(&s)));
    r.check(&format!("{n}-biguint"), biguint_to_fr::<F>(&can) == s, || format!("{n}: biguint_to_fr({can})"));
    let rep: U256 = s.into_repr().as_ref().try_into().unwrap();
    r.check(&format!("{n}-repr"), to_big(&rep) == can, || format!("{n}: repr of {can} is {rep:?}"));
    json_trip(r, &format!("{n}-scalar"), &s, &json!(can.to_string()), |y: &F| *y == s);

    let d = match guard(|| ElementDigest::<4, F>::from_scalar(&s)) {
        Ok(d) => d,
        Err(e) => {
            r.violation(&format!("{n}-digest"), format!("scalar {can}: {e}"));
            return;
        }
    };
    r.check(&format!("{n}-digest"), vals(d.as_elements()) == raw, || format!("{n}: digest of {can} holds {:?}, raw limbs {raw:?}", vals(d.as_elements())));
    let l: U256 = d.as_scalar::<F>().as_ref().try_into().unwrap();
    r.check(&format!("{n}-digest-back"), l == raw, || format!("{n}: digest {raw:?} gives limbs {l:?}"));
    r.check(&format!("{n}-digest-eq"), d == ElementDigest::<4, F>::new(&fes(&raw)), || format!("{n}: {raw:?}"));
    json_trip(r, &format!("{n}-digest"), &d, &json!(can.to_string()), |y: &ElementDigest<4, F>| *y == d && vals(y.as_elements()) == raw);
    let node = B::M::from_basefield(&s);
    r.check(&format!("{n}-node"), node == d, || format!("{n}: node of {can}"));
    r.check(&format!("{n}-node"), B::M::to_basefield(&d) == vec![s], || format!("{n}: base field of {can}"));
    // another digest reads differently
    let mut raw2 = raw;
    let k = rng.range(0, 3);
    raw2[k] = common::gl::add(raw2[k], 1 + rng.below(P - 1)) >> if k == 3 { 3 } else { 0 };
    if raw2 != raw && to_big(&raw2) < rp.p {
        let e = ElementDigest::<4, F>::new(&fes(&raw2));
        r.check(&format!("{n}-digest-distinct"), e != d && serde_json::to_string(&e).unwrap() != serde_json::to_string(&d).unwrap() && e.to_string() != d.to_string(), || format!("{n}: {raw:?} and {raw2:?} read alike"));
    }
    r.case(&(n, raw), true);
    r.count(n, 1);
    if r.wants_sample() {
        r.sample(json!({"backend": n, "scalar": can.to_string(), "limbs": raw.map(|x| x.to_string())}));
    }
}

/// scalars a digest cannot hold: a limb of the Montgomery form is no Goldilocks element
fn outside<F: PrimeField + Default>(r: &mut Report, rng: &mut Rng, n: &str, rp: &'static RefPoseidon, mk: impl Fn(U256) -> F) {
    let mut raw = scalar(rng, rp);
    let k = rng.range(0, 2);
    raw[k] = P + rng.below((1 << 32) - 1);
    raw[3] >>= 1;
    let s = mk(raw);
    let back = guard(|| ElementDigest::<4, F>::from_scalar(&s).as_scalar::<F>().as_ref().to_vec());
    r.check(&format!("{n}-limb-not-below-p"), back == Ok(raw.to_vec()), || format!("{n}: the scalar with limbs {raw:?} cannot be held as a digest: {back:?}"));
    r.count("scalars with a limb >= p", 1);
}

fn trees<B: Backend>(r: &mut Report, rng: &mut Rng)
where
    B::M: Serialize + DeserializeOwned + PartialEq,
{
    let (w, h) = (rng.range(1, 9), rng.range(1, 20));
    let flat: Vec<FGL> = (0..w * h).map(|_| fe(gl_val(rng))).collect();
    let Ok(t) = guard(|| {
        let mut t = B::M::new();
        t.merkelize(flat, w, h).unwrap();
        t
    }) else {
        return;
    };
    let back = guard(|| serde_json::from_str::<B::M>(&serde_json::to_string(&t).unwrap()).map_err(|e| e.to_string()));
    let ok = matches!(&back, Ok(Ok(b)) if *b == t && B::node(&b.root()) == B::node(&t.root()) && b.element_size() == w * h);
    r.check(&format!("{}-tree", B::NAME), ok, || format!("{} tree of {w} x {h} does not survive JSON: {:?}", B::NAME, back.as_ref().map(|b| b.as_ref().map(|_| ()))));
    if let Ok(Ok(b)) = back {
        let i = rng.range(0, h - 1);
        let o = guard(|| b.get_group_proof(i).map(|(v, mp)| (vals(&v), b.verify_group_proof(&t.root(), &mp, i, &v).unwrap())).map_err(|e| e.to_string()));
        r.check(&format!("{}-tree", B::NAME), matches!(o, Ok(Ok((_, true)))), || format!("{} tree read back does not open row {i}", B::NAME));
    }
    r.count("trees", 1);
}

fn base(r: &mut Report, rng: &mut Rng) {
    let v = gl_val(rng);
    let x = fe(v);
    r.check("GL-int", x.as_int() == v, || format!("{v} reads {}", x.as_int()));
    // any integer, reduced
    let b = match rng.below(3) {
        0 => BigUint::from(rng.u64()),
        1 => BigUint::from_bytes_le(&rng.bytes(32)),
        _ => BigUint::from(P) * rng.below(5) + rng.below(4),
    };
    let y = biguint_to_be(&b);
    r.check("GL-biguint", BigUint::from(val(&y)) == &b % P, || format!("biguint_to_be({b}) = {}", val(&y)));
    let z = FGL::from_str(&v.to_string());
    r.check("GL-str", z == Some(x), || format!("from_str({v})"));
    let bin = guard(|| serde_json::from_slice::<FGL>(&serde_json::to_vec(&x).unwrap()).unwrap());
    r.check("GL-serde", bin == Ok(x), || format!("{v}: {bin:?}"));
    r.case(&("base", v), true);
}

fn malformed(r: &mut Report) {
    let p = P.to_string();
    for (what, s) in [
        ("text", "\"abc\""), ("empty", "\"\""), ("negative", "\"-1\""), ("hex", "\"0x10\""), ("float", "\"1.5\""), ("null", "null"), ("space", "\" 1\""),
        ("number of 2^64", "\"18446744073709551616\""), ("bool", "true"), ("object", "{}"),
    ] {
        r.check("malformed", common::refused(|| serde_json::from_str::<F3G>(s)), || format!("F3G from {what}: {s}"));
        r.check("malformed", common::refused(|| serde_json::from_str::<F5G>(s)), || format!("F5G from {what}: {s}"));
        if what != "number of 2^64" {
            r.check("malformed", common::refused(|| serde_json::from_str::<ElementDigest<4, BnFr>>(s)), || format!("BN254 digest from {what}: {s}"));
            r.check("malformed", common::refused(|| serde_json::from_str::<ElementDigest<4, BlsFr>>(s)), || format!("BLS12-381 digest from {what}: {s}"));
            r.check("malformed", common::refused(|| serde_json::from_str::<ElementDigest<4, FGL>>(s)), || format!("GL digest from {what}: {s}"));
            r.check("malformed", common::refused(|| serde_json::from_str::<BnFr>(s)), || format!("BN254 scalar from {what}: {s}"));
        }
        r.count("malformed inputs", 6);
    }
    for s in [format!("[\"{p}\",\"0\",\"0\"]"), format!("[\"1\",\"{p}\",\"0\"]"), "[\"1\",\"2\"]".into(), "[]".into(), "[\"1\",\"2\",\"3\",\"4\"]".into(), "[\"x\",\"2\",\"3\"]".into(), format!("\"{p}\"")] {
        r.check("malformed", common::refused(|| serde_json::from_str::<F3G>(&s)), || format!("F3G from {s}"));
    }
    for s in [format!("[\"{p}\",\"0\",\"0\",\"1\"]"), "[\"1\",\"2\",\"3\"]".into(), "[]".into(), "[\"1\",\"2\",\"3\",\"x\"]".into()] {
        r.check("malformed", common::refused(|| serde_json::from_str::<ElementDigest<4, FGL>>(&s)), || format!("GL digest from {s}"));
    }
}

fn main() {
    let mut r = Report::new("D01", "field elements (base, cubic, quintic), digests of the three backends, curve scalars and whole trees, edge-weighted; each converted to every representation and back; all non-trivial; distinct by value", (15, 300));
    let mut rng = r.rng.fork();
    r.assume("canonical integers and Montgomery forms come from independent arithmetic; panics count as refusals for malformed text");
    malformed(&mut r);
    let mut k = 0u64;
    while r.more_time(1.0) {
        for _ in 0..200 {
            base(&mut r, &mut rng);
            extension::<F3G>(&mut r, &mut rng, "F3G", 3, |x| vals(&x.cube), |x| x.dim);
            extension::<F5G>(&mut r, &mut rng, "F5G", 5, |x| vals(&x.cube), |x| x.dim);
            gl_digest(&mut r, &mut rng);
            curve::<Bn, BnFr>(&mut r, &mut rng, bn(), |x| starky::field_bn128::Fr(starky::field_bn128::FrRepr(x)));
            curve::<Bls, BlsFr>(&mut r, &mut rng, bls(), |x| mk_bls(x));
        }
        outside::<BnFr>(&mut r, &mut rng, "BN128", bn(), |x| starky::field_bn128::Fr(starky::field_bn128::FrRepr(x)));
        outside::<BlsFr>(&mut r, &mut rng, "BLS12381", bls(), mk_bls);
        k += 1;
        if k % 4 == 0 {
            trees::<Gl>(&mut r, &mut rng);
            trees::<Bn>(&mut r, &mut rng);
            trees::<Bls>(&mut r, &mut rng);
        }
    }
    r.finish()
}
/// the field's module is private: build the value from its canonical integer
fn mk_bls(raw: U256) -> BlsFr {
    BlsFr::from_str(&to_big(&bls().f.from_mont(&raw)).to_string()).unwrap()
}
