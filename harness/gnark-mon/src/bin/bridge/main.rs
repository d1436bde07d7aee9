//! K01: Groth16 keys, proofs and inputs across the gnark boundary.
//!
//! Oracle: an encoder/decoder of the snarkjs JSON layout and of the
//! Montgomery little-endian binary layout written from the format over plain
//! big integers, plus Groth16 instances simulated from a known trapdoor.
use ark_bls12_381::{Bls12_381, Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{Field, PrimeField, Zero};
use ark_groth16::{prepare_verifying_key, Groth16, Proof, VerifyingKey};
use common::{Report, Rng};
use gnark_mon::json_util::{Groth16Proof, JsonPublicInput, JsonVerificationKey};
use gnark_mon::traits::{ArkworksPairingBridge, ArkworksPrimeFieldBridge, CheckElement};
use num_bigint::BigUint;
use serde_json::{json, Value};
use std::io::Read;

mod wrap;

type Vk = JsonVerificationKey<Bls12_381>;
type Prf = Groth16Proof<Bls12_381>;
type Pubs = JsonPublicInput<Fr>;

fn q() -> BigUint {
    Fq::MODULUS.into()
}
fn big(x: &Fq) -> BigUint {
    (*x).into()
}
fn dec(x: &Fq) -> String {
    big(x).to_str_radix(10)
}
fn fq(r: &mut Rng) -> Fq {
    match r.below(8) {
        0 => Fq::from(r.below(3)),
        1 => -Fq::from(r.below(3)),
        2 => Fq::from(r.u64()),
        _ => Fq::from_le_bytes_mod_order(&r.bytes(64)),
    }
}
fn fr(r: &mut Rng) -> Fr {
    match r.below(8) {
        0 => Fr::from(r.below(3)),
        1 => -Fr::from(r.below(3)),
        2 => Fr::from(r.u64()),
        _ => Fr::from_le_bytes_mod_order(&r.bytes(64)),
    }
}
fn fr_nz(r: &mut Rng) -> Fr {
    loop {
        let x = fr(r);
        if !x.is_zero() {
            return x;
        }
    }
}
fn g1(r: &mut Rng) -> G1Affine {
    (G1Projective::generator() * fr(r)).into_affine()
}
fn g2(r: &mut Rng) -> G2Affine {
    (G2Projective::generator() * fr(r)).into_affine()
}
fn gt(r: &mut Rng) -> Fq12 {
    let mut two = || Fq2::new(fq(r), fq(r));
    let mut six = || Fq6::new(two(), two(), two());
    Fq12::new(six(), six())
}

// ------------------------------------------------------------ JSON layout
fn j1(p: &G1Affine) -> Value {
    match p.xy() {
        Some((x, y)) => json!([dec(&x), dec(&y), "1"]),
        None => json!(["0", "1", "0"]),
    }
}
fn j2(p: &G2Affine) -> Value {
    match p.xy() {
        Some((x, y)) => json!([[dec(&x.c0), dec(&x.c1)], [dec(&y.c0), dec(&y.c1)], ["1", "0"]]),
        None => json!([["0", "0"], ["1", "0"], ["0", "0"]]),
    }
}
/// in coordinates with a denominator
fn jz1(p: &G1Affine, z: Fq) -> Value {
    match p.xy() {
        Some((x, y)) => json!([dec(&(x * z.square())), dec(&(y * z.square() * z)), dec(&z)]),
        None => j1(p),
    }
}
fn jz2(p: &G2Affine, z: Fq2) -> Value {
    match p.xy() {
        Some((x, y)) => {
            let (x, y) = (x * z.square(), y * z.square() * z);
            json!([[dec(&x.c0), dec(&x.c1)], [dec(&y.c0), dec(&y.c1)], [dec(&z.c0), dec(&z.c1)]])
        }
        None => j2(p),
    }
}
fn nonzero(z: Fq) -> Fq {
    if z.is_zero() { Fq::ONE } else { z }
}
fn some_z(r: &mut Rng) -> Fq2 {
    let a = fq(r);
    match r.below(5) {
        0 => Fq2::new(Fq::zero(), Fq::ONE),
        4 if !a.is_zero() => Fq2::new(a, Fq::zero()),
        1 if !a.is_zero() => Fq2::new(Fq::zero(), a),
        2 if !a.is_zero() => Fq2::new(a, fq(r)),
        _ => Fq2::new(Fq::ONE, Fq::zero()),
    }
}
fn jt(p: &Fq12) -> Value {
    let two = |x: &Fq2| json!([dec(&x.c0), dec(&x.c1)]);
    let six = |x: &Fq6| json!([two(&x.c0), two(&x.c1), two(&x.c2)]);
    json!([six(&p.c0), six(&p.c1)])
}
fn jvk(k: &Vk) -> Value {
    json!({
        "protocol": k.protocol, "nPublic": k.n_public,
        "vk_alpha_1": j1(&k.alpha_1), "vk_beta_2": j2(&k.beta_2),
        "vk_gamma_2": j2(&k.gamma_2), "vk_delta_2": j2(&k.delta_2),
        "vk_alphabeta_12": jt(&k.alpha_beta_gt),
        "IC": k.ic.iter().map(j1).collect::<Vec<_>>(),
    })
}
fn jproof(p: &Prf) -> Value {
    json!({ "pi_a": j1(&p.pi_a), "pi_b": j2(&p.pi_b), "pi_c": j1(&p.pi_c),
            "protocol": p.protocol, "curve": p.curve })
}
fn jpubs(v: &[Fr]) -> Value {
    json!(v.iter().map(|x| BigUint::from(*x).to_str_radix(10)).collect::<Vec<_>>())
}
/// The same point in the projective form a foreign writer may use at infinity.
fn same_json_but_infinity(a: &Value, b: &Value) -> bool {
    fn zero_z(v: &Value) -> bool {
        let Some(a) = v.as_array() else { return false };
        a.len() == 3 && (a[2] == json!("0") || a[2] == json!(["0", "0"]))
    }
    if a == b || (zero_z(a) && zero_z(b)) {
        return true;
    }
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_json_but_infinity(x, y))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same_json_but_infinity(v, w)))
        }
        _ => false,
    }
}

// ---------------------------------------------------------- binary layout
fn mont(x: &Fq) -> Vec<u8> {
    le((big(x) << 384usize) % q(), 48)
}
fn le(x: BigUint, n: usize) -> Vec<u8> {
    let mut b = x.to_bytes_le();
    b.resize(n, 0);
    b
}
fn b1(p: &G1Affine) -> Vec<u8> {
    p.xy().map_or(vec![0; 96], |(x, y)| [mont(&x), mont(&y)].concat())
}
fn b2(p: &G2Affine) -> Vec<u8> {
    p.xy().map_or(vec![0; 192], |(x, y)| {
        [mont(&x.c0), mont(&x.c1), mont(&y.c0), mont(&y.c1)].concat()
    })
}
/// Hands the bytes out a few at a time, as a pipe or socket would.
struct Dribble<'a>(&'a [u8], usize);
impl Read for Dribble<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = out.len().min(self.1).min(self.0.len());
        out[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

// ------------------------------------------------------------ bad points
fn off_curve1(r: &mut Rng) -> G1Affine {
    let p = loop {
        let p = g1(r);
        if !p.is_zero() {
            break p;
        }
    };
    G1Affine::new_unchecked(p.x, p.y + Fq::from(1 + r.below(5)))
}
fn off_curve2(r: &mut Rng) -> G2Affine {
    let p = loop {
        let p = g2(r);
        if !p.is_zero() {
            break p;
        }
    };
    let e = Fq::from(1 + r.below(5));
    let d = if r.chance(1, 2) { Fq2::new(e, Fq::zero()) } else { Fq2::new(Fq::zero(), e) };
    let bad = G2Affine::new_unchecked(p.x + d, p.y);
    if bad.is_on_curve() {
        off_curve2(r)
    } else {
        bad
    }
}
fn off_group1(r: &mut Rng) -> G1Affine {
    loop {
        let x = fq(r);
        if let Some(y) = (x * x * x + Fq::from(4)).sqrt() {
            let p = G1Affine::new_unchecked(x, y);
            if p.is_on_curve() && !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
    }
}
fn off_group2(r: &mut Rng) -> G2Affine {
    loop {
        let x = Fq2::new(fq(r), fq(r));
        if let Some(y) = (x * x * x + Fq2::new(Fq::from(4), Fq::from(4))).sqrt() {
            let p = G2Affine::new_unchecked(x, y);
            if p.is_on_curve() && !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
    }
}

// --------------------------------------------------- a simulated instance
struct Instance {
    vk: Vk,
    proof: Prf,
    pubs: Vec<Fr>,
}
fn instance(r: &mut Rng) -> Instance {
    let n = r.range(0, 6) as usize;
    let pubs: Vec<Fr> = (0..n).map(|_| fr(r)).collect();
    instance_of(r, pubs)
}
fn instance_of(r: &mut Rng, pubs: Vec<Fr>) -> Instance {
    let n = pubs.len();
    let (al, be, ga, de) = (fr_nz(r), fr_nz(r), fr_nz(r), fr_nz(r));
    let ic: Vec<Fr> = (0..=n).map(|_| fr(r)).collect();
    let l = ic[0] + pubs.iter().zip(&ic[1..]).map(|(x, y)| *x * *y).sum::<Fr>();
    let (a, b) = (fr_nz(r), fr_nz(r));
    let c = (a * b - al * be - l * ga) * de.inverse().unwrap();
    let p1 = |x: Fr| (G1Projective::generator() * x).into_affine();
    let p2 = |x: Fr| (G2Projective::generator() * x).into_affine();
    let (alpha_1, beta_2) = (p1(al), p2(be));
    Instance {
        vk: Vk {
            protocol: "groth16".into(),
            n_public: n,
            alpha_1,
            beta_2,
            gamma_2: p2(ga),
            delta_2: p2(de),
            alpha_beta_gt: Bls12_381::pairing(alpha_1, beta_2).0,
            ic: ic.iter().map(|x| p1(*x)).collect(),
        },
        proof: Prf {
            pi_a: p1(a),
            pi_b: p2(b),
            pi_c: p1(c),
            protocol: "groth16".into(),
            curve: "bls12381".into(),
        },
        pubs,
    }
}
/// The pairing equation, spelled out.
fn equation(k: &Vk, p: &Prf, x: &[Fr]) -> bool {
    let l = k.ic[0].into_group() + x.iter().zip(&k.ic[1..]).map(|(x, y)| *y * *x).sum::<G1Projective>();
    Bls12_381::pairing(p.pi_a, p.pi_b).0
        == Bls12_381::pairing(k.alpha_1, k.beta_2).0
            * Bls12_381::pairing(l.into_affine(), k.gamma_2).0
            * Bls12_381::pairing(p.pi_c, k.delta_2).0
}
/// Native verification of what crossed the boundary.
fn native(k: &Vk, p: &Prf, x: &[Fr]) -> Option<bool> {
    let vk = VerifyingKey::<Bls12_381> {
        alpha_g1: k.alpha_1,
        beta_g2: k.beta_2,
        gamma_g2: k.gamma_2,
        delta_g2: k.delta_2,
        gamma_abc_g1: k.ic.clone(),
    };
    Groth16::<Bls12_381>::verify_proof(
        &prepare_verifying_key(&vk),
        &Proof { a: p.pi_a, b: p.pi_b, c: p.pi_c },
        x,
    )
    .ok()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("K02") {
        return wrap::main();
    }
    let mut rep = Report::new(
        "K01",
        "a key, proof, input vector or point written to JSON or binary and read back, against an \
         independent encoding, plus one acceptance decision or one malformed encoding; seeds \
         VERIF_SEED-derived; distinct = distinct encodings",
        (20, 240),
    );
    rep.assume("curve and pairing arithmetic of the ark crates is taken as given; what is judged is the bridge's encoding, decoding, refusal and the decision on what crossed it");
    let mut rng = Rng::new(0x4b01);
    shipped(&mut rep);
    while rep.more_time(1.0) {
        let mut r = rng.fork();
        match r.below(6) {
            0 | 1 => objects(&mut rep, &mut r),
            2 => binary(&mut rep, &mut r),
            3 => scalars(&mut rep, &mut r),
            4 => decision(&mut rep, &mut r),
            _ => malformed(&mut rep, &mut r),
        }
    }
    rep.finish();
}

fn shipped(rep: &mut Report) {
    let dir = "/repo/recursion-gnark/ffi/data";
    let read = |f: &str| std::fs::read_to_string(format!("{dir}/{f}_bls12381.json"));
    let (Ok(k), Ok(p), Ok(x)) = (read("groth16_vk"), read("proof"), read("public_inputs")) else {
        rep.note("shipped", "example files absent".into());
        return;
    };
    let Some((k2, p2, x2)) = rep.must("shipped/read", || "the shipped example".to_string(), || {
        (
            serde_json::from_str::<Vk>(&k).unwrap(),
            serde_json::from_str::<Prf>(&p).unwrap(),
            serde_json::from_str::<Pubs>(&x).unwrap(),
        )
    }) else {
        return;
    };
    let parse = |s: &str| serde_json::from_str::<Value>(s).unwrap();
    rep.case(&(&k, &p, &x), true);
    let (a, b) = (jvk(&k2), parse(&k));
    for (m, v) in a.as_object().unwrap() {
        rep.check("shipped/key", *v == b[m], || m.clone());
    }
    // the shipped files carry extra members the reader has no place for
    for m in ["pi_a", "pi_b", "pi_c", "protocol", "curve"] {
        rep.check("shipped/proof", jproof(&p2)[m] == parse(&p)[m], || m.into());
    }
    rep.check("shipped/inputs", jpubs(&x2.values) == parse(&x), || "shipped inputs".into());
    rep.note("shipped", format!("native decision on the shipped example: {:?}", {
        let mut cut = serde_json::from_str::<Vk>(&k).unwrap();
        cut.ic.truncate(x2.values.len() + 1);
        native(&cut, &p2, &x2.values)
    }).into());
}

fn objects(rep: &mut Report, r: &mut Rng) {
    let k = Vk {
        protocol: "groth16".into(),
        n_public: r.below(9) as usize,
        alpha_1: g1(r),
        beta_2: g2(r),
        gamma_2: g2(r),
        delta_2: g2(r),
        alpha_beta_gt: gt(r),
        ic: (0..r.below(6)).map(|_| g1(r)).collect(),
    };
    let p = Prf {
        pi_a: g1(r),
        pi_b: g2(r),
        pi_c: g1(r),
        protocol: "groth16".into(),
        curve: ["bls12381", "bn128", ""][r.below(3) as usize].into(),
    };
    let x: Vec<Fr> = (0..r.below(6)).map(|_| fr(r)).collect();
    let inf = k.ic.iter().chain([&k.alpha_1, &p.pi_a, &p.pi_c]).filter(|p| p.is_zero()).count()
        + [&k.beta_2, &k.gamma_2, &k.delta_2, &p.pi_b].iter().filter(|p| p.is_zero()).count();
    rep.case(&format!("{}{}{}", jvk(&k), jproof(&p), jpubs(&x)), true);
    rep.count("points at infinity", inf as u64);
    rep.observe("ic length", &k.ic.len());
    let what = || format!("key {} proof {}", jvk(&k), jproof(&p));
    if rep.wants_sample() {
        rep.sample(what().into());
    }
    // what is written is the format's encoding of these very values
    if let Some(s) = rep.must("write/key", what, || serde_json::to_string(&k).unwrap()) {
        let v: Value = serde_json::from_str(&s).unwrap();
        rep.check("write/key", same_json_but_infinity(&v, &jvk(&k)), || format!("{v} for {}", jvk(&k)));
        let back = rep.must("read/key", what, || Vk::from_reader(Dribble(s.as_bytes(), 7)).unwrap());
        rep.check("roundtrip/key", back.is_none_or(|b| b == k), what);
    }
    if let Some(s) = rep.must("write/proof", what, || serde_json::to_string(&p).unwrap()) {
        let v: Value = serde_json::from_str(&s).unwrap();
        rep.check("write/proof", same_json_but_infinity(&v, &jproof(&p)), || format!("{v} for {}", jproof(&p)));
        let back = rep.must("read/proof", what, || serde_json::from_str::<Prf>(&s).unwrap());
        rep.check("roundtrip/proof", back.is_none_or(|b| b == p), what);
    }
    let xs = Pubs { values: x.clone() };
    if let Some(s) = rep.must("write/inputs", what, || serde_json::to_string(&xs).unwrap()) {
        let v: Value = serde_json::from_str(&s).unwrap();
        rep.check("write/inputs", v == jpubs(&x), || format!("{v} for {x:?}"));
        let back = rep.must("read/inputs", what, || serde_json::from_str::<Pubs>(&s).unwrap());
        rep.check("roundtrip/inputs", back.is_none_or(|b| b == xs), what);
    }
    // and the format's encoding of these values is read as them
    let back = rep.must("decode/key", what, || serde_json::from_value::<Vk>(jvk(&k)).unwrap());
    rep.check("decode/key", back.is_none_or(|b| b == k), what);
    let back = rep.must("decode/proof", what, || serde_json::from_value::<Prf>(jproof(&p)).unwrap());
    rep.check("decode/proof", back.is_none_or(|b| b == p), what);
    // the same points under other projective coordinates
    let mut kz = jvk(&k);
    kz["vk_alpha_1"] = jz1(&k.alpha_1, nonzero(fq(r)));
    kz["vk_beta_2"] = jz2(&k.beta_2, some_z(r));
    kz["vk_delta_2"] = jz2(&k.delta_2, some_z(r));
    for (n, p) in k.ic.iter().enumerate() {
        kz["IC"][n] = jz1(p, nonzero(fq(r)));
    }
    let pz = json!({"pi_a": jz1(&p.pi_a, nonzero(fq(r))), "pi_b": jz2(&p.pi_b, some_z(r)), "pi_c": jz1(&p.pi_c, nonzero(fq(r))), "protocol": p.protocol, "curve": p.curve});
    let what = || format!("key {kz} proof {pz}");
    let back = rep.must("decode/projective-key", what, || serde_json::from_value::<Vk>(kz.clone()).unwrap());
    rep.check("decode/projective-key", back.is_none_or(|b| b == k), what);
    let back = rep.must("decode/projective-proof", what, || serde_json::from_value::<Prf>(pz.clone()).unwrap());
    rep.check("decode/projective-proof", back.is_none_or(|b| b == p), what);
    let what = || format!("key {} proof {}", jvk(&k), jproof(&p));
    let back = rep.must("decode/inputs", what, || serde_json::from_value::<Pubs>(jpubs(&x)).unwrap());
    rep.check("decode/inputs", back.is_none_or(|b| b.values == x), what);
    // one scalar on its own
    let s = fr(r);
    let js = rep.must("write/scalar", what, || {
        let mut out = vec![];
        Bls12_381::serialize_fr(&s, &mut serde_json::Serializer::new(&mut out)).unwrap();
        serde_json::from_slice::<Value>(&out).unwrap()
    });
    if let Some(js) = js {
        rep.check("write/scalar", json!([js]) == jpubs(&[s]), || format!("{js} for {s}"));
        let b = rep.must("read/scalar", what, || Bls12_381::deserialize_fr_element(js).unwrap());
        rep.check("roundtrip/scalar", b.is_none_or(|b| b == s), || s.to_string());
    }
}

fn check_of(r: &mut Rng) -> CheckElement {
    if r.chance(1, 2) {
        CheckElement::Yes
    } else {
        CheckElement::No
    }
}

fn binary(rep: &mut Report, r: &mut Rng) {
    let n = *r.pick(&[0usize, 1, 2, 3, 7, 16, 33]);
    let ps: Vec<G1Affine> = (0..n).map(|_| g1(r)).collect();
    let qs: Vec<G2Affine> = (0..n).map(|_| g2(r)).collect();
    let bp: Vec<u8> = ps.iter().flat_map(b1).collect();
    let bq: Vec<u8> = qs.iter().flat_map(b2).collect();
    rep.case(&(&bp, &bq), n > 0);
    rep.observe("points per vector", &n);
    let c = check_of(r);
    let step = *r.pick(&[1usize, 5, 48, 95, 1000]);
    let what = || format!("{n} points, {c:?}, {step} bytes at a time: {ps:?} {qs:?}");
    let back = rep.must("binary/g1", what, || {
        Bls12_381::g1_vec_from_reader(Dribble(&bp, step), n, c).unwrap()
    });
    rep.check("binary/g1", back.is_none_or(|b| b == ps), what);
    let back = rep.must("binary/g2", what, || {
        Bls12_381::g2_vec_from_reader(Dribble(&bq, step), n, c).unwrap()
    });
    rep.check("binary/g2", back.is_none_or(|b| b == qs), what);
    // one at a time, from one stream
    let back = rep.must("binary/stream", what, || {
        let (mut s, mut t) = (Dribble(&bp, step), Dribble(&bq, step));
        let a: Vec<_> = (0..n).map(|_| Bls12_381::g1_from_reader(&mut s, c).unwrap()).collect();
        let b: Vec<_> = (0..n).map(|_| Bls12_381::g2_from_reader(&mut t, c).unwrap()).collect();
        (a, b)
    });
    rep.check("binary/stream", back.is_none_or(|b| b == (ps.clone(), qs.clone())), what);
    // too few bytes
    if n > 0 {
        let cut = r.range(1, 96) as usize;
        let short = &bp[..bp.len() - cut];
        let e = rep.must("binary/short", what, || Bls12_381::g1_vec_from_reader(short, n, c).is_err());
        rep.check("binary/short", e != Some(false), what);
        let short = &bq[..bq.len() - cut];
        let e = rep.must("binary/short", what, || Bls12_381::g2_vec_from_reader(short, n, c).is_err());
        rep.check("binary/short", e != Some(false), what);
        let e = rep.must("binary/short", what, || {
            Bls12_381::g1_from_reader(&bp[..96 - cut], c).is_err()
                && Bls12_381::g2_from_reader(&bq[..192 - cut], c).is_err()
        });
        rep.check("binary/short", e != Some(false), what);
        rep.count("truncated vectors", 2);
        // a bad point among good ones
        let at = r.below(n as u64) as usize;
        let bad1 = if r.chance(1, 2) { off_curve1(r) } else { off_group1(r) };
        let bad2 = if r.chance(1, 2) { off_curve2(r) } else { off_group2(r) };
        let (mut mp, mut mq) = (bp.clone(), bq.clone());
        mp[at * 96..][..96].copy_from_slice(&b1(&bad1));
        mq[at * 192..][..192].copy_from_slice(&b2(&bad2));
        let what = || format!("bad point {at} of {n}: {bad1:?} {bad2:?}");
        let e = rep.must("binary/bad-g1", what, || {
            Bls12_381::g1_vec_from_reader(&mp[..], n, CheckElement::Yes).is_err()
        });
        rep.check("binary/bad-g1", e != Some(false), what);
        let e = rep.must("binary/bad-g2", what, || {
            Bls12_381::g2_vec_from_reader(&mq[..], n, CheckElement::Yes).is_err()
        });
        rep.check("binary/bad-g2", e != Some(false), what);
        rep.count("bad points", 2);
    }
}

fn scalars(rep: &mut Report, r: &mut Rng) {
    let (s, t) = (fr(r), fq(r));
    let (sb, tb) = (BigUint::from(s), big(&t));
    let m: BigUint = Fr::MODULUS.into();
    rep.case(&(sb.clone(), tb.clone()), true);
    let what = || format!("{s} {t}");
    let step = *r.pick(&[1usize, 5, 32, 48]);
    let rd = |b: Vec<u8>| -> Vec<u8> { b };
    let sm = rd(le((&sb << 256usize) % &m, 32));
    let sz = rd(le((&sb << 512usize) % &m, 32));
    let tm = rd(le((&tb << 384usize) % q(), 48));
    let tz = rd(le((&tb << 768usize) % q(), 48));
    let (s0, t0) = (le(sb, 32), le(tb, 48));
    let got = rep.must("scalar/read", what, || {
        (
            [
                Fr::from_reader(Dribble(&s0, step)).unwrap(),
                Fr::montgomery_bigint_from_reader(Dribble(&sm, step)).unwrap(),
                Fr::from_reader_for_groth16_zkey(Dribble(&sz, step)).unwrap(),
            ],
            [
                Fq::from_reader(Dribble(&t0, step)).unwrap(),
                Fq::montgomery_bigint_from_reader(Dribble(&tm, step)).unwrap(),
                Fq::from_reader_for_groth16_zkey(Dribble(&tz, step)).unwrap(),
            ],
        )
    });
    rep.check("scalar/value", got.is_none_or(|g| g == ([s; 3], [t; 3])), what);
    let cut = r.range(1, 32) as usize;
    let e = rep.must("scalar/short", what, || {
        Fr::from_reader(&s0[..32 - cut]).is_err()
            && Fr::montgomery_bigint_from_reader(&sm[..32 - cut]).is_err()
            && Fr::from_reader_for_groth16_zkey(&sz[..32 - cut]).is_err()
            && Fq::from_reader(&t0[..48 - cut]).is_err()
            && Fq::montgomery_bigint_from_reader(&tm[..48 - cut]).is_err()
            && Fq::from_reader_for_groth16_zkey(&tz[..48 - cut]).is_err()
    });
    rep.check("scalar/short", e != Some(false), what);
    rep.count("truncated scalars", 6);
    // representatives of the modulus and above are not residues
    let up = BigUint::from(*r.pick(&[0u64, 0, 1, 2, 1 << 33]));
    let (sw, tw) = (le(&m + &up, 32), le(q() + &up, 48));
    let e = rep.must("scalar/wide", what, || {
        Fr::montgomery_bigint_from_reader(&sw[..]).is_err()
            && Fr::from_reader_for_groth16_zkey(&sw[..]).is_err()
            && Fq::montgomery_bigint_from_reader(&tw[..]).is_err()
            && Fq::from_reader_for_groth16_zkey(&tw[..]).is_err()
    });
    rep.check("scalar/wide", e != Some(false), || format!("the modulus plus {up} read as a residue"));
    rep.count("wide scalars", 4);
}

fn decision(rep: &mut Report, r: &mut Rng) {
    let mut i = instance(r);
    let (sk, sp, sx) = (
        serde_json::to_string(&i.vk).unwrap_or_default(),
        serde_json::to_string(&i.proof).unwrap_or_default(),
        jpubs(&i.pubs).to_string(),
    );
    rep.case(&format!("{sk}{sp}{sx}"), true);
    let what = || format!("key {sk} proof {sp} inputs {sx}");
    let cross = |rep: &mut Report, k: &str, p: &str, x: &str| {
        rep.must("decision/read", what, || {
            let k = serde_json::from_str::<Vk>(k).unwrap();
            let p = serde_json::from_str::<Prf>(p).unwrap();
            let x = serde_json::from_str::<Pubs>(x).unwrap().values;
            (native(&k, &p, &x), k.alpha_beta_gt == Bls12_381::pairing(k.alpha_1, k.beta_2).0)
        })
    };
    if let Some((d, g)) = cross(rep, &sk, &sp, &sx) {
        rep.check("decision/valid", d == Some(true) && g, what);
        rep.count("valid proofs accepted", 1);
    }
    // one element altered
    let m = r.below(9);
    match m {
        0 => i.proof.pi_a = g1(r),
        1 => i.proof.pi_b = g2(r),
        2 => i.proof.pi_c = g1(r),
        3 => i.vk.alpha_1 = g1(r),
        4 => i.vk.beta_2 = g2(r),
        5 => i.vk.gamma_2 = g2(r),
        6 => i.vk.delta_2 = g2(r),
        7 => {
            let at = r.below(i.vk.ic.len() as u64) as usize;
            i.vk.ic[at] = g1(r)
        }
        _ => {
            if i.pubs.is_empty() {
                return;
            }
            let at = r.below(i.pubs.len() as u64) as usize;
            i.pubs[at] += fr_nz(r)
        }
    }
    i.vk.alpha_beta_gt = Bls12_381::pairing(i.vk.alpha_1, i.vk.beta_2).0;
    let want = equation(&i.vk, &i.proof, &i.pubs);
    let (k, p, x) = (jvk(&i.vk).to_string(), jproof(&i.proof).to_string(), jpubs(&i.pubs).to_string());
    rep.observe("altered", &m);
    if let Some((d, g)) = cross(rep, &k, &p, &x) {
        rep.check("decision/altered", d == Some(want) && g, || format!("alteration {m}: {d:?}, equation {want}; {k} {p} {x}"));
        rep.count("altered instances decided", 1);
    }
}

fn malformed(rep: &mut Report, r: &mut Rng) {
    let i = instance(r);
    let (mut k, mut p, mut x) = (jvk(&i.vk), jproof(&i.proof), jpubs(&i.pubs));
    let kind = r.below(8);
    // where a point or coordinate is replaced
    let g1_at: Vec<(u8, Vec<String>)> = [(0, "vk_alpha_1"), (1, "pi_a"), (1, "pi_c")]
        .iter()
        .map(|(w, n)| (*w, vec![n.to_string()]))
        .chain((0..i.vk.ic.len()).map(|n| (0, vec!["IC".into(), n.to_string()])))
        .collect();
    let g2_at: Vec<(u8, Vec<String>)> =
        [(0, "vk_beta_2"), (0, "vk_gamma_2"), (0, "vk_delta_2"), (1, "pi_b")]
            .iter()
            .map(|(w, n)| (*w, vec![n.to_string()]))
            .collect();
    let two = r.chance(1, 2);
    let (w, path) = if two { r.pick(&g2_at).clone() } else { r.pick(&g1_at).clone() };
    let place = format!("{}{}", path[0], path.get(1).map_or("", |_| "[i]"));
    {
        let mut at = if w == 0 { &mut k } else { &mut p };
        for s in &path {
            at = match s.parse::<usize>() {
                Ok(n) => &mut at[n],
                Err(_) => &mut at[s.as_str()],
            };
        }
        match kind {
            0 => *at = if two { jz2(&off_curve2(r), some_z(r)) } else { jz1(&off_curve1(r), nonzero(fq(r))) },
            1 => *at = if two { jz2(&off_group2(r), some_z(r)) } else { jz1(&off_group1(r), nonzero(fq(r))) },
            2 => {
                let bad = r.pick(&["", "x", "12z", "0x10", "1.5", "1e3", " 7", "--1", "ten"]).to_string();
                let c = r.below(3) as usize;
                let c = if two { &mut at[c][r.below(2) as usize] } else { &mut at[c] };
                *c = json!(bad);
            }
            3 => {
                at.as_array_mut().unwrap().pop();
            }
            4 => {
                let e = at[2].clone();
                at.as_array_mut().unwrap().push(e);
            }
            5 => {
                let c = r.below(3) as usize;
                if two && r.chance(2, 3) {
                    let v = at[c].as_array_mut().unwrap();
                    if r.chance(1, 2) {
                        v.pop();
                    } else {
                        v.push(json!("0"));
                    }
                } else {
                    at[c] = json!(3);
                }
            }
            6 => {
                let g = &mut k["vk_alphabeta_12"];
                let (a, b) = (r.below(2) as usize, r.below(3) as usize);
                match r.below(7) {
                    0 => g[a][b][r.below(2) as usize] = json!("q"),
                    3 => g[a][b].as_array_mut().unwrap().push(json!("0")),
                    4 => g[a].as_array_mut().unwrap().push(json!(["0", "0"])),
                    5 => {
                        let e = g[0].clone();
                        g.as_array_mut().unwrap().push(e);
                    }
                    1 => {
                        g[a][b].as_array_mut().unwrap().pop();
                    }
                    2 => {
                        g[a].as_array_mut().unwrap().pop();
                    }
                    _ => {
                        g.as_array_mut().unwrap().pop();
                    }
                }
            }
            _ => {
                let bad = r.pick(&["", "x", "12z", "0x10", "1.5"]).to_string();
                let at = r.below(i.pubs.len() as u64 + 1) as usize;
                x.as_array_mut().unwrap().insert(at, json!(bad));
            }
        }
    }
    let w = match kind {
        6 => 0,
        7 => 2,
        _ => w,
    };
    let text = [k.to_string(), p.to_string(), x.to_string()][w as usize].clone();
    rep.case(&text, true);
    rep.observe("malformed", &(kind, if kind < 6 { place.clone() } else { String::new() }));
    let what = || format!("kind {kind} at {place}: {text}");
    let refused = rep.must("malformed/panic", what, || match w {
        0 => serde_json::from_str::<Vk>(&text).is_err(),
        1 => serde_json::from_str::<Prf>(&text).is_err(),
        _ => serde_json::from_str::<Pubs>(&text).is_err(),
    });
    rep.check("malformed/accepted", refused != Some(false), what);
    rep.count("malformed documents", 1);
    // a binary coordinate that is not a residue: the representative of p or more
    let pt = g1(r);
    if let Some((cx, cy)) = pt.xy() {
        let wide = |c: &Fq| le((big(c) << 384usize) % q() + q(), 48);
        let bytes = if r.chance(1, 2) { [wide(&cx), mont(&cy)] } else { [mont(&cx), wide(&cy)] }.concat();
        let what = || format!("coordinate above the modulus in {pt:?}");
        let e = rep.must("binary/wide", what, || {
            Bls12_381::g1_from_bytes(&bytes, CheckElement::Yes).is_err()
        });
        rep.check("binary/wide", e != Some(false), what);
        rep.count("wide coordinates", 1);
    }
}
