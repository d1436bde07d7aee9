//! G01: Groth16 by the file and in-memory interfaces, against a pairing check of our own.


use common::{refused, Report, Rng};
use groth16::api::{groth16_prove, groth16_prove_inplace, groth16_setup, groth16_setup_inplace, groth16_verify, groth16_verify_inplace, SetupResult};
use groth16::bellman_ce::{bls12_381::Bls12, bn256::Bn256};
use groth16::json_utils::{serialize_proof, serialize_vk, to_proof, to_verification_key};
use groth_mon::*;
use num_bigint::BigUint;
use r1cs_mon::{echo, file, sections, Prime};
use serde_json::{json, Value};
use std::fs;

fn verify<K: Cv>(d: &Dir, vk: &Value, x: &Value, p: &Value) -> bool {
    d.put("t.vk", vk);
    d.put("t.pub", x);
    d.put("t.proof", p);
    !refused(|| groth16_verify(K::NAME, &d.p("t.vk"), &d.p("t.pub"), &d.p("t.proof")))
}
/// the same question by the other interface
fn verify_inplace<K: Cv>(d: &Dir, vk: &Value, x: &Value, p: &Value) -> bool {
    d.put("t.pub", x);
    d.put("t.proof", p);
    let s = vk.to_string();
    !refused(|| match K::PRIME {
        Prime::Bn254 => groth16_verify_inplace(to_verification_key::<Bn256>(&s), &d.p("t.pub"), &d.p("t.proof")),
        _ => groth16_verify_inplace(to_verification_key::<Bls12>(&s), &d.p("t.pub"), &d.p("t.proof")),
    })
}
/// every coordinate in a value, in the order of the binary form
fn ints(vk: &Value) -> Option<Vec<BigUint>> {
    let mut o = vec![];
    let mut g1 = |p: &Value, o: &mut Vec<BigUint>| -> Option<()> {
        for c in ["x", "y"] {
            o.push(number(p[c].as_str()?)?);
        }
        Some(())
    };
    let g2 = |p: &Value, o: &mut Vec<BigUint>| -> Option<()> {
        for c in ["x", "y"] {
            for k in [1, 0] {
                o.push(number(p[c][k].as_str()?)?);
            }
        }
        Some(())
    };
    g1(&vk["vk_alpha_1"], &mut o)?;
    g1(&vk["vk_beta_1"], &mut o)?;
    g2(&vk["vk_beta_2"], &mut o)?;
    g2(&vk["vk_gamma_2"], &mut o)?;
    g1(&vk["vk_delta_1"], &mut o)?;
    g2(&vk["vk_delta_2"], &mut o)?;
    for p in vk["IC"].as_array()? {
        g1(p, &mut o)?;
    }
    Some(o)
}
fn binary(b: &[u8], n: usize, n_ic: usize) -> Vec<BigUint> {
    let g = |from: usize, k: usize| (0..k).map(move |i| BigUint::from_bytes_be(&b[from + n * i..from + n * (i + 1)]));
    let head = 2 + 2 + 4 + 4 + 2 + 4;
    g(0, head).chain(g(head * n + 4, 2 * n_ic)).collect()
}
fn strings(v: &Value, f: &mut dyn FnMut(&str)) {
    match v {
        Value::String(s) => f(s),
        Value::Array(a) => a.iter().for_each(|x| strings(x, f)),
        Value::Object(o) => o.iter().filter(|x| x.0 != "protocol" && x.0 != "curve").for_each(|x| strings(x.1, f)),
        _ => f("?"),
    }
}
fn verdicts<K: Cv>(rep: &mut Report, d: &Dir, s: &Setting, others: &[(&str, Value, Value, Value)]) {
    let honest = accepts::<K>(&s.vk, &s.x, &s.proof);
    rep.check("an honest proof satisfies the pairing equation", honest, || format!("{}: vk {} publics {} proof {}", s.what, s.vk, s.x, s.proof));
    if !honest {
        return;
    }
    let mut rng = rep.rng.fork();
    let mut all = variants::<K>(&mut rng, s, others);
    rng.shuffle(&mut all);
    all.insert(0, ("unchanged".into(), s.vk.clone(), s.x.clone(), s.proof.clone()));
    for (n, vk, x, p) in all {
        rep.beat(&n);
        let want = accepts::<K>(&vk, &x, &p);
        let class: String = n.chars().filter(|c| !c.is_ascii_digit()).collect();
        let by_file = rng.chance(1, 2);
        let got = if by_file { verify::<K>(d, &vk, &x, &p) } else { verify_inplace::<K>(d, &vk, &x, &p) };
        let how = if by_file { "groth16_verify" } else { "groth16_verify_inplace" };
        rep.check(&format!("verification says what the pairing equation says ({class})"), got == want, || {
            format!("{} {n}: {how} {} but the equation {}: vk {vk} publics {x} proof {p}", s.what, if got { "accepts" } else { "refuses" }, if want { "holds" } else { "does not" })
        });
        rep.case(&(x.to_string(), p.to_string(), vk.to_string()), true);
        rep.observe(if want { "accepted" } else { "refused" }, &class);
        rep.count(if want { "verifications accepted" } else { "verifications refused" }, 1);
    }
}

fn portable<K: Cv>(rep: &mut Report, d: &Dir, hex: bool, n_pub: usize, what: &str) {
    let vk = d.json("vk.json");
    let n = (q::<K>().bits() as usize).div_ceil(8);
    let bin = binary(&fs::read(d.p("pk.bin")).unwrap(), n, n_pub + 1);
    rep.check("the JSON key is the binary key", ints(&vk).as_ref() == Some(&bin), || format!("{what}: {vk} against {bin:?}"));
    rep.check("the key has one point per public and one", vk["IC"].as_array().map(|a| a.len()) == Some(n_pub + 1), || format!("{what}: {vk}"));
    for (name, v) in [("vk", &vk), ("proof", &d.json("proof.json"))] {
        rep.check("labels of a file", v["protocol"] == "groth16" && v["curve"] == K::NAME, || format!("{what}: {v}"));
        let mut ok = true;
        strings(v, &mut |s| ok &= number(s).map(|x| x < q::<K>()).unwrap_or(false) && s.starts_with("0x") == hex && (!hex || s.len() == 2 * n + 2));
        rep.check("numbers of a file", ok, || format!("{what}: hex {hex}: {name} {v}"));
    }
    // reading and writing again, in either base
    for h in [true, false] {
        let (p, k) = (d.json("proof.json").to_string(), vk.to_string());
        let again = common::guard(|| match K::PRIME {
            Prime::Bn254 => (serialize_proof(&to_proof::<Bn256>(&p), K::NAME, h).unwrap(), serialize_vk(&to_verification_key::<Bn256>(&k), K::NAME, h).unwrap()),
            _ => (serialize_proof(&to_proof::<Bls12>(&p), K::NAME, h).unwrap(), serialize_vk(&to_verification_key::<Bls12>(&k), K::NAME, h).unwrap()),
        });
        let want = (rehex(&d.json("proof.json"), h.then_some(2 * n)), rehex(&vk, h.then_some(2 * n)));
        let got = again.clone().ok().map(|(p, k)| (serde_json::from_str::<Value>(&p).unwrap(), serde_json::from_str::<Value>(&k).unwrap()));
        rep.check("a proof and a key survive reading and writing", got == Some(want), || format!("{what}: {p} {k} became {again:?}"));
    }
}

fn round<K: Cv>(rep: &mut Report, d: &Dir) {
    let big = rep.rng.chance(1, 10);
    let hex = rep.rng.chance(1, 2);
    let mut r = rep.rng.fork();
    let c = program(&mut r, K::PRIME, big);
    circuit(d, &c, "c");
    let what = format!("{} wires {} out {} in {} private {} constraints {}", K::NAME, c.spec.n_wires, c.spec.n_pub_out, c.spec.n_pub_in, c.spec.n_prv_in, c.spec.constraints.len());
    rep.beat(&what);
    let p = |n: &str| d.p(n);
    let set = |d: &Dir, pk: &str, vk: &str| groth16_setup(K::NAME, &d.p("c.r1cs"), &d.p(pk), &d.p(vk), hex);
    let mut inp = |r: &mut Rng| -> Vec<BigUint> { c.inputs().map(|_| K::PRIME.elem(r)).collect() };
    let w = c.witness(&inp(&mut r));
    inputs(d, &w);
    for f in ["pk.bin", "vk.json", "proof.json", "public.json"] {
        d.remove(f);
    }
    let ok = rep.must("a circuit is set up and a witness proved", || what.clone(), || {
        set(d, "pk.bin", "vk.json").map_err(|e| format!("setup {e:?}"))?;
        groth16_prove(K::NAME, &p("c.r1cs"), &p("c.wasm"), &p("pk.bin"), &p("w.json"), &p("public.json"), &p("proof.json"), hex).map_err(|e| format!("prove {e:?}"))
    });
    match ok {
        Some(Ok(())) => {}
        e => {
            if let Some(Err(e)) = e {
                rep.violation("a circuit is set up and a witness proved", format!("{what}: {e}"));
            }
            return;
        }
    }
    rep.count("circuits set up", 1);
    rep.observe("numbers of publics", &c.n_pub());
    let n_pub = c.n_pub();
    let want: Vec<Value> = w[1..1 + n_pub].iter().map(|x| json!(x.to_string())).collect();
    let x = d.json("public.json");
    rep.check("the public inputs are those of the witness", x == Value::Array(want.clone()), || format!("{what}: {x} for {want:?}"));
    portable::<K>(rep, d, hex, n_pub, &what);
    let n = (q::<K>().bits() as usize).div_ceil(8);
    let s = Setting { vk: d.json("vk.json"), x, proof: d.json("proof.json"), hex: hex.then_some(2 * n), what: what.clone() };
    // a second witness, a second key and a second circuit
    let w2 = c.witness(&inp(&mut r));
    inputs(d, &w2);
    let res = common::guard(|| groth16_prove(K::NAME, &p("c.r1cs"), &p("c.wasm"), &p("pk.bin"), &p("w.json"), &p("public.json"), &p("proof.json"), !hex));
    rep.check("a second witness is proved with the same key", matches!(res, Ok(Ok(_))), || format!("{what}: {res:?}"));
    let (x2, p2) = (d.json("public.json"), d.json("proof.json"));
    rep.check("an honest proof satisfies the pairing equation", accepts::<K>(&s.vk, &x2, &p2), || format!("{what}: second witness: {x2} {p2}"));
    let res = common::guard(|| set(d, "pk2.bin", "vk2.json"));
    rep.check("a circuit can be set up twice", matches!(res, Ok(Ok(_))), || format!("{what}: {res:?}"));
    let vk2 = d.json("vk2.json");
    let mut mixed = s.proof.clone();
    mixed["pi_c"] = rehex(&p2["pi_c"], s.hex);
    let mut others = vec![
        ("another statement's proof", s.vk.clone(), s.x.clone(), p2.clone()),
        ("another statement's publics", s.vk.clone(), x2.clone(), s.proof.clone()),
        ("another statement", s.vk.clone(), x2.clone(), p2.clone()),
        ("another key of the circuit", vk2.clone(), s.x.clone(), s.proof.clone()),
        ("a mixture of two proofs", s.vk.clone(), s.x.clone(), mixed),
    ];
    // an assignment that breaks some constraints
    let mut bad = w.clone();
    let at = r.range(1, bad.len() - 1);
    bad[at] = K::PRIME.elem(&mut r);
    let sat = c.spec.constraints.iter().all(|k| r1cs_mon::holds(&[r1cs_mon::sorted(&k[0]), r1cs_mon::sorted(&k[1]), r1cs_mon::sorted(&k[2])], &bad, &K::PRIME.modulus()));
    if !sat {
        inputs(d, &bad);
        d.remove("bad.json");
        d.remove("badp.json");
        let made = common::guard(|| groth16_prove(K::NAME, &p("c.r1cs"), &p("c.wasm"), &p("pk.bin"), &p("w.json"), &p("badp.json"), &p("bad.json"), hex));
        if let Ok(Ok(())) = made {
            let (xb, pb) = (d.json("badp.json"), d.json("bad.json"));
            rep.check("a false assignment gives no proof", !accepts::<K>(&s.vk, &xb, &pb) && !verify::<K>(d, &s.vk, &xb, &pb), || {
                format!("{what}: wire {at} changed: publics {xb} proof {pb} vk {}", s.vk)
            });
            rep.count("false assignments tried", 1);
            others.push(("the proof of a false assignment", s.vk.clone(), s.x.clone(), pb));
        }
    }
    // in memory
    inputs(d, &w);
    let in_place = common::guard(|| -> anyhow::Result<(String, Value)> {
        d.remove("public.json");
        d.remove("proof.json");
        let vk = match groth16_setup_inplace(K::NAME, &p("c.r1cs"))? {
            SetupResult::BN128(c, pk, vk) => {
                groth16_prove_inplace(K::NAME, c, &p("c.wasm"), pk, &p("w.json"), &p("public.json"), &p("proof.json"), hex)?;
                let s = serialize_vk(&vk, K::NAME, hex)?;
                groth16_verify_inplace(vk, &p("public.json"), &p("proof.json"))?;
                s
            }
            SetupResult::BLS12381(c, pk, vk) => {
                groth16_prove_inplace(K::NAME, c, &p("c.wasm"), pk, &p("w.json"), &p("public.json"), &p("proof.json"), hex)?;
                let s = serialize_vk(&vk, K::NAME, hex)?;
                groth16_verify_inplace(vk, &p("public.json"), &p("proof.json"))?;
                s
            }
        };
        Ok((vk, d.json("public.json")))
    });
    match in_place {
        Ok(Ok((vk3, x3))) => {
            let (vk3, p3): (Value, Value) = (serde_json::from_str(&vk3).unwrap(), d.json("proof.json"));
            rep.check("the public inputs are those of the witness", x3 == s.x, || format!("{what}: in memory: {x3}"));
            rep.check("an honest proof satisfies the pairing equation", accepts::<K>(&vk3, &x3, &p3), || format!("{what}: in memory: {vk3} {x3} {p3}"));
            others.push(("a key made in memory", vk3.clone(), s.x.clone(), s.proof.clone()));
            others.push(("a proof made in memory", s.vk.clone(), s.x.clone(), p3.clone()));
            others.push(("key and proof made in memory", vk3, x3, p3));
            rep.count("in-memory proofs", 1);
        }
        e => rep.violation("a circuit is set up, proved and verified in memory", format!("{what}: {:?}", e.map(|r| r.map(|_| ())))),
    }
    if rep.wants_sample() {
        rep.sample(json!({"circuit": what, "hex": hex, "publics": s.x, "proof a": s.proof["pi_a"]}));
    }
    verdicts::<K>(rep, d, &s, &others);
    // the wrong curve and no curve
    let other = if K::NAME == "BN128" { "BLS12381" } else { "BN128" };
    d.put("t.vk", &s.vk);
    d.put("t.pub", &s.x);
    d.put("t.proof", &s.proof);
    for n in [other, "bn128", "", "BLS12377"] {
        rep.check("another curve's name is refused", refused(|| groth16_verify(n, &d.p("t.vk"), &d.p("t.pub"), &d.p("t.proof"))), || format!("{what}: as {n:?}"));
    }
}

fn main() {
    let mut rep = Report::new(
        "G01",
        "circuits drawn at random (computed wires, random linear combinations, up to 130 wires) on BN254 and BLS12-381, set up, proved (files and in memory, hex and decimal) and verified under some sixty alterations of key, publics and proof; distinct = (key, publics, proof) triples put to the verifier; non-trivial = all of them",
        (40, 600),
    );
    rep.assume("franklin-crypto (not available offline) is replaced by a stand-in of the same interface that computes with arkworks; its prover and setup follow the Groth16 paper");
    rep.assume("the CUDA flavour of the crate is not built");
    rep.workers(8, |rep| {
        let d = Dir(common::scratch());
        while rep.more_time(1.0) && !rep.full() {
            if rep.rng.chance(1, 2) {
                round::<Bn>(rep, &d);
            } else {
                round::<Bls>(rep, &d);
            }
        }
    });
    rep.finish()
}
