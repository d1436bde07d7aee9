//! G02: the generated Solidity verifier, run, against a pairing check of our own.
use common::Report;
use groth16::api::{generate_verifier, groth16_prove, groth16_setup};
use groth_mon::sol::Contract;
use groth_mon::*;
use num_bigint::BigUint;
use r1cs_mon::Prime;
use serde_json::{json, Value};
use std::fs;

fn coords(p: &Value) -> Option<[BigUint; 8]> {
    let n = |v: &Value| number(v.as_str()?);
    let g1 = |p: &Value| Some(vec![n(&p["x"])?, n(&p["y"])?]);
    let b = &p["pi_b"];
    let mut o = g1(&p["pi_a"])?;
    o.extend([n(&b["x"][0])?, n(&b["x"][1])?, n(&b["y"][0])?, n(&b["y"][1])?]);
    o.extend(g1(&p["pi_c"])?);
    o.try_into().ok()
}
/// the contract for a key, as text
fn contract(d: &Dir, vk: &Value) -> Result<String, String> {
    d.put("s.vk", vk);
    d.remove("v.sol");
    match common::guard(|| generate_verifier(&d.p("s.vk"), &d.p("v.sol"))) {
        Ok(Ok(())) => fs::read_to_string(d.p("v.sol")).map_err(|e| e.to_string()),
        e => Err(format!("{e:?}")),
    }
}
fn round(rep: &mut Report, d: &Dir) {
    let hex = rep.rng.chance(1, 2);
    let mut r = rep.rng.fork();
    let c = program(&mut r, Prime::Bn254, false);
    circuit(d, &c, "c");
    let what = format!("wires {} out {} in {} private {} constraints {} hex {hex}", c.spec.n_wires, c.spec.n_pub_out, c.spec.n_pub_in, c.spec.n_prv_in, c.spec.constraints.len());
    rep.beat(&what);
    let p = |n: &str| d.p(n);
    let ins: Vec<BigUint> = c.inputs().map(|_| Prime::Bn254.elem(&mut r)).collect();
    let w = c.witness(&ins);
    inputs(d, &w);
    let made = common::guard(|| {
        groth16_setup("BN128", &p("c.r1cs"), &p("pk.bin"), &p("vk.json"), hex)?;
        groth16_prove("BN128", &p("c.r1cs"), &p("c.wasm"), &p("pk.bin"), &p("w.json"), &p("public.json"), &p("proof.json"), hex)
    });
    if !matches!(made, Ok(Ok(()))) {
        // G01's matter
        rep.count("circuits not proved", 1);
        return;
    }
    let s = Setting { vk: d.json("vk.json"), x: d.json("public.json"), proof: d.json("proof.json"), hex: hex.then_some(64), what: what.clone() };
    if !accepts::<Bn>(&s.vk, &s.x, &s.proof) {
        rep.count("circuits not proved", 1);
        return;
    }
    let mut all = variants::<Bn>(&mut r, &s, &[]);
    r.shuffle(&mut all);
    all.insert(0, ("unchanged".into(), s.vk.clone(), s.x.clone(), s.proof.clone()));
    let mut last: Option<(String, Option<Contract>, String)> = None;
    for (n, vk, x, proof) in all {
        let Some(k) = key::<Bn>(&vk) else { continue };
        // the contract takes a fixed number of 256-bit numbers
        let Some(xs) = x.as_array().and_then(|a| a.iter().map(|v| number(v.as_str()?)).collect::<Option<Vec<_>>>()) else { continue };
        let Some(pt) = coords(&proof) else { continue };
        if xs.len() + 1 != k.ic.len() || xs.iter().chain(&pt).any(|v| v.bits() > 256) {
            continue;
        }
        // it reduces c.y before using it, and (0, 0) is its neutral element
        if n.contains("pi_c.y plus") {
            continue;
        }
        rep.beat(&n);
        let id = vk.to_string();
        if last.as_ref().map(|l| l.0 != id).unwrap_or(true) {
            let text = match contract(d, &vk) {
                Ok(t) => t,
                Err(e) => {
                    rep.violation("a contract is generated for a key", format!("{what}: {e}: {vk}"));
                    return;
                }
            };
            rep.check("nothing of the template is left open", !text.contains("<%"), || format!("{what}: {text}"));
            let c = common::guard(|| Contract::parse(&text)).ok();
            last = Some((id, c, text));
            rep.count("contracts generated", 1);
        }
        let (_, parsed, text) = last.as_ref().unwrap();
        let class: String = n.chars().filter(|c| !c.is_ascii_digit()).collect();
        let run = parsed.as_ref().map(|c| {
            common::guard(|| {
                assert!(c.inputs() == xs.len(), "the contract takes {} inputs", c.inputs());
                c.verify(&pt, &xs)
            })
        });
        let got = match run {
            Some(Ok(r)) => r,
            Some(Err(e)) if e.contains("the contract takes") => {
                rep.violation("the contract takes the circuit's public inputs", format!("{what}: {} publics: {e}", xs.len()));
                continue;
            }
            // Solidity beyond what the interpreter knows
            _ => {
                rep.count("runs not understood", 1);
                continue;
            }
        };
        let want = accepts::<Bn>(&vk, &x, &proof);
        rep.check(&format!("the contract says what the pairing equation says ({class})"), (got == Ok(true)) == want, || {
            format!("{what} {n}: {got:?}, the equation {}: publics {x} proof {proof} contract {text}", if want { "holds" } else { "does not" })
        });
        rep.case(&(x.to_string(), proof.to_string(), vk.to_string()), true);
        rep.observe(if want { "accepted" } else { "refused" }, &class);
        rep.count(if got.is_err() { "runs that revert" } else if got == Ok(true) { "runs that accept" } else { "runs that refuse" }, 1);
        rep.observe("numbers of publics", &xs.len());
    }
    if rep.wants_sample() {
        rep.sample(json!({"circuit": what, "publics": s.x}));
    }
}
fn main() {
    let mut rep = Report::new(
        "G02",
        "verifier contracts generated for random BN254 circuits (0 to 56 publics, keys in hex and decimal), run by an interpreter of the Solidity they use with the EVM's memory and precompiles, under some fifty alterations of key, publics and proof; distinct = (key, publics, proof) triples run; non-trivial = all of them",
        (30, 600),
    );
    rep.assume("the interpreter covers the Solidity the template consists of; a run it does not understand is counted, not judged");
    rep.assume("c.y is taken modulo q by the contract (its negation reduces it); such proofs are not judged");
    rep.workers(8, |rep| {
        let d = Dir(common::scratch());
        while rep.more_time(1.0) && !rep.full() {
            round(rep, &d);
        }
    });
    rep.finish()
}
