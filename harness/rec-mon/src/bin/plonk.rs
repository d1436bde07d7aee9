//! C01: conversion of R1CS to PLONK gates and additions preserves satisfiability.
use common::{gl, hash64, Report};
use fields::field_gl::GL;
use rec_mon::*;
use recursion::r1cs2plonk::{r1cs2plonk, PlonkAdd, PlonkGate};
use serde_json::json;
use starky_mon::val;

fn gate(g: &PlonkGate, w: &[u64]) -> u64 {
    let (l, r, o) = (w[g.0], w[g.1], w[g.2]);
    [(gl::mul(l, r), &g.3), (l, &g.4), (r, &g.5), (o, &g.6), (1, &g.7)].iter().fold(0, |a, (x, q)| gl::add(a, gl::mul(*x, val(q))))
}
fn extend(w: &[u64], adds: &[PlonkAdd]) -> Vec<u64> {
    let mut v = w.to_vec();
    for a in adds {
        v.push(gl::add(gl::mul(v[a.0], val(&a.2)), gl::mul(v[a.1], val(&a.3))));
    }
    v
}
fn broken(gates: &[PlonkGate], w: &[u64]) -> usize {
    gates.iter().filter(|g| gate(g, w) != 0).count()
}

fn main() {
    let mut rep = Report::new(
        "C01",
        "each generated circuit over the Goldilocks field (products, linear forms, constant and empty factors, explicit zero coefficients, long linear combinations) is converted; its PLONK gates are evaluated on the extension of satisfying and of altered assignments, and on extensions with an altered addition, and compared with the R1CS itself",
        (20, 400),
    );
    let mut n = 0u64;
    while rep.more_time(1.0) {
        n += 1;
        let m = if n % 50 == 0 { 400 } else { rep.rng.range(0, 12) };
        let o = Opts { constraints: m, gates: n % 7 == 0, uses: 2, max_terms: if n % 20 == 11 { 1 << rep.rng.range(4, 11) } else { rep.rng.range(3, 12) }, palette: rep.rng.chance(1, 2) };
        let (mut c, mut w) = random(&mut rep.rng, &o);
        if n % 9 == 3 {
            scatter(&mut rep.rng, &mut c, &mut w);
            rep.count("circuits with scattered wires", 1);
        }
        rep.case(&c, !c.constraints.is_empty());
        let own = c.broken(&w);
        assert!(own.is_empty(), "generator: {own:?}");
        let file = c.file();
        let Some((gates, adds)) = rep.must("convert", || format!("conversion of {c:?}"), || {
            let (r1cs, _) = algebraic::reader::load_r1cs_from_bin::<_, GL>(std::io::Cursor::new(&file));
            r1cs2plonk(&r1cs)
        }) else { continue };
        rep.count("gates", gates.len() as u64);
        rep.count("additions", adds.len() as u64);
        let in_range = gates.iter().all(|g| g.0.max(g.1).max(g.2) < c.n_wires + adds.len())
            && adds.iter().enumerate().all(|(i, a)| a.0.max(a.1) < c.n_wires + i);
        if !rep.check("wires", in_range, || format!("gates or additions refer to wires that do not exist yet: {c:?}")) {
            continue;
        }
        // only the ordinary constraints are converted
        let plain = Circ { uses: vec![], ..c.clone() };
        let ext = extend(&w, &adds);
        let b = broken(&gates, &ext);
        rep.check("complete", b == 0, || format!("a satisfying assignment breaks {b} gates; {c:?} {w:?}"));
        for _ in 0..6 {
            let v = altered(&mut rep.rng, &w);
            let want = plain.broken(&v);
            let got = broken(&gates, &extend(&v, &adds));
            rep.count(if want.is_empty() { "altered, still satisfying" } else { "altered, violating" }, 1);
            rep.check("iff", want.is_empty() == (got == 0), || format!("R1CS breaks {want:?}, PLONK breaks {got} gates; {c:?} {v:?}"));
        }
        // no other extension: an altered addition wire breaks something
        for _ in 0..3.min(adds.len()) {
            let k = rep.rng.range(0, adds.len() - 1);
            let mut v = ext.clone();
            v[c.n_wires + k] = gl::add(v[c.n_wires + k], 1 + rep.rng.below(1000));
            let got = broken(&gates, &v);
            rep.count("altered additions", 1);
            rep.check("addition", got > 0, || format!("addition {k} altered and no gate broken; {c:?}"));
        }
        rep.observe("gate kinds", &gates.iter().map(|g| (val(&g.3) != 0, val(&g.4) != 0, val(&g.5) != 0, val(&g.6) != 0, val(&g.7) != 0)).collect::<std::collections::BTreeSet<_>>());
        if rep.wants_sample() && n % 11 == 0 {
            rep.sample(json!({"constraints": c.constraints.len(), "wires": c.n_wires, "gates": gates.len(), "additions": adds.len(), "hash": format!("{:016x}", hash64(&c))}));
        }
    }
    rep.finish()
}
