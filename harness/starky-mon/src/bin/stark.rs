//! S01 completeness, S02 soundness, S03 malleability, S04 schedules, D02 serialization of whole STARK proofs,
//! on random PIL programs (starky_mon::pilgen) judged by plain row-by-row evaluation (starky_mon::pilref).
use common::{gl, gl_val, guard, Report, Rng};
use serde_json::{json, Value};
use starky::f3g::F3G;
use starky::starkinfo::StarkInfo;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree};
use starky_mon::attack::*;
use starky_mon::backend::*;
use starky_mon::ext::{cubic, Coeffs};
use starky_mon::pilgen::{self, brief, Prog, Shape, KINDS};
use starky_mon::pilref::{Broken, Trace};
use starky_mon::starks::*;
use starky_mon::*;

fn seen(r: &mut Report, p: &Prog) {
    for k in &p.kinds {
        r.observe("constraint kinds", k);
        r.count(&format!("programs with {k}"), 1);
    }
    r.observe("domain sizes and blow-ups", &(p.ss.nBits, p.ss.nBitsExt));
    r.observe("FRI step lists", &p.ss.steps.iter().map(|s| s.nBits).collect::<Vec<_>>());
    r.observe("query counts", &p.ss.nQueries);
}
// ---------------------------------------------------------------- S01
fn s01_case<B: Backend>(r: &mut Report, rng: &mut Rng, sh: &Shape) {
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let mut p = pilgen::program(rng, sh);
    r.beat(&format!("{}", brief(&p)));
    if rng.chance(1, 2) {
        let s = serde_json::to_string(&p.pil).unwrap();
        p.pil = serde_json::from_str(&s).unwrap();
    }
    let s = match setup::<B>(&p) {
        Ok(s) => s,
        Err(e) if unlucky::<B>(&e) => return r.count("digest outside the representable set (finding of D01)", 1),
        // more than the blow-up allows may be refused, but not set up for proofs that never verify
        Err(_) if p.kinds.contains("steep") => return r.count("steep programs refused", 1),
        Err(e) => return r.violation(&key("setup"), format!("{e}; {}", text(&p))),
    };
    let s = if rng.chance(1, 6) {
        r.count("setups written and read back", 1);
        match guard(|| serde_json::from_str::<Setup<B>>(&serde_json::to_string(&s).unwrap()).map_err(|e| e.to_string())) {
            Ok(Ok(s)) => s,
            e => return r.violation(&key("setup-json"), format!("{:?}; {}", e.map(|x| x.map(|_| ())), text(&p))),
        }
    } else {
        s
    };
    let proof = if rng.chance(1, 6) {
        let n = rng.range(1, 6);
        r.observe("CPU counts", &n);
        let (p, s) = (&p, &s);
        common::with_cpus(n, || prove::<B>(p, s, &p.cms))
    } else {
        prove::<B>(&p, &s, &p.cms)
    };
    let proof = match proof {
        Ok(x) => x,
        Err(e) if unlucky::<B>(&e) => return r.count("digest outside the representable set (finding of D01)", 1),
        Err(e) => return r.violation(&key("prove"), format!("{e}; {}", text(&p))),
    };
    let v = verify::<B>(&p, &s, &proof);
    r.check(&key("verify"), v == Verdict::Accept, || format!("{v:?}; {}", text(&p)));
    let got: Vec<Vec<u64>> = proof.publics.iter().map(|x| x.coeffs()).collect();
    let want: Vec<Vec<u64>> = p.publics.iter().map(|x| vec![*x, 0, 0]).collect();
    r.check(&key("publics"), got == want, || format!("publics {got:?}, the program selects {want:?}; {}", text(&p)));
    r.check(&key("public-dim"), proof.publics.iter().all(|x| x.as_elements().len() == 1), || text(&p));
    r.count("publics compared", want.len() as u64);
    r.count(B::NAME, 1);
    seen(r, &p);
    r.observe("parts of the constraint degree", &(s.starkinfo.q_deg, s.starkinfo.q_dim));
    r.observe("intermediates turned into columns", &s.starkinfo.im_exps_list.len());
    r.case(&(B::NAME, serde_json::to_string(&p.pil).unwrap(), p.cms.clone()), true);
    if r.wants_sample() {
        r.sample(brief(&p));
    }
}
fn s01(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("programs have the shape pilcom emits (degree at most two in columns and intermediates, three where the smallest blow-up allows; steeper products may be refused by the setup); the trace satisfies them by construction, checked row by row in plain integers");
    let all = |nbits, ext, parts, only: Vec<&'static str>, hash| Shape { nbits, ext, parts, hash, only, min_last: ext, queries: 4 };
    // one program per kind alone, and domains large enough for the chunked evaluation
    for k in KINDS {
        if k != "free" && k != "intermediate" {
            s01_case::<Gl>(r, &mut rng, &all(3, 1, 1, vec![k], "GL"));
            s01_case::<Bn>(r, &mut rng, &all(2, 1, 1, vec![k], "BN128"));
            s01_case::<Bls>(r, &mut rng, &all(2, 2, 1, vec![k], "BLS12381"));
        }
    }
    s01_case::<Gl>(r, &mut rng, &all(12, 1, 4, vec![], "GL"));
    s01_case::<Gl>(r, &mut rng, &all(11, 3, 3, vec!["recurrence", "permutation", "lookup"], "GL"));
    if common::thorough() {
        for _ in 0..6 {
            s01_case::<Gl>(r, &mut rng, &all(13, 1, 8, vec![], "GL"));
            s01_case::<Gl>(r, &mut rng, &all(14, 1, 5, vec![], "GL"));
            s01_case::<Bn>(r, &mut rng, &all(10, 1, 5, vec![], "BN128"));
            s01_case::<Bls>(r, &mut rng, &all(10, 2, 5, vec![], "BLS12381"));
        }
    }
    for k in 0..24 {
        let kinds = if k % 3 == 0 { vec!["steep", "definition"] } else { vec!["steep"] };
        s01_case::<Gl>(r, &mut rng, &all(3, 1 + k % 3, 1 + k % 2, kinds, "GL"));
    }
    while r.more_time(1.0) {
        match rng.below(20) {
            0..=13 => {
                let s = shape::<Gl>(&mut rng);
                s01_case::<Gl>(r, &mut rng, &s)
            }
            14..=16 => {
                let s = shape::<Bn>(&mut rng);
                s01_case::<Bn>(r, &mut rng, &s)
            }
            17..=18 => {
                let s = shape::<Bls>(&mut rng);
                s01_case::<Bls>(r, &mut rng, &s)
            }
            _ => {
                let n = rng.range(8, 12);
                let s = all(n, 1, 3, vec![], "GL");
                s01_case::<Gl>(r, &mut rng, &s)
            }
        }
    }
}

// ---------------------------------------------------------------- S02
fn s02_case<B: Backend>(r: &mut Report, rng: &mut Rng, sh: &Shape) {
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let p = pilgen::program(rng, sh);
    r.beat(&format!("{}", brief(&p)));
    let Ok(s) = setup::<B>(&p) else { return r.count("setup refused (S01)", 1) };
    seen(r, &p);
    let pubs: Vec<E> = p.publics.iter().map(|v| cubic::base(*v)).collect();
    for _ in 0..4 {
        let (cms, what) = corrupt(rng, &p);
        // the public values are what the declarations select from the corrupted trace
        let selected = {
            let mut t = Trace::new(&p.pil, &p.consts, &cms, &p.publics);
            t.selected_publics()
        };
        let mut t = Trace::new(&p.pil, &p.consts, &cms, &selected);
        if !t.selectors_boolean() {
            r.count("changed traces with a selector that is neither 0 nor 1 (no claim)", 1);
            continue;
        }
        let broken = t.broken();
        let sel: Vec<E> = selected.iter().map(|v| cubic::base(*v)).collect();
        if broken.is_empty() {
            // another valid trace: it must still be provable
            match prove::<B>(&p, &s, &cms) {
                Ok(proof) => {
                    let v = verify::<B>(&p, &s, &proof);
                    r.check(&key("valid-after-all"), v == Verdict::Accept, || format!("{what}: {v:?} though every constraint holds; {}", text(&p)));
                }
                Err(e) => r.check(&key("valid-after-all"), unlucky::<B>(&e), || format!("{what}: {e} though every constraint holds; {}", text(&p))).then_some(()).unwrap_or(()),
            }
            r.count("changed traces that still satisfy the program (accepted)", 1);
            continue;
        }
        for b in &broken {
            r.count(
                match b {
                    Broken::Identity(..) => "broken identities",
                    Broken::Lookup(..) => "broken lookups",
                    Broken::Permutation(..) => "broken permutations",
                    Broken::Connection(..) => "broken connections",
                },
                1,
            );
            r.observe("least number of bad rows", &match b {
                Broken::Identity(_, k) | Broken::Lookup(_, k) | Broken::Connection(_, k) => *k,
                _ => 0,
            });
        }
        let arguments = broken.iter().any(|b| !matches!(b, Broken::Identity(..)));
        let mut cheats = vec![Cheat::None];
        if arguments || rng.chance(1, 4) {
            cheats.extend(CHEATS[1..].iter().filter(|_| rng.chance(1, 2)));
        }
        for c in cheats {
            for forge in [false, true] {
                if forge && c == Cheat::None && arguments && broken.len() == 1 {
                    continue;
                }
                set_cheat(c);
                let proof = if forge {
                    let (p2, s2, sel2) = (&p as *const Prog as usize, &s as *const Setup<B> as usize, sel.clone());
                    prove_forged::<B>(&p, &s, &s.starkinfo, &cms, move |e, ch| {
                        let (p, s) = unsafe { (&*(p2 as *const Prog), &*(s2 as *const Setup<B>)) };
                        balance::<B>(p, s, e, &sel2, ch);
                    })
                } else {
                    prove::<B>(&p, &s, &cms)
                };
                set_cheat(Cheat::None);
                match proof {
                    Err(_) => r.count("prover refused", 1),
                    Ok(proof) => {
                        let v = verify::<B>(&p, &s, &proof);
                        r.count(if v == Verdict::Reject { "proofs of broken traces rejected" } else { "proofs of broken traces refused with an error" }, 1);
                        r.check(&key(if arguments { "argument" } else { "identity" }), v != Verdict::Accept, || {
                            format!("accepted a trace with {broken:?} ({what}; prover {c:?}, evaluations forged: {forge}); corrupted {cms:?}; {}", text(&p))
                        });
                        r.observe("prover strategies", &(c, forge));
                    }
                }
                r.case(&(B::NAME, serde_json::to_string(&p.pil).unwrap(), &cms, c, forge), true);
            }
        }
    }
    // a public value that the trace does not have there
    for k in 0..p.publics.len() {
        let mut info: StarkInfo = serde_json::from_str(&serde_json::to_string(&s.starkinfo).unwrap()).unwrap();
        let row = rng.range(0, (1 << p.ss.nBits) - 1);
        info.publics[k].idx = row;
        let mut moved = p.pil.clone();
        moved.publics[k].idx = row;
        let wrong = Trace::new(&moved, &p.consts, &p.cms, &p.publics).selected_publics();
        let broken = Trace::new(&p.pil, &p.consts, &p.cms, &wrong).broken();
        if broken.is_empty() {
            continue;
        }
        let w: Vec<E> = wrong.iter().map(|v| cubic::base(*v)).collect();
        for forge in [false, true] {
            let proof = if forge {
                let (p2, s2, w) = (&p as *const Prog as usize, &s as *const Setup<B> as usize, w.clone());
                prove_forged::<B>(&p, &s, &info, &p.cms, move |e, ch| {
                    let (p, s) = unsafe { (&*(p2 as *const Prog), &*(s2 as *const Setup<B>)) };
                    balance::<B>(p, s, e, &w, ch);
                })
            } else {
                prove_with::<B>(&p, &s, &info, &p.cms, ADDR)
            };
            if let Ok(proof) = proof {
                let v = verify::<B>(&p, &s, &proof);
                r.check(&key("public"), v != Verdict::Accept, || format!("accepted public {k} = {} (forged {forge}) where the trace has {}; {}", wrong[k], p.publics[k], text(&p)));
                r.count("proofs of wrong publics rejected", 1);
                r.case(&(B::NAME, serde_json::to_string(&p.pil).unwrap(), &wrong, forge), true);
            }
        }
    }
    // an honest proof for a program that differs in one expression, which the trace does not satisfy here
    if let Ok(proof) = prove::<B>(&p, &s, &p.cms) {
        let mut places: Vec<usize> = (0..p.pil.expressions.len()).filter(|k| p.pil.expressions[*k].idQ.is_some()).collect();
        places.extend(p.pil.polIdentities.iter().map(|i| i.e));
        rng.shuffle(&mut places);
        for k in places.into_iter().take(if common::thorough() { 20 } else { 4 }) {
            let mut other = p.clone();
            let old = other.pil.expressions[k].clone();
            let (id_q, deg) = (old.idQ, old.deg);
            let mut inner = old;
            inner.idQ = None;
            let d = if rng.chance(1, 2) { 1 } else { gl_val(rng).max(1) };
            let mut e = pilgen::add(inner, pilgen::num(&d.to_string()));
            (e.idQ, e.deg) = (id_q, deg);
            other.pil.expressions[k] = e;
            let broken = Trace::new(&other.pil, &p.consts, &p.cms, &p.publics).broken();
            if broken.is_empty() {
                continue;
            }
            let Ok(s2) = setup::<B>(&other) else { continue };
            if s2.starkinfo.ev_map.len() != s.starkinfo.ev_map.len() {
                continue;
            }
            let v = verify::<B>(&other, &s2, &proof);
            r.check(&key("other-program"), v != Verdict::Accept, || {
                format!("the proof of a trace is accepted for a program whose expression {k} ({}) is larger by {d}, which breaks {broken:?}; {}", if id_q.is_some() { "an intermediate" } else { "an identity" }, text(&p))
            });
            r.count(if id_q.is_some() { "proofs presented for a program with another intermediate" } else { "proofs presented for a program with another identity" }, 1);
            r.case(&(B::NAME, serde_json::to_string(&other.pil).unwrap(), k), true);
        }
    }
    // every single evaluation claimed wrongly, with the constraint equation kept satisfied
    let n_ev = s.starkinfo.ev_map.len();
    let some: Vec<usize> = if n_ev <= 10 || common::thorough() { (0..n_ev).collect() } else { (0..10).map(|_| rng.range(0, n_ev - 1)).collect() };
    for i in some {
        if q_index::<B>(&s) == [i] {
            continue; // balancing would restore the only quotient piece
        }
        let d = [1 + rng.below(5), gl_val(rng), if rng.chance(1, 2) { 0 } else { gl_val(rng) }];
        let (p2, s2, pubs) = (&p as *const Prog as usize, &s as *const Setup<B> as usize, pubs.clone());
        let qi = q_index::<B>(&s);
        let proof = prove_forged::<B>(&p, &s, &s.starkinfo, &p.cms, move |e, ch| {
            let (p, s) = unsafe { (&*(p2 as *const Prog), &*(s2 as *const Setup<B>)) };
            e[i] = cubic::add(&e[i], &d);
            if qi.first() == Some(&i) && qi.len() > 1 {
                // balanced by the second quotient piece
                let x_n = e_pow(&ch[7], 1 << p.ss.nBits);
                let k = cubic::mul(&d, &e_inv(&x_n));
                e[qi[1]] = cubic::sub(&e[qi[1]], &k);
            } else {
                balance::<B>(p, s, e, &pubs, ch);
            }
        });
        if let Ok(proof) = proof {
            let v = verify::<B>(&p, &s, &proof);
            let ev = &s.starkinfo.ev_map[i];
            r.check(&key("evaluation"), v != Verdict::Accept, || format!("accepted a false evaluation {i} ({} {} prime {}); {}", ev.type_, ev.id, ev.prime, text(&p)));
            r.count("forged evaluations rejected", 1);
            r.observe("kinds of evaluation forged", &(ev.type_.clone(), ev.prime));
            r.case(&(B::NAME, serde_json::to_string(&p.pil).unwrap(), i, d), true);
        }
    }
    if r.wants_sample() {
        r.sample(brief(&p));
    }
    r.count(B::NAME, 1);
}
fn s02(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("24 to 40 queries, so that none of the tested cheats is expected to slip through (probability below 2^-20 each)");
    for k in KINDS {
        if k != "free" && k != "intermediate" && k != "constants" {
            for h in 0..2 {
                let s = Shape { nbits: 3 + h, ext: 1 + h, parts: 1, hash: "GL", only: vec![k], min_last: 1 + h, queries: 30 };
                s02_case::<Gl>(r, &mut rng, &s);
            }
            let s = Shape { nbits: 2, ext: 1, parts: 1, hash: "BN128", only: vec![k], min_last: 1, queries: 24 };
            if r.more_time(0.5) {
                s02_case::<Bn>(r, &mut rng, &s);
            }
        }
    }
    while r.more_time(1.0) {
        match rng.below(16) {
            0 => {
                let s = sound_shape::<Bn>(&mut rng);
                s02_case::<Bn>(r, &mut rng, &s)
            }
            1 => {
                let s = sound_shape::<Bls>(&mut rng);
                s02_case::<Bls>(r, &mut rng, &s)
            }
            4 if rng.chance(1, 2) => {
                let mut s = sound_shape::<Gl>(&mut rng);
                s.nbits = rng.range(8, 11);
                s02_case::<Gl>(r, &mut rng, &s)
            }
            _ => {
                let s = sound_shape::<Gl>(&mut rng);
                s02_case::<Gl>(r, &mut rng, &s)
            }
        }
    }
}

// ---------------------------------------------------------------- S03
fn s03_case<B: Backend>(r: &mut Report, rng: &mut Rng, sh: &Shape) {
    let p = pilgen::program(rng, sh);
    r.beat(&format!("{}", brief(&p)));
    let Ok(s) = setup::<B>(&p) else { return r.count("setup refused (S01)", 1) };
    let Ok(mut proof) = prove::<B>(&p, &s, &p.cms) else { return r.count("prover refused (S01)", 1) };
    if verify::<B>(&p, &s, &proof) != Verdict::Accept {
        return r.count("honest proof rejected (S01)", 1);
    }
    seen(r, &p);
    let id = serde_json::to_string(&p.pil).unwrap();
    macro_rules! judge {
        ($what:expr, $detail:expr) => {{
            let v = verify::<B>(&p, &s, &proof);
            let d: String = $detail;
            r.check(&format!("{}-{}", B::NAME, $what), v != Verdict::Accept, || format!("accepted after: {d}; {}", text(&p)));
            r.count(&format!("{} alterations", $what), 1);
            r.count(match v { Verdict::Reject => "answered no", _ => "answered with an error" }, 1);
            r.case(&(B::NAME, &id, $what, &d), true);
        }};
    }
    macro_rules! alter {
        ($what:expr, $place:expr, $new:expr, $detail:expr) => {{
            let new = $new;
            let old = std::mem::replace(&mut $place, new);
            judge!($what, $detail);
            $place = old;
        }};
    }
    // roots claimed from the start to be others: everything that follows is consistent with the claim
    for _ in 0..2 {
        let (at, limb, by) = (rng.range(0, 3 + p.ss.steps.len().saturating_sub(1)), rng.range(0, 3), 1 + rng.below(common::P - 1));
        if let Ok(Some(x)) = prove_root::<B>(&p, &s, at, limb, by) {
            let old = std::mem::replace(&mut proof, x);
            r.observe("trees whose root was claimed to be another", &(B::NAME, at, if B::ARITY == 2 { limb } else { 0 }));
            judge!("claimed-root", format!("limb {limb} of the root of tree {at} moved by {by}"));
            proof = old;
        }
    }
    // commitments
    for _ in 0..2 {
        alter!("root1", proof.root1, other_node::<B>(rng, &proof.root1), "root1 changed".into());
        alter!("root2", proof.root2, other_node::<B>(rng, &proof.root2), "root2 changed".into());
        alter!("root3", proof.root3, other_node::<B>(rng, &proof.root3), "root3 changed".into());
        alter!("root4", proof.root4, other_node::<B>(rng, &proof.root4), "root4 changed".into());
        let bad = other_node::<B>(rng, &s.const_root);
        let v = verify_root::<B>(&p, &s, &proof, &bad);
        r.check(&format!("{}-constants", B::NAME), v != Verdict::Accept, || format!("accepted against another constant root; {}", text(&p)));
        r.count("constants alterations", 1);
    }
    for i in 1..proof.fri_proof.queries.len() {
        alter!("fri-root", proof.fri_proof.queries[i].root, other_node::<B>(rng, &proof.fri_proof.queries[i].root), format!("FRI root {i}"));
    }
    // the verifier's challenges: each part bears on the first one drawn after it
    let honest = draws::<B>(&p, &s, &proof);
    let layers = p.ss.steps.len();
    r.check(&format!("{}-draws", B::NAME), honest.len() > 3 * (8 + layers), || format!("the verifier drew {} elements for {layers} FRI steps; {}", honest.len(), brief(&p)));
    macro_rules! bears {
        ($what:expr, $by:expr, $place:expr, $new:expr) => {{
            let new = $new;
            let old = std::mem::replace(&mut $place, new);
            let d = draws::<B>(&p, &s, &proof);
            $place = old;
            let same = d.iter().zip(&honest).take_while(|(a, b)| a == b).count();
            let by: usize = 3 * $by;
            r.check(&format!("{}-bears-on-challenges", B::NAME), d.len() >= by && same < by + 3 && same < d.len(), || {
                format!("{} changed: the first {same} of {} elements drawn stay, those from {by} on should differ; {}", $what, d.len(), text(&p))
            });
            r.observe("parts whose bearing on the challenges was seen", &(B::NAME, $what, layers));
            r.count("comparisons of the challenges drawn", 1);
        }};
    }
    bears!("root1".to_string(), 0, proof.root1, other_node::<B>(rng, &proof.root1));
    bears!("root2".to_string(), 2, proof.root2, other_node::<B>(rng, &proof.root2));
    bears!("root3".to_string(), 4, proof.root3, other_node::<B>(rng, &proof.root3));
    bears!("root4".to_string(), 5, proof.root4, other_node::<B>(rng, &proof.root4));
    for i in 1..proof.fri_proof.queries.len() {
        bears!(format!("FRI root {i}"), 8 + i, proof.fri_proof.queries[i].root, other_node::<B>(rng, &proof.fri_proof.queries[i].root));
    }
    for i in 0..proof.evals.len() {
        bears!(format!("evaluation {i}"), 6, proof.evals[i], bump_f(rng, &proof.evals[i]));
    }
    for i in 0..proof.publics.len() {
        bears!(format!("public {i}"), 0, proof.publics[i], bump_f(rng, &proof.publics[i]));
    }
    for i in 0..proof.fri_proof.last.len() {
        if proof.fri_proof.last.len() <= 16 || rng.chance(1, 4) {
            bears!(format!("final value {i}"), 8 + layers, proof.fri_proof.last[i], bump_f(rng, &proof.fri_proof.last[i]));
        }
    }
    // evaluations and publics
    for i in 0..proof.evals.len() {
        let n = bump_f(rng, &proof.evals[i]);
        alter!("evaluation", proof.evals[i], n, format!("evaluation {i} -> {n}"));
    }
    for i in 0..proof.publics.len() {
        let n = bump_f(rng, &proof.publics[i]);
        alter!("public", proof.publics[i], n, format!("public {i} -> {n}"));
    }
    if proof.evals.len() > 1 {
        let (i, j) = (rng.range(0, proof.evals.len() - 1), rng.range(0, proof.evals.len() - 1));
        if proof.evals[i] != proof.evals[j] {
            proof.evals.swap(i, j);
            judge!("evaluation", format!("evaluations {i} and {j} swapped"));
            proof.evals.swap(i, j);
        }
    }
    // the final polynomial
    for i in 0..proof.fri_proof.last.len().min(6) {
        let i = if i == 0 { 0 } else { rng.range(0, proof.fri_proof.last.len() - 1) };
        let n = bump_f(rng, &proof.fri_proof.last[i]);
        alter!("final", proof.fri_proof.last[i], n, format!("final value {i} -> {n}"));
    }
    {
        // the same change everywhere keeps the degree
        let k = fe(1 + rng.below(9));
        let old = proof.fri_proof.last.clone();
        for x in proof.fri_proof.last.iter_mut() {
            *x = *x + F3G::from_vec(vec![k, fe(0), fe(0)]);
        }
        judge!("final", "the final polynomial shifted by a constant".into());
        proof.fri_proof.last = old;
    }
    // openings
    let steps = proof.fri_proof.queries.len();
    for si in 0..steps {
        let nq = proof.fri_proof.queries[si].pol_queries.len();
        for _ in 0..8 {
            let q = rng.range(0, nq - 1);
            let t = rng.range(0, proof.fri_proof.queries[si].pol_queries[q].len() - 1);
            let w = proof.fri_proof.queries[si].pol_queries[q][t].0.len();
            let name = if si == 0 { ["tree1", "tree2", "tree3", "tree4", "constants-opening"][t] } else { "fri-value" };
            if w > 0 {
                let c = rng.range(0, w - 1);
                let x = proof.fri_proof.queries[si].pol_queries[q][t].0[c];
                let n = fe(bump(rng, val(&x)));
                alter!(name, proof.fri_proof.queries[si].pol_queries[q][t].0[c], n, format!("step {si} query {q} tree {t} value {c}"));
            }
            let depth = proof.fri_proof.queries[si].pol_queries[q][t].1.len();
            if depth > 0 {
                let l = rng.range(0, depth - 1);
                let k = rng.range(0, proof.fri_proof.queries[si].pol_queries[q][t].1[l].len() - 1);
                let x = proof.fri_proof.queries[si].pol_queries[q][t].1[l][k].clone();
                let n = B::mutate_base(&x, 1 + rng.below(1000));
                let old = std::mem::replace(&mut proof.fri_proof.queries[si].pol_queries[q][t].1[l][k], n);
                // a 16-ary path carries the node itself too, and the verifier puts its own value there
                let v = verify::<B>(&p, &s, &proof);
                if v == Verdict::Accept && B::ARITY == 16 {
                    // exactly that one slot may be free
                    proof.fri_proof.queries[si].pol_queries[q][t].1[l][k] = old.clone();
                    let free: Vec<usize> = (0..B::ARITY)
                        .filter(|j| {
                            let x = proof.fri_proof.queries[si].pol_queries[q][t].1[l][*j].clone();
                            proof.fri_proof.queries[si].pol_queries[q][t].1[l][*j] = B::mutate_base(&x, 1 + rng.below(1000));
                            let v = verify::<B>(&p, &s, &proof);
                            proof.fri_proof.queries[si].pol_queries[q][t].1[l][*j] = x;
                            v == Verdict::Accept
                        })
                        .collect();
                    r.count("slots of the path's own node (recomputed by the verifier)", 1);
                    r.check(&format!("{}-path", B::NAME), free == [k], || format!("slots {free:?} at level {l} are not bound (step {si} query {q} tree {t}); {}", text(&p)));
                } else {
                    r.check(&format!("{}-path", B::NAME), v != Verdict::Accept, || format!("accepted after: step {si} query {q} tree {t} level {l} sibling {k}; {}", text(&p)));
                }
                r.count("path alterations", 1);
                r.case(&(B::NAME, &id, "path", si, q, t, l, k), true);
                proof.fri_proof.queries[si].pol_queries[q][t].1[l][k] = old;
                if rng.chance(1, 4) {
                    let lv = proof.fri_proof.queries[si].pol_queries[q][t].1.pop().unwrap();
                    judge!("path-length", format!("step {si} query {q} tree {t}: last level dropped"));
                    proof.fri_proof.queries[si].pol_queries[q][t].1.push(lv);
                }
            }
        }
        // another query's opening
        let (a, b) = (rng.range(0, nq - 1), rng.range(0, nq - 1));
        let pq = &mut proof.fri_proof.queries[si].pol_queries;
        if pq[a].iter().zip(&pq[b]).any(|(x, y)| vals(&x.0) != vals(&y.0)) {
            pq.swap(a, b);
            judge!("query-order", format!("step {si}: queries {a} and {b} swapped"));
            proof.fri_proof.queries[si].pol_queries.swap(a, b);
        }
    }
    // pieces missing or added where the verifier reads them
    if let Some(x) = proof.evals.pop() {
        judge!("missing", "last evaluation removed".into());
        proof.evals.push(x);
        proof.evals.push(F3G::from_vec(vec![fe(1), fe(2), fe(3)]));
        judge!("added", "an evaluation added".into());
        proof.evals.pop();
    }
    if let Some(x) = proof.publics.pop() {
        judge!("missing", "last public removed".into());
        proof.publics.push(x);
    }
    proof.publics.push(F3G::from(fe(1)));
    judge!("added", "a public added".into());
    proof.publics.pop();
    let x = proof.fri_proof.queries[0].pol_queries.pop().unwrap();
    judge!("missing", "last query removed".into());
    proof.fri_proof.queries[0].pol_queries.push(x);
    let last = proof.fri_proof.last.clone();
    proof.fri_proof.last.truncate(last.len() / 2);
    judge!("missing", "half of the final polynomial removed".into());
    proof.fri_proof.last = last;
    // two commitments exchanged
    if B::node(&proof.root1) != B::node(&proof.root3) {
        std::mem::swap(&mut proof.root1, &mut proof.root3);
        judge!("root-order", "root1 and root3 exchanged".into());
        std::mem::swap(&mut proof.root1, &mut proof.root3);
    }
    // the same proof against another program with other constants
    let mut p2 = p.clone();
    let c = rng.range(0, p2.consts.len() - 1);
    let i = rng.range(0, p2.consts[c].len() - 1);
    p2.consts[c][i] = bump(rng, p2.consts[c][i]);
    if let Ok(s2) = setup::<B>(&p2) {
        let v = verify::<B>(&p2, &s2, &proof);
        r.check(&format!("{}-program", B::NAME), v != Verdict::Accept, || format!("accepted for a program whose constant {c} differs in row {i}; {}", text(&p)));
        r.count("other-program verifications", 1);
    }
    let v = verify::<B>(&p, &s, &proof);
    // every alteration was undone: the honest proof is what is left
    r.check(&format!("{}-honest", B::NAME), v == Verdict::Accept, || format!("an honest proof is not accepted: {v:?}; {}", text(&p)));
    if r.wants_sample() {
        r.sample(brief(&p));
    }
    r.count(B::NAME, 1);
}
fn s03(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("the proof's copy of the constant root, its prover address and the unused root of query layer 0 are not bound by the native verifier; everything else is");
    while r.more_time(1.0) {
        match rng.below(10) {
            0 | 1 => {
                let s = sound_shape::<Bn>(&mut rng);
                s03_case::<Bn>(r, &mut rng, &s)
            }
            2 | 3 => {
                let s = sound_shape::<Bls>(&mut rng);
                s03_case::<Bls>(r, &mut rng, &s)
            }
            4 if rng.chance(1, 2) => {
                let mut s = sound_shape::<Gl>(&mut rng);
                s.nbits = rng.range(8, 11);
                s03_case::<Gl>(r, &mut rng, &s)
            }
            _ => {
                let s = sound_shape::<Gl>(&mut rng);
                s03_case::<Gl>(r, &mut rng, &s)
            }
        }
    }
}

// ---------------------------------------------------------------- S04
fn proof_text<B: Backend>(p: &Proof<B>) -> String {
    serde_json::to_string(p).unwrap()
}
/// Work of the layers below, on inputs of its own; the answer does not depend on who else is running.
fn low_level(seed: u64, bits: usize) -> Vec<String> {
    let mut rng = Rng::new(seed);
    let mut bad = vec![];
    let w = rng.range(1, 3);
    let n = 1usize << bits;
    let cols: Vec<Vec<u64>> = (0..w).map(|_| (0..n).map(|_| gl_val(&mut rng)).collect()).collect();
    let src: Vec<F3G> = (0..n * w).map(|i| F3G::from(fe(cols[i % w][i / w]))).collect();
    let mut dst = vec![F3G::ZERO; n * w];
    let col = |d: &[F3G], c: usize| -> Vec<u64> { d.iter().skip(c).step_by(w).map(|x| x.coeffs()[0]).collect() };
    let what = rng.below(5);
    let r = guard(|| match what {
        0 => {
            starky::fft_p::fft(&src, w, bits, &mut dst);
            (0..w).filter(|c| col(&dst, *c) != starky_mon::ext::dft(&cols[*c], gl::root(bits))).count()
        }
        1 => {
            starky::fft_p::ifft(&src, w, bits, &mut dst);
            (0..w).filter(|c| col(&dst, *c) != starky_mon::ext::idft(&cols[*c], gl::root(bits))).count()
        }
        2 => {
            let mut dst = vec![F3G::ZERO; 2 * n * w];
            starky::fft_p::interpolate(&src, w, bits, &mut dst, bits + 1);
            (0..w).filter(|c| col(&dst, *c) != starky_mon::ext::lde(&cols[*c], bits, bits + 1, 49)).count()
        }
        3 => {
            let v: Vec<u64> = cols[0].iter().map(|x| (*x).max(1)).collect();
            let got = starky::polutils::batch_inverse(&v.iter().map(|x| F3G::from(fe(*x))).collect::<Vec<_>>());
            got.iter().zip(&v).filter(|(g, x)| gl::mul(g.coeffs()[0], **x) != 1).count()
        }
        _ => {
            let rows: Vec<Vec<u64>> = (0..n.min(64)).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
            let flat: Vec<_> = rows.iter().flatten().map(|x| fe(*x)).collect();
            let mut t = <Gl as Backend>::M::new();
            t.merkelize(flat, w, rows.len()).unwrap();
            (Gl::node(&t.root()) != Gl::ref_root(&rows)) as usize
        }
    });
    let name = ["fft", "ifft", "interpolate", "batch_inverse", "merkle"][what as usize];
    match r {
        Ok(0) => {}
        Ok(k) => bad.push(format!("{name} of 2^{bits} rows: {k} columns differ from the sequential reference")),
        Err(e) => bad.push(format!("{name} of 2^{bits} rows: {e}")),
    }
    bad
}
/// many threads start on the same sizes at the same moment, nothing having been computed before
fn storm(seed: u64, threads: usize, rounds: usize) -> Vec<String> {
    let barrier = std::sync::Barrier::new(threads);
    let bad = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (barrier, bad) = (&barrier, &bad);
            s.spawn(move || {
                let mut rng = Rng::new(seed);
                for k in 0..rounds {
                    let bits = rng.range(3, 11);
                    barrier.wait();
                    let b = low_level(seed ^ (t as u64 * 1000 + k as u64 + 1), bits);
                    bad.lock().unwrap().extend(b);
                }
            });
        }
    });
    bad.into_inner().unwrap()
}
fn s04_case<B: Backend>(r: &mut Report, rng: &mut Rng, sh: &Shape) {
    let p = pilgen::program(rng, sh);
    r.beat(&format!("{}", brief(&p)));
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let Ok(s) = setup::<B>(&p) else { return r.count("setup refused (S01)", 1) };
    let Ok(first) = prove::<B>(&p, &s, &p.cms) else { return r.count("prover refused (S01)", 1) };
    let base = proof_text::<B>(&first);
    let root = B::node(&s.const_root);
    let ch = |how: &str, s2: Option<&Setup<B>>, x: Result<Proof<B>, String>, r: &mut Report| {
        if let Some(s2) = s2 {
            r.check(&key("setup"), B::node(&s2.const_root) == root, || format!("constant root differs {how}; {}", text(&p)));
        }
        match x {
            Ok(x) => {
                let t = proof_text::<B>(&x);
                let at = t.bytes().zip(base.bytes()).position(|(a, b)| a != b);
                r.check(&key("proof"), t == base, || format!("proof differs {how}, first at byte {at:?}; {}", text(&p)));
            }
            Err(e) => r.violation(&key("proof"), format!("proving failed {how}: {e}; {}", text(&p))),
        }
        r.count("repeated proofs compared", 1);
        r.case(&(B::NAME, serde_json::to_string(&p.pil).unwrap(), how), true);
    };
    for k in 0..3 {
        // CPUs the process may use; four and six of them cut a long domain at rows no multiple of four
        let n = if sh.nbits >= 12 { [4, 6, rng.range(1, 8)][k] } else { rng.range(1, 8) };
        let fresh = rng.chance(1, 2);
        let how = format!("with {n} CPUs{}", if fresh { " and a fresh setup" } else { "" });
        r.observe("CPU counts", &n);
        let (p2, s2) = (&p, &s);
        let (s3, x) = common::with_cpus(n, || {
            let s3 = fresh.then(|| setup::<B>(p2).unwrap());
            let x = prove::<B>(p2, s3.as_ref().unwrap_or(s2), &p2.cms);
            (s3, x)
        });
        ch(&how, s3.as_ref(), x, r);
    }
    {
        // size of the pool the caller installed
        let n = *rng.pick(&[1, 2, 3, 5, 7, 8, 13, 16, 32]);
        r.observe("pool sizes", &n);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        let (s3, x) = pool.install(|| {
            let s3 = setup::<B>(&p).unwrap();
            let x = prove::<B>(&p, &s3, &p.cms);
            (s3, x)
        });
        ch(&format!("in a pool of {n}"), Some(&s3), x, r);
    }
    {
        // the same and other proofs at the same time
        let k = rng.range(3, 8);
        let mut sh2 = sh.clone();
        if rng.chance(1, 2) {
            sh2.nbits = rng.range(3.max(sh.nbits.saturating_sub(2)), sh.nbits.min(8) + 1);
            sh2.ext = if rng.chance(2, 3) { sh.ext } else { rng.range(1, 3) };
            sh2.min_last = sh2.min_last.max(sh2.ext);
        }
        let other = pilgen::program(rng, &sh2);
        let so = setup::<B>(&other);
        // another one before, on this thread
        if let Ok(so) = &so {
            let _ = prove::<B>(&other, so, &other.cms);
            r.observe("sizes proved in between", &(sh2.nbits, sh2.ext));
        }
        ch("after another program's", None, prove::<B>(&p, &s, &p.cms), r);
        let barrier = std::sync::Barrier::new(k);
        let own = rng.chance(1, 2);
        let xs: Vec<(Option<Setup<B>>, Option<Result<Proof<B>, String>>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..k)
                .map(|t| {
                    let (p, s, other, so, barrier) = (&p, &s, &other, &so, &barrier);
                    sc.spawn(move || {
                        barrier.wait();
                        if t % 3 == 2 {
                            if let Ok(so) = so {
                                let _ = prove::<B>(other, so, &other.cms);
                            }
                            (None, None)
                        } else {
                            let s3 = own.then(|| setup::<B>(p).unwrap());
                            let x = prove::<B>(p, s3.as_ref().unwrap_or(s), &p.cms);
                            (s3, Some(x))
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (s3, x) in xs {
            if let Some(x) = x {
                ch(&format!("with {k} provers at once"), s3.as_ref(), x, r);
                r.count("concurrent proofs compared", 1);
            }
        }
    }
    seen(r, &p);
    r.count(B::NAME, 1);
    if r.wants_sample() {
        r.sample(brief(&p));
    }
}
fn s04(r: &mut Report) {
    let mut rng = r.rng.fork();
    // first uses of every table, in processes that have computed nothing yet
    for k in 0..if common::thorough() { 300 } else { 40 } {
        let seed = rng.u64();
        let threads = rng.range(4, 16);
        r.beat(&format!("first use, {threads} threads"));
        match common::in_child(0, 120, || storm(seed, threads, 6).join("\n").into_bytes()) {
            common::Ended::Returned(b) => {
                let b = String::from_utf8_lossy(&b).to_string();
                r.check("first-use", b.is_empty(), || format!("{threads} threads: {b}"));
            }
            e => r.violation("first-use", format!("{threads} threads, seed {seed}: {e:?}")),
        }
        r.count("fresh processes with concurrent first uses", 1);
        r.case(&("first use", k, seed), true);
    }
    while r.more_time(0.3) {
        let (seed, threads) = (rng.u64(), rng.range(2, 12));
        r.beat("storm");
        let b = storm(seed, threads, 8);
        r.check("concurrent-transforms", b.is_empty(), || format!("{threads} threads: {}", b.join("; ")));
        r.count("concurrent low-level operations compared", threads as u64 * 8);
        r.case(&("storm", seed), true);
    }
    s04_case::<Gl>(r, &mut rng, &Shape { nbits: 12, ext: 2, parts: 3, hash: "GL", only: vec!["recurrence", "permutation", "cyclic"], min_last: 2, queries: 4 });
    while r.more_time(1.0) {
        match rng.below(8) {
            0 => {
                let s = shape::<Bn>(&mut rng);
                s04_case::<Bn>(r, &mut rng, &s)
            }
            1 => {
                let s = shape::<Bls>(&mut rng);
                s04_case::<Bls>(r, &mut rng, &s)
            }
            2 => {
                let s = Shape { nbits: rng.range(8, 11), ext: 1, parts: 3, hash: "GL", only: vec![], min_last: 1, queries: 4 };
                s04_case::<Gl>(r, &mut rng, &s)
            }
            _ => {
                let s = shape::<Gl>(&mut rng);
                s04_case::<Gl>(r, &mut rng, &s)
            }
        }
    }
}

// ---------------------------------------------------------------- D02
fn deep<B: Backend>(a: &Proof<B>, b: &Proof<B>) -> Result<(), String> {
    let node = |n: &<B::M as MerkleTree>::MTNode| vals(n.as_elements());
    for (k, x, y) in [("root1", &a.root1, &b.root1), ("root2", &a.root2, &b.root2), ("root3", &a.root3, &b.root3), ("root4", &a.root4, &b.root4)] {
        if node(x) != node(y) {
            return Err(k.into());
        }
    }
    if a.rootC.as_ref().map(node) != b.rootC.as_ref().map(node) {
        return Err("rootC".into());
    }
    let f = |v: &[F3G]| -> Vec<Vec<u64>> { v.iter().map(elems).collect() };
    if f(&a.evals) != f(&b.evals) {
        return Err("evals".into());
    }
    if f(&a.publics) != f(&b.publics) {
        return Err("publics".into());
    }
    if f(&a.fri_proof.last) != f(&b.fri_proof.last) {
        return Err("final polynomial".into());
    }
    if B::ARITY == 16 && a.prover_addr != b.prover_addr {
        return Err("prover address".into());
    }
    let (qa, qb) = (&a.fri_proof.queries, &b.fri_proof.queries);
    if qa.len() != qb.len() {
        return Err(format!("{} query layers became {}", qa.len(), qb.len()));
    }
    for (i, (x, y)) in qa.iter().zip(qb).enumerate() {
        if i > 0 && node(&x.root) != node(&y.root) {
            return Err(format!("FRI root {i}"));
        }
        if x.pol_queries.len() != y.pol_queries.len() {
            return Err(format!("layer {i}: {} queries became {}", x.pol_queries.len(), y.pol_queries.len()));
        }
        for (q, (s, t)) in x.pol_queries.iter().zip(&y.pol_queries).enumerate() {
            if s.len() != t.len() {
                return Err(format!("layer {i} query {q}: {} openings became {}", s.len(), t.len()));
            }
            for (k, (u, v)) in s.iter().zip(t).enumerate() {
                if vals(&u.0) != vals(&v.0) {
                    return Err(format!("layer {i} query {q} opening {k}: values"));
                }
                let l = |m: &Vec<Vec<_>>| -> Vec<Vec<num_bigint::BigUint>> { m.iter().map(|x| B::level(x)).collect() };
                if l(&u.1) != l(&v.1) {
                    return Err(format!("layer {i} query {q} opening {k}: path"));
                }
            }
        }
    }
    Ok(())
}
fn decimals(v: &Value, n: &mut u64) -> Result<(), String> {
    match v {
        Value::String(s) => {
            *n += 1;
            let ok = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0'));
            if ok { Ok(()) } else { Err(s.clone()) }
        }
        Value::Array(a) => a.iter().try_for_each(|x| decimals(x, n)),
        o => Err(o.to_string()),
    }
}
/// every field a verifier circuit reads, with the values of the proof
fn fields_match<B: Backend>(p: &Prog, s: &Setup<B>, proof: &Proof<B>, v: &Value) -> Result<(), String> {
    let m = v.as_object().ok_or("not an object")?;
    let node = |n: &<B::M as MerkleTree>::MTNode| -> Value {
        if B::ARITY == 2 {
            json!(vals(n.as_elements()).iter().map(|x| x.to_string()).collect::<Vec<_>>())
        } else {
            json!(B::node(n).to_string())
        }
    };
    let e3 = |x: &F3G| -> Value {
        let e = elems(x);
        if e.len() == 1 { json!(e[0].to_string()) } else { json!(e.iter().map(|y| y.to_string()).collect::<Vec<_>>()) }
    };
    let list = |x: &[F3G]| -> Value { Value::Array(x.iter().map(e3).collect()) };
    let mut want: Vec<(String, Value)> = vec![
        ("root1".into(), node(&proof.root1)),
        ("root2".into(), node(&proof.root2)),
        ("root3".into(), node(&proof.root3)),
        ("root4".into(), node(&proof.root4)),
        ("rootC".into(), node(&s.const_root)),
        ("evals".into(), list(&proof.evals)),
        ("publics".into(), list(&proof.publics)),
        ("finalPol".into(), list(&proof.fri_proof.last)),
    ];
    let open = |o: &(Vec<fields::field_gl::Fr>, Vec<Vec<<B::M as MerkleTree>::BaseField>>)| -> (Value, Value) {
        let v = json!(vals(&o.0).iter().map(|x| x.to_string()).collect::<Vec<_>>());
        let p = Value::Array(o.1.iter().map(|l| json!(B::level(l).iter().map(|x| x.to_string()).collect::<Vec<_>>())).collect());
        (v, p)
    };
    let q = &proof.fri_proof.queries;
    for (t, name) in ["1", "2", "3", "4", "C"].iter().enumerate() {
        let (a, b): (Vec<Value>, Vec<Value>) = q[0].pol_queries.iter().map(|x| open(&x[t])).unzip();
        want.push((format!("s0_vals{name}"), Value::Array(a)));
        want.push((format!("s0_siblings{name}"), Value::Array(b)));
    }
    for i in 1..q.len() {
        let (a, b): (Vec<Value>, Vec<Value>) = q[i].pol_queries.iter().map(|x| open(&x[0])).unzip();
        want.push((format!("s{i}_root"), node(&q[i].root)));
        want.push((format!("s{i}_vals"), Value::Array(a)));
        want.push((format!("s{i}_siblings"), Value::Array(b)));
    }
    if B::ARITY == 16 {
        want.push(("proverAddr".into(), json!(proof.prover_addr)));
    }
    let _ = p;
    for (k, w) in &want {
        match m.get(k) {
            None => return Err(format!("{k} is missing")),
            Some(g) if squeeze(g) != squeeze(w) => return Err(format!("{k}: {} instead of {}", cut(g), cut(w))),
            _ => {}
        }
    }
    Ok(())
}
fn cut(v: &Value) -> String {
    v.to_string().chars().take(300).collect()
}
/// a node or element printed as a one-element list stands for its only element
fn squeeze(v: &Value) -> Value {
    match v {
        Value::Array(a) if a.len() == 1 && a[0].is_string() => a[0].clone(),
        Value::Array(a) => Value::Array(a.iter().map(squeeze).collect()),
        o => o.clone(),
    }
}
fn d02_case<B: Backend>(r: &mut Report, rng: &mut Rng, sh: &Shape) {
    let p = pilgen::program(rng, sh);
    r.beat(&format!("{}", brief(&p)));
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let Ok(s) = setup::<B>(&p) else { return r.count("setup refused (S01)", 1) };
    let addr = match rng.below(6) {
        0 => "0".into(),
        1 => format!("0{}", rng.u64()),
        2 => format!("{}00", rng.u64()),
        3 => ADDR.into(),
        _ => rng.u64().to_string(),
    };
    let Ok(proof) = prove_with::<B>(&p, &s, &s.starkinfo, &p.cms, &addr) else { return r.count("prover refused (S01)", 1) };
    let t = match guard(|| serde_json::to_string(&proof).map_err(|e| e.to_string())) {
        Ok(Ok(t)) => t,
        e => return r.violation(&key("write"), format!("{e:?}; {}", text(&p))),
    };
    let v: Value = match serde_json::from_str(&t) {
        Ok(v) => v,
        Err(e) => return r.violation(&key("write"), format!("not JSON: {e}; {}", text(&p))),
    };
    let mut n = 0;
    // the address is carried as it was given
    let d = v.as_object().unwrap().iter().filter(|x| x.0 != "proverAddr").try_for_each(|x| decimals(x.1, &mut n));
    r.check(&key("decimal"), d.is_ok(), || format!("{d:?}; {}", text(&p)));
    r.count("numbers checked", n);
    let f = fields_match::<B>(&p, &s, &proof, &v);
    r.check(&key("fields"), f.is_ok(), || format!("{}; {}", f.clone().unwrap_err(), text(&p)));
    // the fields in any order, compact or not
    let t2 = if rng.chance(1, 2) { serde_json::to_string_pretty(&v).unwrap() } else { t.clone() };
    let back: Proof<B> = match guard(|| serde_json::from_str(&t2).map_err(|e| e.to_string())) {
        Ok(Ok(b)) => b,
        e => return r.violation(&key("read"), format!("{:?}; {}", e.map(|x| x.map(|_| ())), text(&p))),
    };
    let d = deep::<B>(&proof, &back);
    r.check(&key("contents"), d.is_ok(), || format!("{} changed; {}", d.clone().unwrap_err(), text(&p)));
    r.check(&key("rewrite"), serde_json::to_string(&back).unwrap() == t, || format!("written again it differs; {}", text(&p)));
    let (a, b) = (verify::<B>(&p, &s, &proof), verify::<B>(&p, &s, &back));
    r.check(&key("verdict"), a == b, || format!("{a:?} became {b:?}; {}", text(&p)));
    // a proof that does not verify must not verify after the round trip either
    let mut bad = back;
    let i = rng.range(0, bad.evals.len() - 1);
    bad.evals[i] = bump_f(rng, &bad.evals[i]);
    if let Ok(Ok(again)) = guard(|| serde_json::from_str::<Proof<B>>(&serde_json::to_string(&bad).unwrap()).map_err(|e| e.to_string())) {
        let (a, b) = (verify::<B>(&p, &s, &bad), verify::<B>(&p, &s, &again));
        r.check(&key("verdict"), a == b, || format!("altered proof: {a:?} became {b:?}; {}", text(&p)));
    }
    seen(r, &p);
    r.count(B::NAME, 1);
    r.observe("bytes of JSON", &t.len());
    r.case(&(B::NAME, t.len(), hash(&t)), true);
    if r.wants_sample() {
        r.sample(brief(&p));
    }
}
fn hash(t: &str) -> u64 {
    common::hash64(&t)
}
fn d02(r: &mut Report) {
    let mut rng = r.rng.fork();
    // now and then more queries than usual
    fn many(rng: &mut Rng, mut s: Shape) -> Shape {
        if rng.chance(1, 6) {
            s.queries = rng.range(40, 140);
            s.nbits = s.nbits.min(5);
        }
        s
    }
    while r.more_time(1.0) {
        match rng.below(6) {
            0 | 1 => {
                let s = shape::<Bn>(&mut rng);
                let s = many(&mut rng, s);
                d02_case::<Bn>(r, &mut rng, &s)
            }
            2 | 3 => {
                let s = shape::<Bls>(&mut rng);
                let s = many(&mut rng, s);
                d02_case::<Bls>(r, &mut rng, &s)
            }
            _ => {
                let s = shape::<Gl>(&mut rng);
                let s = many(&mut rng, s);
                d02_case::<Gl>(r, &mut rng, &s)
            }
        }
    }
}

fn main() {
    let prop = std::env::args().nth(1).unwrap();
    let rule = "a case is a program, trace and parameter set together with what was done to it; distinct by the program text, the trace and the action";
    let mut r = Report::new(&prop, rule, match prop.as_str() {
        "S01" => (30, 900),
        "S02" => (35, 1200),
        "S03" => (30, 900),
        "S04" => (35, 900),
        _ => (15, 400),
    });
    match prop.as_str() {
        "S01" => r.workers(8, s01),
        "S02" => r.workers(8, s02),
        "S03" => r.workers(8, s03),
        "S04" => r.workers(3, s04),
        "D02" => r.workers(8, d02),
        p => panic!("unknown property {p}"),
    }
    r.finish()
}
