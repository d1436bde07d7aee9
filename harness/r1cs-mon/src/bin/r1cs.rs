//! R01: R1CS files are decoded faithfully and malformed ones are refused.
//! R03: circuit synthesis is satisfied exactly by satisfying assignments.
use common::{in_child, scratch, Ended, Report, Rng};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use r1cs_mon::imp::{all, Imp};
use r1cs_mon::*;
use serde_json::json;

fn pick_prime(r: &mut Rng) -> Prime {
    *r.pick(&PRIMES)
}

/// section order and unknown sections
fn dress(r: &mut Rng, s: &Spec) -> Vec<u8> {
    let mut v = sections(s);
    if r.chance(1, 2) {
        r.shuffle(&mut v);
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let k = r.range(0, v.len());
            let n = r.range(0, 200);
            v.insert(k, (*r.pick(&[6u32, 7, 100, 0, u32::MAX]), r.bytes(n)));
        }
    }
    file(&v)
}

fn faithful(rep: &mut Report, imps: &[Box<dyn Imp>]) {
    let mut n = 0;
    while rep.more_time(0.5) && n < 20000 {
        let prime = pick_prime(&mut rep.rng);
        let big = n % 40 == 39;
        let s = if n % 150 == 35 { broad(&mut rep.rng, prime) } else if n % 150 == 75 { tall(&mut rep.rng, prime) } else { random(&mut rep.rng, prime, big) };
        let f = dress(&mut rep.rng, &s);
        n += 1;
        for i in imps.iter().filter(|i| i.prime() == prime) {
            rep.case(&(i.name(), &f), !s.constraints.is_empty());
            rep.observe("shape", &(s.constraints.len(), s.n_wires, s.gates.as_ref().map(|g| g.len()), s.uses.as_ref().map(|g| g.len())));
            match rep.guard(|| i.decode(&f)) {
                Ok(Ok(d)) => {
                    let e = expected(&s);
                    let ok = d == e;
                    rep.check("decode", ok, || if s.n_wires > 60_000 {
                        format!("{}: decoded {:?} of {} wires, the file encodes {:?}", i.name(), d.constraints, d.map.len(), e.constraints)
                    } else {
                        format!("{}: decoded {d:?}, the file encodes {e:?}", i.name())
                    });
                }
                x => rep.violation("decode-refused", format!("{}: a well-formed file was refused: {x:?}; {s:?}", i.name())),
            }
            if s.n_wires > 0 {
                let e = expected_loaded(&s);
                match rep.guard(|| i.load_bin(&f)) {
                    Ok(l) => {
                        rep.check("load", l == e, || format!("{}: loaded {l:?}, the file encodes {e:?}", i.name()));
                    }
                    Err(x) => rep.violation("load-refused", format!("{}: {x}", i.name())),
                }
            }
        }
        if rep.wants_sample() && n % 7 == 0 {
            rep.sample(json!({"prime": format!("{prime:?}"), "wires": s.n_wires, "constraints": s.constraints.len(), "gates": s.gates.as_ref().map(|g| g.len()), "bytes": f.len()}));
        }
    }
    rep.count("files decoded", n);
}

/// the JSON form of circuits
fn json_form(rep: &mut Report, imps: &[Box<dyn Imp>], dir: &str) {
    for k in 0..60 {
        let prime = pick_prime(&mut rep.rng);
        let mut s = random(&mut rep.rng, prime, k % 20 == 19);
        s.gates = None;
        s.uses = None;
        let lcj = |l: &Lc| serde_json::Value::Object(l.iter().map(|(i, c)| (i.to_string(), json!(c.to_str_radix(10)))).collect());
        let j = json!({"constraints": s.constraints.iter().map(|c| json!([lcj(&c[0]), lcj(&c[1]), lcj(&c[2])])).collect::<Vec<_>>(),
            "nPubInputs": s.n_pub_in, "nOutputs": s.n_pub_out, "nVars": s.n_wires});
        let path = format!("{dir}/c.json");
        std::fs::write(&path, j.to_string()).unwrap();
        let bin = format!("{dir}/c.r1cs");
        std::fs::write(&bin, file(&sections(&s))).unwrap();
        for i in imps.iter().filter(|i| i.prime() == prime) {
            let mut e = expected_loaded(&s);
            e.map = vec![];
            for p in [&path, &bin] {
                rep.case(&(i.name(), p, j.to_string()), true);
                match rep.guard(|| i.load_file(p)) {
                    Ok(mut l) => {
                        for c in l.constraints.iter_mut() {
                            for x in c.iter_mut() {
                                x.sort_by_key(|t| t.0);
                            }
                        }
                        rep.check("load-file", l == e, || format!("{}: {p}: loaded {l:?}, the file encodes {e:?}", i.name()));
                    }
                    Err(x) => rep.violation("load-file-refused", format!("{}: {p}: {x}", i.name())),
                }
            }
        }
    }
}

/// decodes in a child with little memory; Ok(refused)
fn probe(i: &dyn Imp, f: &[u8]) -> Result<bool, String> {
    match in_child(1500, 20, || vec![matches!(i.decode(f), Ok(_)) as u8]) {
        Ended::Returned(b) => Ok(b != [1]),
        Ended::Panicked => Ok(true),
        Ended::Signal(s) => Err(format!("ended by signal {s} (out of memory or crash)")),
        Ended::Timeout => Err("did not come to an end".into()),
    }
}
fn expect_refused(rep: &mut Report, i: &dyn Imp, key: &str, what: &str, f: &[u8]) {
    rep.case(&(i.name(), key, f), true);
    rep.count("malformed files", 1);
    match probe(i, f) {
        Ok(true) => {}
        Ok(false) => rep.violation(key, format!("{}: {what}: the file was accepted ({} bytes: {})", i.name(), f.len(), hexs(f))),
        Err(e) => rep.violation(key, format!("{}: {what}: the reader {e} ({} bytes: {})", i.name(), f.len(), hexs(f))),
    }
}
fn hexs(f: &[u8]) -> String {
    f.iter().take(400).map(|b| format!("{b:02x}")).collect()
}

fn malformed(rep: &mut Report, imps: &[Box<dyn Imp>]) {
    let rounds = if common::thorough() { 40 } else { 12 };
    for round in 0..rounds {
        for i in imps {
            let p = i.prime();
            let mut s = random(&mut rep.rng, p, false);
            if round % 2 == 0 && s.gates.is_none() {
                s.gates = Some(vec![("EvPol4".into(), vec![BigUint::from(3u32)])]);
                s.uses = Some(vec![(0, vec![1, 2, 3])]);
            }
            let mut secs = sections(&s);
            if round > 0 {
                rep.rng.shuffle(&mut secs);
            }
            if round % 3 == 2 {
                let n = rep.rng.range(1, 40);
                secs.push((9, rep.rng.bytes(n)));
            }
            let f = file(&secs);
            // truncation at every byte, in one child
            let cuts: Vec<usize> = (0..f.len()).collect();
            rep.beat(&format!("{} truncations of {}", i.name(), hexs(&f)));
            rep.count("truncations", cuts.len() as u64);
            rep.case(&(i.name(), "truncations", &f), true);
            let end = in_child(1500, 60, || {
                let mut bad = vec![];
                for c in &cuts {
                    if matches!(common::guard(|| i.decode(&f[..*c])), Ok(Ok(_))) {
                        bad.extend((*c as u32).to_le_bytes());
                    }
                }
                bad
            });
            match end {
                Ended::Returned(b) if b.is_empty() => {}
                Ended::Returned(b) => {
                    let c = u32::from_le_bytes(b[..4].try_into().unwrap());
                    rep.violation("truncated-accepted", format!("{}: cut to {c} of {} bytes, accepted: {}", i.name(), f.len(), hexs(&f)));
                }
                _ => {
                    for c in cuts {
                        if let Err(e) = probe(i.as_ref(), &f[..c]) {
                            rep.violation("truncated", format!("{}: cut to {c} of {} bytes, the reader {e}: {}", i.name(), f.len(), hexs(&f)));
                            break;
                        }
                    }
                }
            }
            // magic, version
            for k in 0..4 {
                let mut g = f.clone();
                g[k] ^= 1 << rep.rng.below(8);
                expect_refused(rep, i.as_ref(), "magic", "wrong magic number", &g);
            }
            for v in [0u32, 2, 3, 0x0100_0000, u32::MAX, 1 << 16 | 1] {
                let mut g = f.clone();
                g[4..8].copy_from_slice(&v.to_le_bytes());
                expect_refused(rep, i.as_ref(), "version", "unsupported version", &g);
            }
            // another field
            let base = sections(&s);
            let with = |h: Vec<u8>| {
                let mut v = base.clone();
                v[0].1 = h;
                file(&v)
            };
            for q in PRIMES.iter().filter(|q| **q != p) {
                let g = file(&sections(&Spec { prime: *q, constraints: vec![], gates: None, uses: None, ..s.clone() }));
                expect_refused(rep, i.as_ref(), "field", &format!("a {q:?} circuit read as {p:?}"), &g);
                // the other prime over this field's elements
                if q.bytes() == p.bytes() {
                    let mut h = base[0].1.clone();
                    h[4..4 + p.bytes()].copy_from_slice(&q.le(&q.modulus()));
                    expect_refused(rep, i.as_ref(), "field", &format!("header says {q:?}, read as {p:?}"), &with(h));
                }
            }
            for k in 0..p.bytes() {
                let mut h = base[0].1.clone();
                h[4 + k] ^= 1 << rep.rng.below(8);
                expect_refused(rep, i.as_ref(), "field", "prime differing in one bit", &with(h));
            }
            for fs in [0u32, 4, 16, 31, 33, 64, 0x7fff_ffff, u32::MAX] {
                let mut h = base[0].1.clone();
                h[..4].copy_from_slice(&fs.to_le_bytes());
                expect_refused(rep, i.as_ref(), "field-size", "header with another field size", &with(h.clone()));
                if fs < 100 {
                    let mut h2 = fs.to_le_bytes().to_vec();
                    let mut pr = p.le(&p.modulus());
                    pr.resize(fs as usize, 0);
                    h2.extend(pr);
                    h2.extend(&base[0].1[4 + p.bytes()..]);
                    expect_refused(rep, i.as_ref(), "field-size", "consistent header with another field size", &with(h2));
                }
            }
            // counts promising more than the file holds, in a file that ends right there
            let hdr = base[0].1.clone();
            let pb = p.bytes();
            let n_cons_at = 4 + pb + 16 + 8;
            for n in [s.constraints.len() as u32 + 1, 1 << 20, 0x3fff_ffff, u32::MAX] {
                let mut h = hdr.clone();
                h[n_cons_at..].copy_from_slice(&n.to_le_bytes());
                // constraints last
                let v = vec![(1, h), base[2].clone(), base[1].clone()];
                expect_refused(rep, i.as_ref(), "counts", "more constraints announced than present", &file(&v));
                // a linear combination announcing n terms
                let mut h = hdr.clone();
                h[n_cons_at..].copy_from_slice(&1u32.to_le_bytes());
                let mut c = vec![];
                u32le(&mut c, n.max(3));
                c.extend(vec![0u8; 4 + pb]);
                let v = vec![(1, h), base[2].clone(), (2, c)];
                expect_refused(rep, i.as_ref(), "counts", "more terms announced than present", &file(&v));
                // custom gates
                for body in [vec![n.max(2), 0x0000_4141], vec![n.max(2)], vec![1, 0x41414141], vec![1, 0x0041_4141, n]] {
                    let mut c = vec![];
                    for w in &body {
                        u32le(&mut c, *w);
                    }
                    let v = vec![base[0].clone(), base[1].clone(), base[2].clone(), (4, c.clone())];
                    expect_refused(rep, i.as_ref(), "gates", "custom gate list that ends early", &file(&v));
                    let v = vec![base[0].clone(), base[1].clone(), base[2].clone(), (5, c)];
                    if body != [1, 0x0041_4141, n] || n > 0 {
                        expect_refused(rep, i.as_ref(), "gate-uses", "custom gate uses that end early", &file(&v));
                    }
                }
                // wires
                let mut h = hdr.clone();
                h[4 + pb..8 + pb].copy_from_slice(&n.max(s.n_wires + 1).to_le_bytes());
                expect_refused(rep, i.as_ref(), "counts", "more wires announced than mapped", &with(h));
            }
            // the constant wire
            for v in [1u64, 2, s.map.get(1).copied().unwrap_or(5).max(1), 1 << 32, 1 << 63, rep.rng.u64() | 1] {
                let mut v2 = base.clone();
                let k = v2.iter().position(|x| x.0 == 3).unwrap();
                v2[k].1[..8].copy_from_slice(&v.to_le_bytes());
                expect_refused(rep, i.as_ref(), "constant-wire", "wire 0 is not the constant one", &file(&v2));
            }
            // section sizes
            for (k, _) in base.iter().enumerate() {
                let mut at = 12;
                for b in &base[..k] {
                    at += 12 + b.1.len();
                }
                let whole = file(&base);
                for sz in [u64::MAX, u64::MAX - 11, 1 << 63, 1 << 40, (whole.len() - at - 12) as u64 + 1] {
                    let mut g = whole.clone();
                    g[at + 4..at + 12].copy_from_slice(&sz.to_le_bytes());
                    expect_refused(rep, i.as_ref(), "section-size", "section larger than the file", &g);
                }
            }
            // sections whose size is not what the header's counts make it
            for more in [1usize, 4, 8, 32, 64] {
                for what in [1u32, 3] {
                    let mut v = base.clone();
                    let k = v.iter().position(|x| x.0 == what).unwrap();
                    let fill = *rep.rng.pick(&[0u8, 1, 255]);
                    v[k].1.extend(vec![fill; more]);
                    expect_refused(rep, i.as_ref(), "section-length", &format!("section {what} longer by {more} bytes than the counts say"), &file(&v));
                }
            }
            let mut g = file(&base);
            g[8..12].copy_from_slice(&u32::MAX.to_le_bytes());
            expect_refused(rep, i.as_ref(), "section-count", "more sections announced than present", &g);
        }
    }
}

fn r01(mut rep: Report) -> ! {
    let imps = all();
    let dir = scratch();
    faithful(&mut rep, &imps);
    json_form(&mut rep, &imps, &dir);
    malformed(&mut rep, &imps);
    for (path, p) in [("/repo/test/multiplier.r1cs", Prime::Bn254), ("/repo/groth16/test-vectors/mycircuit_bls12381.r1cs", Prime::Bls381)] {
        let f = std::fs::read(path).unwrap();
        for i in imps.iter().filter(|i| i.prime() == p) {
            let d = i.decode(&f).unwrap();
            rep.case(&(i.name(), path), true);
            rep.check("sample-file", d.header[..5] == [4, 1, 0, 2, 4] && d.constraints.len() == 1, || format!("{d:?}"));
        }
    }
    rep.finish()
}

/// a circuit and an assignment that satisfies it
fn satisfiable(r: &mut Rng, prime: Prime, big: bool) -> (Spec, Vec<BigUint>) {
    let p = prime.modulus();
    let mut s = if big && r.chance(1, 2) { broad(r, prime) } else { random(r, prime, big) };
    s.gates = None;
    s.uses = None;
    let mut w: Vec<BigUint> = (0..s.n_wires).map(|_| prime.elem(r)).collect();
    w[0] = BigUint::one();
    if s.n_wires > 2 && r.chance(1, 4) {
        let a = r.range(1, w.len() - 1);
        w[a] = BigUint::zero();
    }
    for c in s.constraints.iter_mut() {
        // make C hold by adjusting one coefficient on a wire with a non-zero value
        let d: Vec<Vec<(usize, BigUint)>> = c.iter().map(sorted).collect();
        let ab = eval(&d[0], &w, &p) * eval(&d[1], &w, &p) % &p;
        let cv = eval(&d[2], &w, &p);
        let diff = (ab + &p - cv) % &p;
        if diff.is_zero() {
            continue;
        }
        let k = loop {
            let k = r.below(s.n_wires as u64) as usize;
            if !w[k].is_zero() {
                break k;
            }
        };
        let add = diff * inv(&w[k], &p) % &p;
        if let Some(t) = c[2].iter_mut().find(|t| t.0 as usize == k) {
            t.1 = (&t.1 + add) % &p;
        } else {
            c[2].push((k as u32, add));
        }
    }
    (s, w)
}
fn sat_recorded(y: &Synth, p: &BigUint) -> Vec<bool> {
    let value = |t: &(bool, usize, BigUint)| {
        let v = if t.0 {
            if t.1 == 0 {
                BigUint::one()
            } else {
                y.inputs[t.1 - 1].clone()
            }
        } else {
            y.aux[t.1].clone()
        };
        &t.2 * v % p
    };
    let ev = |l: &Vec<(bool, usize, BigUint)>| l.iter().fold(BigUint::zero(), |s, t| (s + value(t)) % p);
    y.constraints.iter().map(|c| ev(&c[0]) * ev(&c[1]) % p == ev(&c[2])).collect()
}

fn r03(mut rep: Report) -> ! {
    let imps = all();
    let dir = scratch();
    rep.assume("the constraint-system trait of the CPU crate comes from a stand-in for franklin-crypto; the code under test is /repo's");
    let mut n = 0u64;
    while rep.more_time(1.0) && n < 4000 {
        n += 1;
        let prime = pick_prime(&mut rep.rng);
        let p = prime.modulus();
        let (s, w) = satisfiable(&mut rep.rng, prime, n % 40 == 0);
        rep.observe("longest linear combination, in powers of two", &s.constraints.iter().flatten().map(|l| l.len()).max().map(|l| l.max(1).ilog2()));
        let path = format!("{dir}/s.r1cs");
        std::fs::write(&path, file(&sections(&s))).unwrap();
        let ni = (1 + s.n_pub_in + s.n_pub_out) as usize;
        // assignments: the satisfying one, and some with changed wires
        let mut ws = vec![w.clone()];
        for _ in 0..4 {
            let mut v = w.clone();
            if v.len() > 1 {
                for _ in 0..rep.rng.range(1, 2) {
                    let k = rep.rng.range(1, v.len() - 1);
                    v[k] = match rep.rng.below(3) {
                        0 => (&v[k] + 1u32) % &p,
                        1 => (&p - &v[k]) % &p,
                        _ => prime.elem(&mut rep.rng),
                    };
                }
            }
            ws.push(v);
        }
        for i in imps.iter().filter(|i| i.prime() == prime) {
            let nontrivial: Vec<usize> = (0..s.constraints.len())
                .filter(|k| {
                    let c = &s.constraints[*k];
                    !((c[0].is_empty() || c[1].is_empty()) && c[2].is_empty())
                })
                .collect();
            let Some(sh) = rep.must("shape", || format!("{} {s:?}", i.name()), || i.shape(&path)) else { continue };
            rep.check("shape", sh == (ni - 1, s.n_wires as usize - ni, nontrivial.len()), || {
                format!("{}: key generation sees {sh:?} (inputs, aux, constraints); the circuit has {ni}-1 inputs, {} wires, {} constraints", i.name(), s.n_wires, nontrivial.len())
            });
            for (wi, v) in ws.iter().enumerate() {
                let off = if rep.rng.chance(1, 4) { rep.rng.range(1, 5) } else { 0 };
                let map: Option<Vec<usize>> = rep.rng.chance(1, 3).then(|| {
                    let mut m: Vec<usize> = (0..v.len()).collect();
                    rep.rng.shuffle(&mut m[1..]);
                    m
                });
                // with a wire map, the witness is stored by label
                let stored: Vec<BigUint> = match &map {
                    None => v.clone(),
                    Some(m) => {
                        let mut o = vec![BigUint::zero(); v.len()];
                        for (k, l) in m.iter().enumerate() {
                            o[*l] = v[k].clone();
                        }
                        o
                    }
                };
                let Some(y) = rep.must("synthesize", || format!("{} {s:?}", i.name()), || i.synth(&path, &stored, map.clone(), off)) else {
                    continue;
                };
                rep.case(&(i.name(), n, wi), !s.constraints.is_empty());
                rep.count(if wi == 0 { "satisfying assignments" } else { "other assignments" }, 1);
                let want_pub = &v[1..ni];
                rep.check("inputs", y.inputs == want_pub, || format!("{}: inputs {:?}, the public wires hold {want_pub:?} (map {map:?})", i.name(), y.inputs));
                rep.check("public", y.public == want_pub, || format!("{}: reported public inputs {:?}, the public wires hold {want_pub:?} (map {map:?})", i.name(), y.public));
                let js: Vec<String> = want_pub.iter().map(|x| x.to_str_radix(10)).collect();
                rep.check("public-json", y.public_json == js, || format!("{}: public inputs as JSON {:?}, the public wires hold {js:?}", i.name(), y.public_json));
                rep.check("aux", y.aux == v[ni..], || format!("{}: auxiliary values {:?}, the private wires hold {:?}", i.name(), y.aux, &v[ni..]));
                if !rep.check("constraints", y.constraints.len() == nontrivial.len(), || format!("{}: {} constraints for {}", i.name(), y.constraints.len(), nontrivial.len())) {
                    continue;
                }
                let got = sat_recorded(&y, &p);
                for (k, g) in nontrivial.iter().zip(&got) {
                    let c = &s.constraints[*k];
                    let d = [sorted(&c[0]), sorted(&c[1]), sorted(&c[2])];
                    let want = holds(&d, v, &p);
                    rep.count(if want { "constraints holding" } else { "constraints violated" }, 1);
                    rep.check("satisfied", *g == want, || {
                        format!("{}: constraint {k} ({d:?}) under {v:?}: R1CS {want}, synthesised {g}", i.name())
                    });
                }
                // a constraint left out never matters
                for k in 0..s.constraints.len() {
                    if !nontrivial.contains(&k) {
                        let c = &s.constraints[k];
                        assert!(holds(&[sorted(&c[0]), sorted(&c[1]), sorted(&c[2])], v, &p));
                    }
                }
                if wi == 0 {
                    rep.check("complete", got.iter().all(|x| *x), || format!("{}: the satisfying assignment does not satisfy the synthesised system", i.name()));
                }
            }
        }
        if rep.wants_sample() && n % 9 == 0 {
            rep.sample(json!({"prime": format!("{prime:?}"), "wires": s.n_wires, "constraints": s.constraints.len(), "public": ni - 1}));
        }
    }
    rep.finish()
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    match prop.as_str() {
        "R01" => r01(Report::new("R01", "an R1CS file (well-formed, or altered and then expected to be refused) given to one reader at one field; non-trivial when it has constraints or is malformed", (25, 900))),
        "R03" => r03(Report::new("R03", "(circuit, assignment, wire map, variable offset) synthesised into a recording constraint system; non-trivial when the circuit has constraints", (20, 900))),
        _ => panic!("unknown property {prop}"),
    }
}
