//! T01: Fiat-Shamir transcripts against a sponge model, over generated absorb/draw histories.
use common::{gl, gl_val, guard, refused, Report, Rng};
use rayon::prelude::*;
use serde_json::json;
use starky::f3g::F3G;
use starky::traits::{FieldExtension, Transcript};
use starky_mon::backend::*;
use starky_mon::refhash::*;
use starky_mon::sponge::*;
use starky_mon::*;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// one `put` call with these arrays
    Put(Vec<Absorb>),
    Field,
    Field1(usize),
    Positions(usize, usize),
}
type Hist = Vec<Op>;

trait TB: Backend {
    const CURVE: bool;
    fn reference() -> Box<dyn RefTranscript>;
    fn digest(rng: &mut Rng) -> [u64; 4];
}
fn mont_digest(r: &RefPoseidon, rng: &mut Rng) -> [u64; 4] {
    loop {
        let x = match rng.below(5) {
            0 => num_bigint::BigUint::from(rng.below(3)),
            1 => &r.p - 1u32,
            _ => num_bigint::BigUint::from_bytes_le(&rng.bytes(40)) % &r.p,
        };
        let m = r.f.to_mont(&from_big(&x));
        if m.iter().all(|l| *l < common::P) {
            return m;
        }
    }
}
impl TB for Gl {
    const CURVE: bool = false;
    fn reference() -> Box<dyn RefTranscript> {
        Box::<GlT>::default()
    }
    fn digest(rng: &mut Rng) -> [u64; 4] {
        [gl_val(rng), gl_val(rng), gl_val(rng), gl_val(rng)]
    }
}
impl TB for Bn {
    const CURVE: bool = true;
    fn reference() -> Box<dyn RefTranscript> {
        Box::new(CurveT::new(bn()))
    }
    fn digest(rng: &mut Rng) -> [u64; 4] {
        mont_digest(bn(), rng)
    }
}
impl TB for Bls {
    const CURVE: bool = true;
    fn reference() -> Box<dyn RefTranscript> {
        Box::new(CurveT::new(bls()))
    }
    fn digest(rng: &mut Rng) -> [u64; 4] {
        mont_digest(bls(), rng)
    }
}

fn absorb<B: TB>(rng: &mut Rng) -> Absorb {
    match rng.below(4) {
        0 => Absorb::Four(B::digest(rng)),
        1 if !B::CURVE => Absorb::Many((0..rng.range(1, 11)).map(|_| gl_val(rng)).collect()),
        _ => Absorb::One(gl_val(rng)),
    }
}
fn history<B: TB>(rng: &mut Rng) -> Hist {
    let n = rng.range(2, 14);
    let style = rng.below(4);
    let mut h: Hist = (0..n)
        .map(|_| match (style, rng.below(10)) {
            (_, 0..=3) => {
                let k = match rng.below(5) {
                    0 => rng.range(6, 18),
                    1 => *rng.pick(&[7, 8, 15, 16, 17, 32]),
                    _ => rng.range(1, 4),
                };
                Op::Put((0..k).map(|_| absorb::<B>(rng)).collect())
            }
            (0, _) => Op::Field,
            (1, _) | (_, 4 | 5) => Op::Field1(*rng.pick(&[1, 1, 2, 3, 4, 11, 12, 13, 50, 51, 52])),
            (_, 6) => {
                let b = rng.range(1, 24);
                Op::Positions(rng.range(1, 40), b)
            }
            (_, 7) => Op::Positions(*rng.pick(&[1, 8, 32, 63, 64, 128]), *rng.pick(&[1, 3, 9, 21, 23, 24, 31, 32])),
            _ => Op::Field,
        })
        .collect();
    h.push(Op::Field1(2));
    h
}

/// what each draw of the history returned
fn run_real<B: TB>(h: &Hist) -> Result<Vec<Vec<u64>>, String> {
    guard(|| {
        let mut t = B::T::new();
        let mut out = vec![];
        for op in h {
            match op {
                Op::Put(v) => {
                    let es: Vec<Vec<_>> = v
                        .iter()
                        .map(|a| match a {
                            Absorb::One(x) => vec![fe(*x)],
                            Absorb::Four(x) => fes(x),
                            Absorb::Many(x) => fes(x),
                        })
                        .collect();
                    t.put(&es).unwrap();
                }
                Op::Field => {
                    let f: F3G = t.get_field();
                    out.push(vals(&f.as_elements()));
                }
                Op::Field1(n) => out.push((0..*n).map(|_| val(&t.get_fields1().unwrap())).collect()),
                Op::Positions(n, b) => out.push(t.get_permutations(*n, *b).unwrap().iter().map(|x| *x as u64).collect()),
            }
        }
        out
    })
}
fn run_ref<B: TB>(h: &Hist, phases: &mut Vec<(usize, usize, usize)>) -> (Vec<Vec<u64>>, u64) {
    let mut t = B::reference();
    let mut out = vec![];
    for op in h {
        match op {
            Op::Put(v) => v.iter().for_each(|a| t.absorb(a)),
            Op::Field => out.push((0..3).map(|_| t.field1()).collect()),
            Op::Field1(n) => out.push((0..*n).map(|_| t.field1()).collect()),
            Op::Positions(n, b) => out.push(t.positions(*n, *b).iter().map(|x| *x as u64).collect()),
        }
        phases.push(t.phase());
    }
    (out, t.permutations())
}
fn show(h: &Hist) -> String {
    format!("{h:?}").chars().take(1500).collect()
}

/// one absorbed value changed, dropped, added or exchanged; returns the op where the histories part
fn mutate<B: TB>(rng: &mut Rng, h: &Hist) -> Option<(Hist, usize, &'static str)> {
    let puts: Vec<usize> = (0..h.len()).filter(|i| matches!(h[*i], Op::Put(_))).collect();
    if puts.is_empty() {
        return None;
    }
    let at = *rng.pick(&puts);
    let mut m = h.clone();
    let Op::Put(v) = &mut m[at] else { unreachable!() };
    let j = rng.range(0, v.len() - 1);
    let what = match rng.below(5) {
        0 if v.len() > 1 && v.iter().any(|x| *x != v[0]) => {
            v.swap(0, j);
            "reordered"
        }
        1 => {
            v.remove(j);
            "dropped"
        }
        2 => {
            v.insert(j, Absorb::One(1 + rng.below(common::P - 1)));
            "added"
        }
        _ => {
            v[j] = match &v[j] {
                Absorb::One(x) => Absorb::One(gl::add(*x, *rng.pick(&[1, common::P - 1, 1 << 32]))),
                Absorb::Four(_) => Absorb::Four(B::digest(rng)),
                Absorb::Many(x) => {
                    let mut x = x.clone();
                    let k = rng.range(0, x.len() - 1);
                    x[k] = gl::add(x[k], 1);
                    Absorb::Many(x)
                }
            };
            "changed"
        }
    };
    (m != *h).then_some((m, at, what))
}

fn batch<B: TB>(r: &mut Report, rng: &mut Rng, n: usize) {
    r.beat(B::NAME);
    let seeds: Vec<u64> = (0..n).map(|_| rng.u64()).collect();
    let res: Vec<_> = seeds
        .par_iter()
        .map(|s| {
            let mut rng = Rng::new(*s);
            let h = history::<B>(&mut rng);
            let mut ph = vec![];
            let (want, perms) = run_ref::<B>(&h, &mut ph);
            let got = run_real::<B>(&h);
            let again = run_real::<B>(&h);
            let mu = mutate::<B>(&mut rng, &h).map(|(m, at, what)| {
                let mut p2 = vec![];
                let w = run_ref::<B>(&m, &mut p2).0;
                (run_real::<B>(&m), w, m, at, what)
            });
            (h, ph, want, perms, got, again, mu)
        })
        .collect();
    for (h, ph, want, perms, got, again, mu) in res {
        let k = |s: &str| format!("{}-{s}", B::NAME);
        r.check(&k("draws"), got.as_ref() == Ok(&want), || {
            let w = got.as_ref().ok().map(|g| g.iter().zip(&want).position(|(a, b)| a != b));
            format!("{}: draws differ from the sponge's at draw {w:?}: {got:?}, expected {want:?}; history {}", B::NAME, show(&h))
        });
        r.check(&k("deterministic"), got == again, || format!("{}: two runs of one history differ; {}", B::NAME, show(&h)));
        if let Ok(g) = &got {
            let ops: Vec<&Op> = h.iter().filter(|o| !matches!(o, Op::Put(_))).collect();
            for (o, d) in ops.iter().zip(g) {
                match o {
                    Op::Positions(n, b) => {
                        r.check(&k("position-range"), d.len() == *n && d.iter().all(|x| *x < 1u64 << b), || format!("{n} positions of {b} bits: {d:?}"));
                        r.count("positions drawn", *n as u64);
                    }
                    _ => {
                        r.check(&k("canonical"), d.iter().all(|x| *x < common::P), || format!("{d:?}"));
                        r.count("elements drawn", d.len() as u64);
                    }
                }
            }
        }
        if let Some((g2, w2, m, at, what)) = mu {
            // draws of the reference decide whether the change is one the padding hides
            let before = h[..at].iter().filter(|o| !matches!(o, Op::Put(_))).count();
            if w2[before..] != want[before..] {
                if let (Ok(a), Ok(b)) = (&got, &g2) {
                    r.check(&k("prefix"), a[..before] == b[..before], || format!("{}: a value absorbed later changed earlier draws; {}", B::NAME, show(&h)));
                    r.check(&k("draws"), b == &w2, || format!("{}: draws differ from the sponge's: {b:?}, expected {w2:?}; history {}", B::NAME, show(&m)));
                    // every later draw the sponge makes depend on the value does depend on it
                    let same = (before..a.len()).find(|i| a[*i] == b[*i] && want[*i] != w2[*i]);
                    r.check(&k("binding"), same.is_none(), || format!("{}: {what} value at op {at} leaves a later draw unchanged; {} versus {}", B::NAME, show(&h), show(&m)));
                    r.count("mutated histories", 1);
                    r.observe("mutations", &(B::NAME, what));
                }
            }
        }
        r.count(B::NAME, 1);
        r.count("reference permutations", perms);
        for p in ph {
            r.observe("sponge phases (pending, unread, limbs)", &(B::NAME, p));
        }
        r.case(&(B::NAME, format!("{h:?}")), h.iter().any(|o| matches!(o, Op::Put(_))));
        if r.wants_sample() {
            r.sample(json!({"backend": B::NAME, "ops": h.iter().map(|o| match o { Op::Put(v) => format!("put {}", v.len()), Op::Field => "field".into(), Op::Field1(n) => format!("{n} x field1"), Op::Positions(n, b) => format!("{n} positions of {b} bits") }).collect::<Vec<_>>(), "last draw": want.last()}));
        }
    }
}

/// no draw repeats: consecutive draws are fresh sponge output
fn fresh<B: TB>(r: &mut Report, rng: &mut Rng) {
    let mut t = B::T::new();
    let x = gl_val(rng);
    let _ = guard(|| t.put(&[vec![fe(x)]]));
    let v: Vec<u64> = (0..200).filter_map(|_| guard(|| val(&t.get_fields1().unwrap())).ok()).collect();
    let d: std::collections::HashSet<_> = v.iter().collect();
    r.check(&format!("{}-fresh", B::NAME), v.len() == 200 && d.len() == v.len(), || format!("{}: {} draws, {} distinct, after absorbing {x}", B::NAME, v.len(), d.len()));
}

fn main() {
    let mut r = Report::new(
        "T01",
        "generated histories of absorb / field / element / position operations per backend, each also run twice and with one absorbed value changed, dropped, added or reordered; non-trivial: absorbs something; distinct by history",
        (20, 600),
    );
    let mut rng = r.rng.fork();
    r.assume("reference sponge over the textbook permutations; a partial block is padded with zeros, so absorbing trailing zeros of a block is the one change the construction does not see");
    for n in [2, 3, 5, 6] {
        for (k, x) in [("BN128", refused(|| TBput::<Bn>(n))), ("BLS12381", refused(|| TBput::<Bls>(n)))] {
            r.check(&format!("{k}-array-length"), x, || format!("{k}: an array of {n} elements is absorbed"));
        }
    }
    while r.more_time(1.0) {
        fresh::<Gl>(&mut r, &mut rng);
        fresh::<Bn>(&mut r, &mut rng);
        fresh::<Bls>(&mut r, &mut rng);
        batch::<Gl>(&mut r, &mut rng, 400);
        batch::<Bn>(&mut r, &mut rng, 48);
        batch::<Bls>(&mut r, &mut rng, 48);
    }
    r.finish()
}
#[allow(non_snake_case)]
fn TBput<B: TB>(n: usize) -> anyhow::Result<()> {
    let mut t = B::T::new();
    t.put(&[vec![fe(1); n]])
}
