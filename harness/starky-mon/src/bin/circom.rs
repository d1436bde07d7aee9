//! V01: the generated recursive verifier decides like the native one. V02: the library circuits compute the native
//! functions and admit nothing else.
use common::{gl, guard, Report, Rng};
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use serde_json::{json, Map, Value};
use starky::pil2circom::{pil2circom, StarkOption};
use starky::stark_gen::verif;
use starky::starkinfo::{Program as Code, StarkInfo};
use starky_mon::attack::*;
use starky_mon::backend::*;
use starky_mon::circom::*;
use starky_mon::ext::cubic;
use starky_mon::pilref::Trace;
use starky_mon::pilgen::{self, brief, Prog, Shape, KINDS};
use starky_mon::refhash::*;
use starky_mon::starks::*;
use starky_mon::*;
use std::collections::HashMap;

fn int(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}
fn big(x: u64) -> BigUint {
    BigUint::from(x)
}
fn circuit_text(name: &str) -> Option<String> {
    let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    std::fs::read_to_string(format!("{root}/stark-circuits/circuits/{name}")).ok()
}

// ---------------------------------------------------------------- circuits of libraries outside the repository
fn gl_inv3(a: &cubic::E) -> cubic::E {
    let pow = |b: &cubic::E| {
        let (mut r, mut b, mut k) = (cubic::base(1), *b, common::P);
        while k > 0 {
            if k & 1 == 1 {
                r = cubic::mul(&r, &b);
            }
            b = cubic::mul(&b, &b);
            k >>= 1;
        }
        r
    };
    let ap = pow(a);
    let b = cubic::mul(&ap, &pow(&ap));
    cubic::scale(&b, gl::inv(cubic::mul(a, &b)[0]))
}
fn e3(v: &[u64]) -> cubic::E {
    v.try_into().unwrap()
}
fn idft3(v: &[u64], bits: usize) -> Vec<u64> {
    let n = 1 << bits;
    let mut o = vec![0; 3 * n];
    for e in 0..3 {
        let c: Vec<u64> = (0..n).map(|i| v[3 * i + e]).collect();
        for (i, x) in starky_mon::ext::idft(&c, gl::root(bits)).into_iter().enumerate() {
            o[3 * i + e] = x;
        }
    }
    o
}
fn horner(pol: &[u64], x: &cubic::E) -> cubic::E {
    pol.chunks(3).rev().fold([0; 3], |a, c| cubic::add(&cubic::mul(&a, x), &e3(c)))
}
fn select<T: Clone>(v: &[T], key: &[bool]) -> T {
    let k = key.iter().enumerate().fold(0, |a, (i, b)| a | (*b as usize) << i);
    v[k].clone()
}
fn bits_of(v: &[u64]) -> Result<Vec<bool>, String> {
    v.iter().map(|b| if *b < 2 { Ok(*b == 1) } else { Err("key is not made of bits".to_string()) }).collect()
}
/// the Goldilocks flavour relies on a library of custom gates that is not part of the repository
fn gl_library() -> Program<GlF> {
    let mut p = Program::new(GlF);
    let roots: Vec<String> = (0..33).map(|i| gl::root(i).to_string()).collect();
    p.load("gl-library", &format!("function roots(i) {{ var roots[33] = [{}]; return roots[i]; }}", roots.join(",")), &|_| None).unwrap();
    let v3 = |n: &'static str| (n, vec![3usize]);
    p.builtin(
        "Poseidon",
        |a| Ports { inputs: vec![("in", vec![8]), ("capacity", vec![4])], outputs: vec![("out", vec![a[0]])] },
        |_, a, i| {
            let cap: [u64; 4] = i[1].clone().try_into().unwrap();
            Ok(vec![gl_hash(&i[0], &cap)[..a[0]].to_vec()])
        },
    );
    p.builtin("CMul", move |_| Ports { inputs: vec![v3("ina"), v3("inb")], outputs: vec![v3("out")] }, |_, _, i| {
        Ok(vec![cubic::mul(&e3(&i[0]), &e3(&i[1])).to_vec()])
    });
    p.builtin("CMulAdd", move |_| Ports { inputs: vec![v3("ina"), v3("inb"), v3("inc")], outputs: vec![v3("out")] }, |_, _, i| {
        Ok(vec![cubic::add(&cubic::mul(&e3(&i[0]), &e3(&i[1])), &e3(&i[2])).to_vec()])
    });
    p.builtin("CInv", move |_| Ports { inputs: vec![v3("in")], outputs: vec![v3("out")] }, |_, _, i| {
        if i[0] == [0; 3] {
            return Err("inverse of zero".into());
        }
        Ok(vec![gl_inv3(&e3(&i[0])).to_vec()])
    });
    p.builtin("Num2Bits_strict", |_| Ports { inputs: vec![("in", vec![])], outputs: vec![("out", vec![64])] }, |_, _, i| {
        Ok(vec![(0..64).map(|k| i[0][0] >> k & 1).collect()])
    });
    p.builtin(
        "FFT",
        |a| Ports { inputs: vec![("in", vec![1 << a[0], a[1]])], outputs: vec![("out", vec![1 << a[0], a[1]])] },
        |_, a, i| {
            assert!(a[1] == 3);
            if a[2] == 1 {
                return Ok(vec![idft3(&i[0], a[0])]);
            }
            Err("forward transform not expected".into())
        },
    );
    p.builtin(
        "EvalPol",
        |a| Ports { inputs: vec![("pol", vec![a[0], 3]), ("x", vec![3])], outputs: vec![("out", vec![3])] },
        |_, _, i| Ok(vec![horner(&i[0], &e3(&i[1])).to_vec()]),
    );
    p.builtin(
        "TreeSelector",
        |a| Ports { inputs: vec![("values", vec![1 << a[0], a[1]]), ("key", vec![a[0]])], outputs: vec![("out", vec![a[1]])] },
        |_, a, i| {
            let v: Vec<Vec<u64>> = i[0].chunks(a[1]).map(|c| c.to_vec()).collect();
            Ok(vec![select(&v, &bits_of(&i[1])?)])
        },
    );
    p.builtin(
        "MerkleHash",
        |a| {
            let k = a[2].trailing_zeros() as usize;
            Ports { inputs: vec![("values", vec![a[1], a[0]]), ("siblings", vec![k, 4]), ("key", vec![k])], outputs: vec![("root", vec![4])] }
        },
        |_, _, i| {
            let mut d = Gl::leaf(&i[0]);
            for (sib, right) in i[1].chunks(4).zip(bits_of(&i[2])?) {
                let s = to_big(&sib.try_into().unwrap());
                d = if right { Gl::parent(&[s, d]) } else { Gl::parent(&[d, s]) };
            }
            Ok(vec![from_big(&d).to_vec()])
        },
    );
    p
}
fn sha256(bits: &[bool]) -> Vec<bool> {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7,
        0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
        0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819,
        0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
        0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut m = bits.to_vec();
    m.push(true);
    while m.len() % 512 != 448 {
        m.push(false);
    }
    for k in (0..64).rev() {
        m.push(bits.len() as u64 >> k & 1 == 1);
    }
    for b in m.chunks(512) {
        let mut w: Vec<u32> = b.chunks(32).map(|c| c.iter().fold(0, |a, x| a << 1 | *x as u32)).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| (0..32).rev().map(move |k| x >> k & 1 == 1)).collect()
}
/// which of the decompositions of a run a dishonest prover aliases
struct Alias {
    at: std::cell::Cell<Option<usize>>,
    seen: std::cell::Cell<usize>,
}
impl Alias {
    fn turn(&self) -> bool {
        let n = self.seen.get();
        self.seen.set(n + 1);
        self.at.get() == Some(n)
    }
}
thread_local! {
    static ALIAS: Alias = const { Alias { at: std::cell::Cell::new(None), seen: std::cell::Cell::new(0) } };
}
/// runs with the `at`-th of those decompositions aliased that leave room for it; None when there are not so many
fn aliased<T>(at: usize, run: impl FnOnce() -> T) -> Option<T> {
    ALIAS.with(|c| {
        c.at.set(Some(at));
        c.seen.set(0);
    });
    let t = run();
    ALIAS.with(|c| {
        c.at.set(None);
        (c.seen.get() > at).then_some(t)
    })
}
fn curve<B: Backend>() -> &'static RefPoseidon {
    if B::NAME == "BN128" {
        bn()
    } else {
        bls()
    }
}
/// what circomlib provides; `hashes` says which of the repository's own circuits are stood in for by the reference
fn curve_library<B: Backend>(hashes: bool) -> Program<BigF> {
    let prime = to_big(&curve::<B>().f.p);
    let mut p = Program::new(BigF::new(&prime));
    let bit = |f: &BigF, x: &U256, k: usize| f.u(x[k / 64] >> (k % 64) & 1);
    p.builtin("Num2Bits", |a| Ports { inputs: vec![("in", vec![])], outputs: vec![("out", vec![a[0]])] }, move |f, a, i| {
        // circomlib's constraints: bits that sum up to the input in the field. When the length leaves room, the bits
        // of the input plus the modulus do as well; a dishonest prover may choose those
        let other = f.int(&i[0][0]) + f.prime();
        if other.bits() <= a[0] as u64 && ALIAS.with(|c| c.turn()) {
            return Ok(vec![(0..a[0]).map(|k| f.u(other.bit(k as u64) as u64)).collect()]);
        }
        if f.int(&i[0][0]).bits() > a[0] as u64 {
            return Err(format!("{} does not fit {} bits", f.int(&i[0][0]), a[0]));
        }
        Ok(vec![(0..a[0]).map(|k| if k < 256 { bit(f, &i[0][0], k) } else { f.u(0) }).collect()])
    });
    p.builtin("Num2Bits_strict", |_| Ports { inputs: vec![("in", vec![])], outputs: vec![("out", vec![254])] }, move |f, _, i| {
        Ok(vec![(0..254).map(|k| bit(f, &i[0][0], k)).collect()])
    });
    p.builtin("Bits2Num", |a| Ports { inputs: vec![("in", vec![a[0]])], outputs: vec![("out", vec![])] }, |f, _, i| {
        let mut x = BigUint::zero();
        for (k, b) in i[0].iter().enumerate() {
            x += f.int(b) << k;
        }
        Ok(vec![vec![f.big(&x)]])
    });
    p.builtin("Sha256", |a| Ports { inputs: vec![("in", vec![a[0]])], outputs: vec![("out", vec![256])] }, |f, _, i| {
        let b: Vec<bool> = i[0].iter().map(|x| !f.zero(x)).collect();
        Ok(vec![sha256(&b).into_iter().map(|x| f.u(x as u64)).collect()])
    });
    if hashes || B::NAME == "BN128" {
        p.builtin(
            "PoseidonEx",
            |a| Ports { inputs: vec![("inputs", vec![a[0]]), ("initialState", vec![])], outputs: vec![("out", vec![a[1]])] },
            |f, a, i| {
                let inp: Vec<BigUint> = i[0].iter().map(|x| f.int(x)).collect();
                let o = curve::<B>().permute(&inp, &f.int(&i[1][0]));
                Ok(vec![o[..a[1]].iter().map(|x| f.big(x)).collect()])
            },
        );
        // nothing may reach the constants then
        for n in ["POSEIDON_C", "POSEIDON_M", "POSEIDON_P", "POSEIDON_S"] {
            p.builtin(n, |_| Ports { inputs: vec![], outputs: vec![] }, |_, _, _| Err("not expected".into()));
        }
    }
    if B::NAME == "BN128" {
        // the repository ships hash circuits for BLS12-381 only
        p.builtin(
            "MerkleHash",
            |a| {
                let k = a[2].trailing_zeros() as usize;
                Ports { inputs: vec![("values", vec![a[1], a[0]]), ("siblings", vec![(k + 3) / 4, 16]), ("key", vec![k])], outputs: vec![("root", vec![])] }
            },
            |f, _, i| {
                let row: Vec<BigUint> = i[0].iter().map(|x| f.int(x)).collect();
                if row.iter().any(|x| x.bits() > 64) {
                    return Err("a value of more than 64 bits".into());
                }
                let mut d = B::leaf(&row.iter().map(|x| x.to_u64().unwrap()).collect::<Vec<_>>());
                let key: Vec<usize> = i[2].iter().map(|x| !f.zero(x) as usize).collect();
                for (sib, k) in i[1].chunks(16).zip(key.chunks(4)) {
                    let mut c: Vec<BigUint> = sib.iter().map(|x| f.int(x)).collect();
                    c[k.iter().enumerate().fold(0, |a, (j, b)| a | b << j)] = d;
                    d = B::parent(&c);
                }
                Ok(vec![vec![f.big(&d)]])
            },
        );
    }
    p
}

// ---------------------------------------------------------------- V01
struct Opt {
    enable: bool,
    verkey: bool,
    agg: bool,
    skip_main: bool,
}
/// the circuit generated for a program, ready to run
trait Flavour: Backend {
    type F: Fld;
    fn library() -> Program<Self::F>;
    fn generate(p: &Prog, s: &Setup<Self>, o: &Opt) -> Result<String, String>
    where
        Self: Sized;
    fn file(n: &str) -> Option<String>;
}
fn generate_with<B: Backend, Fr: ff::PrimeField + Default>(p: &Prog, s: &Setup<B>, o: &Opt, root: &starky::ElementDigest<4, Fr>) -> Result<String, String> {
    let mut info: StarkInfo = serde_json::from_str(&serde_json::to_string(&s.starkinfo).unwrap()).unwrap();
    let mut code: Code = serde_json::from_str(&serde_json::to_string(&s.program).unwrap()).unwrap();
    let opt = StarkOption { enable_input: o.enable, verkey_input: o.verkey, agg_stage: o.agg, skip_main: o.skip_main };
    flat(guard(|| pil2circom::<Fr>(&p.pil, root, &p.ss, &mut info, &mut code, &opt)))
}
impl Flavour for Gl {
    type F = GlF;
    fn library() -> Program<GlF> {
        gl_library()
    }
    fn generate(p: &Prog, s: &Setup<Self>, o: &Opt) -> Result<String, String> {
        generate_with::<Gl, _>(p, s, o, &s.const_root)
    }
    fn file(_: &str) -> Option<String> {
        None
    }
}
impl Flavour for Bn {
    type F = BigF;
    fn library() -> Program<BigF> {
        curve_library::<Bn>(true)
    }
    fn generate(p: &Prog, s: &Setup<Self>, o: &Opt) -> Result<String, String> {
        generate_with::<Bn, _>(p, s, o, &s.const_root)
    }
    fn file(n: &str) -> Option<String> {
        if n.starts_with("poseidon") || n.starts_with("merkle") || n.starts_with("linearhash") {
            return None;
        }
        circuit_text(n)
    }
}
impl Flavour for Bls {
    type F = BigF;
    fn library() -> Program<BigF> {
        curve_library::<Bls>(true)
    }
    fn generate(p: &Prog, s: &Setup<Self>, o: &Opt) -> Result<String, String> {
        generate_with::<Bls, _>(p, s, o, &s.const_root)
    }
    fn file(n: &str) -> Option<String> {
        // the hash itself is compared on its own in V02
        if n == "poseidon_constants.circom" {
            return None;
        }
        circuit_text(n)
    }
}
fn zkin<B: Backend>(proof: &Proof<B>) -> Map<String, Value> {
    match serde_json::from_str(&serde_json::to_string(proof).unwrap()).unwrap() {
        Value::Object(m) => m,
        _ => unreachable!(),
    }
}
fn decide<B: Flavour>(c: &Program<B::F>, json: Map<String, Value>, main: bool) -> Result<HashMap<String, Vec<<B::F as Fld>::E>>, Bad> {
    let v = Value::Object(json);
    if main {
        c.run_main(&v)
    } else {
        c.run_json("StarkVerifier", &[], &v)
    }
}
fn shifted(x: &[fields::field_gl::Fr], e: usize, d: u64) -> Vec<fields::field_gl::Fr> {
    let mut v = vals(x);
    if e > 0 {
        v.resize(3, 0);
    }
    v[e] = gl::add(v[e], d);
    fes(&v)
}
fn fields_e(rng: &mut Rng) -> E {
    let mut e = [0; 3];
    let k = rng.range(0, 2);
    e[k] = 1 + rng.below(common::P - 1);
    e
}
fn prove_layer<B: Backend>(p: &Prog, s: &Setup<B>, f: impl Fn(&str, usize, &[Vec<fields::field_gl::Fr>]) -> Option<verif::Col> + 'static) -> Result<Proof<B>, String> {
    verif::LAYER.with(|h| *h.borrow_mut() = Some(Box::new(f)));
    let r = prove::<B>(p, s, &p.cms);
    verif::LAYER.with(|h| *h.borrow_mut() = None);
    r
}
fn v01_case<B: Flavour>(r: &mut Report, rng: &mut Rng, sh: &Shape, o: &Opt) {
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let mut p = pilgen::program(rng, sh);
    if rng.chance(1, 2) {
        let col = (0..1 << sh.nbits).map(|_| common::gl_val(rng)).collect();
        pilgen::add_unused(&mut p, col);
    }
    let p = p;
    r.beat(&brief(&p).to_string());
    let Ok(s) = setup::<B>(&p) else { return r.count("setup refused (S01)", 1) };
    let Ok(mut proof) = prove::<B>(&p, &s, &p.cms) else { return r.count("prover refused (S01)", 1) };
    if verify::<B>(&p, &s, &proof) != Verdict::Accept {
        return r.count("honest proof rejected (S01)", 1);
    }
    if o.agg && p.pil.publics.len() < 5 {
        return r.count("too few publics to aggregate", 1);
    }
    if s.starkinfo.q_deg == 0 {
        return r.count("programs of degree one, which have no quotient and which the generator refuses", 1);
    }
    let id = serde_json::to_string(&p.pil).unwrap();
    let options = format!("enable={} verkey={} agg={} skip_main={}", o.enable, o.verkey, o.agg, o.skip_main);
    let src = match B::generate(&p, &s, o) {
        Ok(t) => t,
        Err(e) => return r.violation(&key("generate"), format!("{e}; {options}; {}", text(&p))),
    };
    let mut c = B::library();
    if let Err(e) = c.load("verifier.circom", &src, &|n| B::file(n)) {
        return r.violation(&key("circuit"), format!("not a circuit: {e:?}; {options}; {}", text(&p)));
    }
    let has_main = src.contains("component main");
    r.observe("options", &(B::NAME, &options));
    r.observe("domain sizes and blow-ups", &(p.ss.nBits, p.ss.nBitsExt));
    let bits = p.ss.nQueries * p.ss.steps[0].nBits;
    r.count(match bits { 0..=63 => "programs of at most 63 query bits", 64..=253 => "programs of at most 253 query bits", _ => "programs of more than 253 query bits" }, 1);
    r.observe("FRI step lists", &p.ss.steps.iter().map(|s| s.nBits).collect::<Vec<_>>());
    for k in &p.kinds {
        r.count(&format!("programs with {k}"), 1);
    }
    for (k, list) in [("constraint", &s.program.verifier_code.first), ("query", &s.program.verifier_query_code.first)] {
        for i in list {
            r.observe("operations of the verifier code", &(k, &i.op, i.src.iter().map(|x| x.type_.clone()).collect::<Vec<_>>()));
            r.count(&format!("{} verifier operations {}{:?}", B::NAME, i.op, i.src.iter().map(|x| x.dim).collect::<Vec<_>>()), 1);
        }
    }
    for (t, n) in ["cm1_2ns", "cm2_2ns", "cm3_2ns", "cm4_2ns"].iter().enumerate() {
        for m in s.starkinfo.map_sections.get(n) {
            let v = &s.starkinfo.var_pol_map[*m];
            r.observe("columns of the trees", &(t + 1, v.dim, v.section_pos > 2));
            r.count(&format!("tree {} columns of dimension {}{}", t + 1, v.dim, if v.section_pos > 2 { ", not the first" } else { "" }), 1);
        }
    }
    let first = zkin::<B>(&proof);
    let turn = std::cell::Cell::new(false);
    let input = |proof: &Proof<B>| {
        let mut m = zkin::<B>(proof);
        if o.agg {
            // one of the two proofs is altered at a time; the joined input itself is C04's subject
            let n = p.pil.publics.len();
            let mut j = Map::new();
            turn.set(!turn.get());
            for (k, v) in &m {
                j.insert(format!("a_{k}"), if turn.get() { v.clone() } else { first[k].clone() });
                j.insert(format!("b_{k}"), if turn.get() { first[k].clone() } else { v.clone() });
            }
            j.insert("publics".into(), json!(m["publics"].as_array().unwrap()[..n - 4]));
            j.insert("rootC".into(), m["rootC"].clone());
            return j;
        }
        if o.enable {
            m.insert("enable".into(), json!("1"));
        }
        m
    };
    let verdict = |p: &Prog, s: &Setup<B>, proof: &Proof<B>| {
        if o.verkey {
            verify_root::<B>(p, s, proof, &proof.rootC.as_ref().unwrap())
        } else {
            verify::<B>(p, s, proof)
        }
    };
    let honest = input(&proof);
    match decide::<B>(&c, honest.clone(), has_main) {
        Ok(out) => {
            r.count("honest proofs satisfy the circuit", 1);
            if let Some(h) = out.get("publicsHash") {
                // the prover's address and the publics, big-endian
                let mut bits = vec![];
                let addr = int(honest["proverAddr"].as_str().unwrap());
                bits.extend((0..160).rev().map(|k| (&addr >> k as usize) & BigUint::one() == BigUint::one()));
                for x in &p.publics {
                    bits.extend((0..64).rev().map(|k| x >> k & 1 == 1));
                }
                let want = sha256(&bits).iter().fold(BigUint::zero(), |a, b| (a << 1usize) + *b as u32) % to_big(&curve::<B>().f.p);
                let got = c.field().int(&h[0]);
                r.check(&key("publics-hash"), got == want, || format!("publicsHash {got}, expected {want}; {}", text(&p)));
                r.count("public hashes compared", 1);
            }
        }
        Err(e) => return r.violation(&key(if matches!(e, Bad::Circuit(_)) { "circuit" } else { "honest" }), format!("{e:?}; {options}; {}", text(&p))),
    }
    r.case(&(B::NAME, &id, &options, "honest"), true);
    r.count("constraints evaluated", c.constraints.replace(0));
    r.count(B::NAME, 1);
    if o.enable {
        // a disabled verifier accepts anything of the right shape
        let mut m = honest.clone();
        m.insert("enable".into(), json!("2"));
        let res = decide::<B>(&c, m, has_main);
        r.check(&key("enable-bit"), res.is_err(), || format!("enable = 2 accepted; {}", text(&p)));
        r.count("enable tried with 2", 1);
    }
    macro_rules! judge {
        ($what:expr, $detail:expr) => {{
            let v = verdict(&p, &s, &proof) == Verdict::Accept;
            let got = decide::<B>(&c, input(&proof), has_main);
            let d: String = $detail;
            r.check(&key($what), got.is_ok() == v, || format!("native accepts: {v}, circuit: {:?}, after {d}; {options}; {}", got.as_ref().map(|_| ()), text(&p)));
            r.count(&format!("{} alterations", $what), 1);
            r.count(if v { "altered proofs both accept" } else { "altered proofs both reject" }, 1);
            r.case(&(B::NAME, &id, &options, $what, &d), true);
            r.count("constraints evaluated", c.constraints.replace(0));
        }};
    }
    macro_rules! alter {
        ($what:expr, $place:expr, $new:expr, $detail:expr) => {{
            let new = $new;
            let old = std::mem::replace(&mut $place, new);
            judge!($what, $detail);
            $place = old;
        }};
    }
    alter!("root1", proof.root1, other_node::<B>(rng, &proof.root1), "root1 changed".into());
    alter!("root2", proof.root2, other_node::<B>(rng, &proof.root2), "root2 changed".into());
    alter!("root3", proof.root3, other_node::<B>(rng, &proof.root3), "root3 changed".into());
    alter!("root4", proof.root4, other_node::<B>(rng, &proof.root4), "root4 changed".into());
    alter!("constants", proof.rootC, Some(other_node::<B>(rng, &proof.rootC.as_ref().unwrap())), "rootC changed".into());
    for i in 1..proof.fri_proof.queries.len() {
        alter!("fri-root", proof.fri_proof.queries[i].root, other_node::<B>(rng, &proof.fri_proof.queries[i].root), format!("FRI root {i}"));
    }
    for _ in 0..proof.evals.len().min(6) {
        let i = rng.range(0, proof.evals.len() - 1);
        let n = bump_f(rng, &proof.evals[i]);
        alter!("evaluation", proof.evals[i], n, format!("evaluation {i} -> {n}"));
    }
    for i in 0..proof.publics.len() {
        let n = bump_f(rng, &proof.publics[i]);
        alter!("public", proof.publics[i], n, format!("public {i} -> {n}"));
    }
    for _ in 0..3 {
        let i = rng.range(0, proof.fri_proof.last.len() - 1);
        let n = bump_f(rng, &proof.fri_proof.last[i]);
        alter!("final", proof.fri_proof.last[i], n, format!("final value {i} -> {n}"));
    }
    for si in 0..proof.fri_proof.queries.len() {
        let nq = proof.fri_proof.queries[si].pol_queries.len();
        let trees = proof.fri_proof.queries[si].pol_queries[0].len();
        for t in 0..trees {
            let q = if rng.chance(1, 3) { nq - 1 } else { rng.range(0, nq - 1) };
            let w = proof.fri_proof.queries[si].pol_queries[q][t].0.len();
            let name = if si == 0 { ["tree1", "tree2", "tree3", "tree4", "constants-opening"][t] } else { "fri-value" };
            if w > 0 {
                let k = rng.range(0, w - 1);
                let x = proof.fri_proof.queries[si].pol_queries[q][t].0[k];
                let n = fe(bump(rng, val(&x)));
                alter!(name, proof.fri_proof.queries[si].pol_queries[q][t].0[k], n, format!("step {si} query {q} tree {t} value {k}"));
            }
            let depth = proof.fri_proof.queries[si].pol_queries[q][t].1.len();
            if depth > 0 && w > 0 {
                let l = rng.range(0, depth - 1);
                let k = rng.range(0, proof.fri_proof.queries[si].pol_queries[q][t].1[l].len() - 1);
                // a curve path also repeats the node on the path itself; the circuit puts its
                // own there and has no use for the proof's
                if B::ARITY == 16 {
                    let (row, path) = &proof.fri_proof.queries[si].pol_queries[q][t];
                    let own = if l == 0 { B::leaf(&vals(row)) } else { B::parent(&B::level(&path[l - 1])) };
                    if B::level(&path[l])[k] == own {
                        r.count("places of the path itself, left alone", 1);
                        continue;
                    }
                }
                let x = proof.fri_proof.queries[si].pol_queries[q][t].1[l][k].clone();
                let n = B::mutate_base(&x, 1 + rng.below(1000));
                alter!("path", proof.fri_proof.queries[si].pol_queries[q][t].1[l][k], n, format!("step {si} query {q} tree {t} level {l} sibling {k}"));
            }
        }
        let (a, b) = (rng.range(0, nq - 1), rng.range(0, nq - 1));
        if a != b {
            proof.fri_proof.queries[si].pol_queries.swap(a, b);
            judge!("query-order", format!("step {si}: queries {a} and {b} swapped"));
            proof.fri_proof.queries[si].pol_queries.swap(a, b);
        }
    }
    // a prover that commits to something else than it should and goes on consistently
    let old = proof;
    let free: Vec<usize> = (0..p.cms.len()).filter(|i| !s.starkinfo.ev_map.iter().any(|e| e.type_ == "cm" && e.id == *i)).collect();
    let (last, ext) = (p.ss.steps.last().unwrap().nBits, p.ss.nBitsExt);
    let mut layers: Vec<(usize, usize)> = (0..p.ss.steps.len()).flat_map(|l| (0..3).map(move |e| (l, e))).collect();
    rng.shuffle(&mut layers);
    layers.truncate(3);
    for (l, e) in layers {
        let d = 1 + rng.below(common::P - 1);
        if let Ok(x) = prove_layer::<B>(&p, &s, move |name, _, v| {
            (name == l.to_string()).then(|| v.iter().map(|x| shifted(x, e, d)).collect())
        }) {
            proof = x;
            judge!("layer", format!("component {e} of FRI layer {l} moved by {d}"));
        }
    }
    // a coefficient of the last polynomial above the bound, from a column nothing else looks at
    let bound = 1usize << (last - (ext - p.ss.nBits).min(last));
    let mut places = vec![bound, bound + 1, (1 << last) - 1];
    places.extend((0..2).map(|_| rng.range(bound - 1, (1 << last) - 1)));
    rng.shuffle(&mut places);
    places.truncate(2);
    for k in places {
        if free.is_empty() || k >= 1 << last {
            continue;
        }
        let (col, d) = (*rng.pick(&free), 1 + rng.below(common::P - 1));
        let at = (k << (ext - last)) + rng.range(0, (1 << (ext - last)) - 1);
        if let Ok(x) = prove_layer::<B>(&p, &s, move |name, w, v| {
            (name == "cm1_n").then(|| {
                let (mut t, step) = (gl::mul(d, gl::pow(7, at as u64)), gl::pow(gl::root(ext), at as u64));
                let mut o = v.to_vec();
                for i in 0..v.len() / w {
                    o[i * w + col] = shifted(&v[i * w + col], 0, t);
                    t = gl::mul(t, step);
                }
                o
            })
        }) {
            proof = x;
            judge!("degree", format!("{d} x^{at} added to column {col}, coefficient {k} of the last polynomial, bound {bound}"));
        }
    }
    // a root that is not the root of what is opened
    for _ in 0..2 {
        let (at, limb, by) = (rng.range(0, 3 + p.ss.steps.len().saturating_sub(1)), rng.range(0, 3), 1 + rng.below(common::P - 1));
        if let Ok(Some(x)) = prove_root::<B>(&p, &s, at, limb, by) {
            if at < 4 && x.fri_proof.queries[0].pol_queries[0][at].0.is_empty() {
                // it commits to nothing and its opening is no input of the circuit
                r.count("claimed roots of trees without columns, left alone", 1);
                continue;
            }
            proof = x;
            r.observe("trees whose root was claimed to be another", &(B::NAME, at, if B::ARITY == 2 { limb } else { 0 }));
            judge!("claimed-root", format!("limb {limb} of the root of tree {at} moved by {by}"));
        }
    }
    // a trace that breaks the program, the prover doing what it can to hide it
    for k in 0..3 {
        let (cms, what) = if k < 2 { corrupt(rng, &p) } else { (p.cms.clone(), "nothing".into()) };
        let sel = Trace::new(&p.pil, &p.consts, &cms, &p.publics).selected_publics();
        let sel: Vec<E> = sel.iter().map(|v| cubic::base(*v)).collect();
        let (cheat, forge) = (*rng.pick(&CHEATS), k == 2 || rng.chance(2, 3));
        let (at, d) = (rng.range(0, s.starkinfo.ev_map.len() - 1), fields_e(rng));
        set_cheat(cheat);
        let x = if forge {
            let (p2, s2) = (&p as *const Prog as usize, &s as *const Setup<B> as usize);
            prove_forged::<B>(&p, &s, &s.starkinfo, &cms, move |e, ch| {
                // both outlive the call
                let (p, s) = unsafe { (&*(p2 as *const Prog), &*(s2 as *const Setup<B>)) };
                if k == 2 {
                    e[at] = cubic::add(&e[at], &d);
                }
                balance::<B>(p, s, e, &sel, ch);
            })
        } else {
            prove::<B>(&p, &s, &cms)
        };
        set_cheat(Cheat::None);
        if let Ok(x) = x {
            proof = x;
            r.observe("prover strategies", &(k == 2, cheat, forge));
            judge!("prover", format!("trace with {what}, prover {cheat:?}, evaluations made to fit: {forge}{}", if k == 2 { format!(", evaluation {at} moved by {d:?}") } else { String::new() }));
        }
    }
    proof = old;
    if B::ARITY == 16 && !o.agg {
        // a prover free to decompose a challenge otherwise could answer other queries than the ones drawn
        for at in 0.. {
            if aliased(at, || decide::<B>(&c, input(&proof), has_main).is_ok()).is_none() {
                break;
            }
            r.count("decompositions aliased", 1);
            let nq = proof.fri_proof.queries[0].pol_queries.len();
            let mut pairs: Vec<(usize, usize)> = (0..nq).flat_map(|to| (0..nq).map(move |from| (to, from))).filter(|x| x.0 != x.1).collect();
            rng.shuffle(&mut pairs);
            for (to, from) in pairs.into_iter().take(20) {
                let old: Vec<_> = proof.fri_proof.queries.iter().map(|q| q.pol_queries[to].clone()).collect();
                for q in &mut proof.fri_proof.queries {
                    q.pol_queries[to] = q.pol_queries[from].clone();
                }
                let v = verdict(&p, &s, &proof) == Verdict::Accept;
                let got = aliased(at, || decide::<B>(&c, input(&proof), has_main).is_ok());
                r.check(&key("alias"), v || got != Some(true), || {
                    format!("with decomposition {at} aliased the circuit accepts query {from} in place of {to}, the native verifier does not; {options}; {}", text(&p))
                });
                r.case(&(B::NAME, &id, &options, "alias", at, to, from), true);
                r.count("alias attacks", 1);
                for (q, o) in proof.fri_proof.queries.iter_mut().zip(old) {
                    q.pol_queries[to] = o;
                }
            }
        }
    }
    if r.wants_sample() {
        r.sample(json!({"program": brief(&p), "options": options, "circuit lines": src.lines().count()}));
    }
}
fn v01_shape<B: Backend>(rng: &mut Rng) -> Shape {
    let mut s = shape::<B>(rng);
    // now and then more query bits than one field element holds
    s.queries = if rng.chance(1, 8) { rng.range(11, 20) } else { rng.range(1, 5) };
    s.nbits = s.nbits.min(5);
    if rng.chance(1, 10) {
        // many evaluations
        s.parts = rng.range(12, 22);
        s.nbits = s.nbits.clamp(2, 3);
    }
    if rng.chance(1, 6) {
        // arguments next to identities that have to be split
        s.only = vec!["split", "definition", *rng.pick(&["lookup", "permutation", "connection"])];
        s.parts = rng.range(3, 9);
        s.ext = 1;
        s.nbits = s.nbits.clamp(2, 4);
    }
    if B::ARITY == 16 && rng.chance(1, 12) {
        // the same for the curves' transcripts
        s.nbits = s.nbits.clamp(3, 5);
        s.ext = s.ext.clamp(2, 4);
        s.parts = rng.range(1, 3);
        s.queries = 253 / (s.nbits + s.ext) + rng.range(1, 2);
    }
    s.min_last = s.ext.max(s.min_last).min(s.nbits + s.ext);
    s
}
fn v01_one<B: Flavour>(r: &mut Report, rng: &mut Rng) {
    let mut s = v01_shape::<B>(rng);
    let skip_main = rng.chance(1, 2);
    let mut o = Opt { enable: skip_main && rng.chance(1, 3), verkey: rng.chance(1, 2), agg: false, skip_main };
    if B::ARITY == 2 && rng.chance(1, 6) {
        // the aggregation stage takes two proofs of a circuit with more than four publics
        o = Opt { enable: false, verkey: true, agg: true, skip_main: false };
        let other = *rng.pick(&KINDS);
        s.only = vec!["public", "public", "public", other];
        s.parts = rng.range(7, 12);
    }
    v01_case::<B>(r, rng, &s, &o)
}
fn v01(r: &mut Report) {
    r.assume("gates and circuits of libraries outside the repository (circomlib; for the Goldilocks flavour the custom-gate library; for BN254 the hash circuits) do what their names say");
    r.assume("some constraint of the program has degree two or more: without a quotient no circuit is generated (the generator refuses)");
    r.assume("a tree without columns commits to nothing: the circuit is not given its openings, which only the native verifier looks at");
    r.assume("the last layer of FRI is no smaller than the blow-up, otherwise it bounds no degree");
    r.workers(8, |r| {
        let mut rng = r.rng.fork();
        while r.more_time(1.0) {
            match rng.below(6) {
                0 | 1 => v01_one::<Bls>(r, &mut rng),
                2 => v01_one::<Bn>(r, &mut rng),
                _ => v01_one::<Gl>(r, &mut rng),
            }
        }
    });
}

// ---------------------------------------------------------------- V02
const PB: i128 = common::P as i128;
/// an input of a Goldilocks circuit: any integer of its range, reduced or not
fn lazy(rng: &mut Rng, lo: i128, hi: i128) -> i128 {
    let near = |rng: &mut Rng, c: i128| c + rng.below(5) as i128 - 2;
    let x = match rng.below(8) {
        0 => near(rng, 0),
        1 => {
            let k = lo / PB + rng.below(((hi - lo) / PB + 1) as u64) as i128;
            near(rng, k * PB)
        }
        2 => near(rng, lo),
        3 => near(rng, hi),
        4 => {
            let k = rng.range(1, 64);
            near(rng, 1 << k)
        }
        5 => common::gl_val(rng) as i128,
        _ => lo + (((rng.u64() as u128) << 60 | rng.u64() as u128) % (hi - lo + 1) as u128) as i128,
    };
    x.clamp(lo, hi)
}
fn modp(x: i128) -> u64 {
    x.rem_euclid(PB) as u64
}
fn fld(f: &BigF, x: i128) -> U256 {
    let a = f.big(&BigUint::from(x.unsigned_abs()));
    if x < 0 {
        f.sub(&[0; 4], &a)
    } else {
        a
    }
}
/// what a run must result in
enum Want {
    /// Goldilocks values, in 64 bits and in any representative
    Mod(Vec<u64>),
    /// exactly these field elements
    Exact(Vec<BigUint>),
    /// no satisfying run
    None,
}
struct Job<'a> {
    curve: &'a str,
    template: &'a str,
    args: Vec<BigUint>,
    inputs: Vec<(&'a str, Vec<U256>)>,
    output: &'a str,
    want: Want,
}
fn v02_judge(c: &Program<BigF>, j: &Job, res: &Result<HashMap<String, Vec<U256>>, Bad>, honest: bool) -> Option<String> {
    match (res, &j.want) {
        (Err(Bad::Circuit(e)), _) => Some(format!("not a circuit: {e}")),
        (Err(Bad::Unsat(e)), Want::Mod(_) | Want::Exact(_)) if honest => Some(format!("unsatisfied on an input of its range: {e}")),
        (Err(_), _) => None,
        (Ok(_), Want::None) => Some("satisfied where no result exists".into()),
        (Ok(o), Want::Mod(w)) => {
            let got: Vec<BigUint> = o[j.output].iter().map(|x| c.field().int(x)).collect();
            let ok = got.len() == w.len() && got.iter().zip(w).all(|(g, w)| g.bits() <= 64 && (g % common::P) == BigUint::from(*w));
            (!ok).then(|| format!("results in {got:?} where {w:?} is right"))
        }
        (Ok(o), Want::Exact(w)) => {
            let got: Vec<BigUint> = o[j.output].iter().map(|x| c.field().int(x)).collect();
            (got != *w).then(|| format!("results in {got:?} where {w:?} is right"))
        }
    }
}
type Hints = std::rc::Rc<std::cell::RefCell<Vec<(String, String, usize, U256)>>>;
fn v02_job(r: &mut Report, rng: &mut Rng, c: &Program<BigF>, j: Job, attacks: usize) {
    let show = |j: &Job| format!("{} over {} {:?} on {:?}", j.template, j.curve, j.args, j.inputs.iter().map(|(n, v)| (n, v.iter().map(|x| c.field().int(x).to_string()).collect::<Vec<_>>())).collect::<Vec<_>>());
    let seen: Hints = Default::default();
    let s = seen.clone();
    *c.forge.borrow_mut() = Some(Box::new(move |t, n, k, v| {
        s.borrow_mut().push((t.into(), n.into(), k, v));
        v
    }));
    let run = |j: &Job| c.run(j.template, &j.args, &j.inputs);
    let res = run(&j);
    *c.forge.borrow_mut() = None;
    let wrong = v02_judge(c, &j, &res, true);
    r.check(&format!("{}-{}", j.curve, j.template), wrong.is_none(), || format!("{}: {}", show(&j), wrong.clone().unwrap()));
    r.case(&(j.curve, j.template, &j.args, &j.inputs), true);
    r.count(&format!("{} on {}", j.template, j.curve), 1);
    r.count(if res.is_ok() { "honest runs satisfied" } else { "honest runs without result" }, 1);
    r.count("constraints evaluated", c.constraints.replace(0));
    // ---- a prover choosing its own hints
    let hints = seen.borrow().clone();
    let prime = c.field().prime();
    let f = c.field();
    let big_t = |rng: &mut Rng| -> (BigUint, &'static str) {
        match rng.below(8) {
            0 => (big(1), "one"),
            1 => (big(2), "two"),
            2 => (&prime - 1u32, "minus one"),
            3 => (&prime - 2u32, "minus two"),
            4 | 5 => (big(rng.range(1, 6) as u64) * &prime / common::P + rng.below(2) as u32, "wrap around the field"),
            6 => (big(1) << rng.range(1, 250), "power of two"),
            _ => (BigUint::from_bytes_le(&(0..32).map(|_| rng.u64() as u8).collect::<Vec<_>>()) % &prime, "random"),
        }
    };
    for _ in 0..if hints.is_empty() { 0 } else { attacks } {
        let a = rng.range(0, hints.len() - 1);
        let (t, name) = big_t(rng);
        let t = f.big(&t);
        // the two values of one division: quotient and remainder
        let pair = rng.chance(1, 2).then(|| {
            let near: Vec<usize> = (a.saturating_sub(6)..(a + 7).min(hints.len())).filter(|b| *b != a && hints[*b].0 == hints[a].0).collect();
            near
        });
        let mut over: HashMap<usize, U256> = HashMap::new();
        let how;
        match pair {
            Some(near) if !near.is_empty() => {
                let b = *rng.pick(&near);
                over.insert(a, f.add(&hints[a].3, &t));
                over.insert(b, f.sub(&hints[b].3, &f.mul(&t, &f.u(common::P))));
                how = "quotient and remainder";
            }
            _ => {
                let d = match rng.below(3) {
                    0 => f.mul(&t, &f.u(common::P)),
                    _ => t,
                };
                over.insert(a, f.add(&hints[a].3, &d));
                how = "one value";
            }
        }
        let n = std::cell::Cell::new(0usize);
        let o = over.clone();
        *c.forge.borrow_mut() = Some(Box::new(move |_, _, _, v| {
            let k = n.get();
            n.set(k + 1);
            o.get(&k).copied().unwrap_or(v)
        }));
        let res = run(&j);
        *c.forge.borrow_mut() = None;
        let wrong = v02_judge(c, &j, &res, false);
        r.check(&format!("{}-{}-forged", j.curve, j.template), wrong.is_none(), || {
            let at: Vec<String> = over.iter().map(|(k, v)| format!("{}.{}[{}] = {}", hints[*k].0, hints[*k].1, hints[*k].2, f.int(v))).collect();
            format!("{} with {at:?}: {}", show(&j), wrong.clone().unwrap())
        });
        r.case(&(j.curve, j.template, &j.args, &j.inputs, over.iter().collect::<std::collections::BTreeMap<_, _>>()), true);
        r.count(if res.is_ok() { "forged runs satisfied, by another representative of the same result" } else { "forged runs refused" }, 1);
        r.observe("forgeries", &(j.template, &hints[a].0, &hints[a].1, how, name));
        r.count("constraints evaluated", c.constraints.replace(0));
    }
    // ---- a prover choosing other bits
    for at in 0.. {
        let Some(res) = aliased(at, || run(&j)) else { break };
        let wrong = v02_judge(c, &j, &res, false);
        r.check(&format!("{}-{}-alias", j.curve, j.template), wrong.is_none(), || format!("{} with decomposition {at} aliased: {}", show(&j), wrong.clone().unwrap()));
        r.count("decompositions aliased", 1);
    }
    if r.wants_sample() {
        r.sample(json!({"circuit": j.template, "curve": j.curve, "arguments": format!("{:?}", j.args), "hints": hints.len()}));
    }
}
fn v02_goldilocks(r: &mut Report, rng: &mut Rng, curve: &'static str, c: &Program<BigF>) {
    let f = c.field();
    let wide = |rng: &mut Rng| if rng.chance(1, 4) { lazy(rng, -8 * PB, 60 * PB) } else { lazy(rng, -8 * PB, 8 * PB) };
    let word = |rng: &mut Rng| lazy(rng, 0, (1 << 64) - 1);
    let vec = |rng: &mut Rng, n: usize, g: &dyn Fn(&mut Rng) -> i128| -> Vec<i128> { (0..n).map(|_| g(rng)).collect() };
    let fs = |v: &[i128]| -> Vec<U256> { v.iter().map(|x| fld(f, *x)).collect() };
    let ms = |v: &[i128]| -> Vec<u64> { v.iter().map(|x| modp(*x)).collect() };
    let m3 = |v: &[i128]| e3(&ms(v));
    let job = |template: &'static str, args: Vec<BigUint>, inputs: Vec<(&'static str, Vec<U256>)>, want: Want| Job { curve, template, args, inputs, output: "out", want };
    let (j, n) = match rng.below(14) {
        0 => {
            let x = lazy(rng, -16 * PB, 1000 * PB);
            (job("GLNorm", vec![], vec![("in", fs(&[x]))], Want::Mod(vec![modp(x)])), 12)
        }
        1 => {
            let x = vec(rng, 3, &|r| lazy(r, -16 * PB, 1000 * PB));
            (job("GLCNorm", vec![], vec![("in", fs(&x))], Want::Mod(ms(&x))), 20)
        }
        2 => {
            let (a, b) = (wide(rng), wide(rng));
            (job("GLMul", vec![], vec![("ina", fs(&[a])), ("inb", fs(&[b]))], Want::Mod(vec![gl::mul(modp(a), modp(b))])), 12)
        }
        3 => {
            let (a, b, d) = (wide(rng), wide(rng), wide(rng));
            (job("GLMulAdd", vec![], vec![("ina", fs(&[a])), ("inb", fs(&[b])), ("inc", fs(&[d]))], Want::Mod(vec![gl::add(gl::mul(modp(a), modp(b)), modp(d))])), 12)
        }
        4 | 5 => {
            let (a, b) = (vec(rng, 3, &wide), vec(rng, 3, &wide));
            (job("GLCMul", vec![], vec![("ina", fs(&a)), ("inb", fs(&b))], Want::Mod(cubic::mul(&m3(&a), &m3(&b)).to_vec())), 24)
        }
        6 | 7 => {
            let (a, b, d) = (vec(rng, 3, &wide), vec(rng, 3, &wide), vec(rng, 3, &wide));
            (job("GLCMulAdd", vec![], vec![("ina", fs(&a)), ("inb", fs(&b)), ("inc", fs(&d))], Want::Mod(cubic::add(&cubic::mul(&m3(&a), &m3(&b)), &m3(&d)).to_vec())), 24)
        }
        8 => {
            let x = if rng.chance(1, 10) { [0, PB][rng.range(0, 1)] } else { word(rng) };
            let w = if modp(x) == 0 { Want::None } else { Want::Mod(vec![gl::inv(modp(x))]) };
            (job("GLInv", vec![], vec![("in", fs(&[x]))], w), 12)
        }
        9 => {
            let x = match rng.below(6) {
                0 => vec![word(rng), 0, 0],
                1 => vec![0, word(rng), 0],
                2 => vec(rng, 3, &|r| [0, PB][r.range(0, 1)]),
                _ => vec(rng, 3, &word),
            };
            let m = m3(&x);
            let w = if m == [0; 3] { Want::None } else { Want::Mod(gl_inv3(&m).to_vec()) };
            (job("GLCInv", vec![], vec![("in", fs(&x))], w), 16)
        }
        10 => {
            let (k, inv) = (if rng.chance(1, 8) { rng.range(6, 7) } else { rng.range(0, 5) }, rng.chance(1, 2));
            let x = vec(rng, 3 << k, &word);
            let v = ms(&x);
            let o = if inv {
                idft3(&v, k)
            } else {
                let mut o = vec![0; 3 << k];
                for e in 0..3 {
                    let col: Vec<u64> = v.iter().skip(e).step_by(3).copied().collect();
                    for (i, y) in starky_mon::ext::dft(&col, gl::root(k)).into_iter().enumerate() {
                        o[3 * i + e] = y;
                    }
                }
                o
            };
            (job("FFT", vec![big(k as u64), big(inv as u64)], vec![("in", fs(&x))], Want::Mod(o)), 16)
        }
        11 => {
            let n = if rng.chance(1, 4) { rng.range(10, 70) } else { rng.range(1, 9) };
            let (p, x) = (vec(rng, 3 * n, &|r| if n == 1 { lazy(r, 0, (1 << 64) - 1) } else { wide(r) }), vec(rng, 3, &wide));
            (job("EvalPol", vec![big(n as u64)], vec![("pol", fs(&p)), ("x", fs(&x))], Want::Mod(horner(&ms(&p), &m3(&x)).to_vec())), 12)
        }
        12 => {
            let (k, e) = (rng.range(1, 6), rng.range(1, 4));
            let v: Vec<BigUint> = (0..e << k).map(|_| curve_value(rng, f)).collect();
            let key: Vec<bool> = (0..k).map(|_| rng.chance(1, 2)).collect();
            let rows: Vec<Vec<BigUint>> = v.chunks(e).map(|c| c.to_vec()).collect();
            let want = select(&rows, &key);
            (
                job(
                    "TreeSelector",
                    vec![big(k as u64), big(e as u64)],
                    vec![("values", v.iter().map(|x| f.big(x)).collect()), ("key", key.iter().map(|b| f.u(*b as u64)).collect())],
                    Want::Exact(want),
                ),
                0,
            )
        }
        _ => {
            let edge = |rng: &mut Rng| match rng.below(4) {
                0 => 0xFFFFFFFF00000000u64,
                1 => common::P.wrapping_add(rng.below(5)).wrapping_sub(2),
                2 => [0, 1, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, u32::MAX as u64][rng.range(0, 6)],
                _ => rng.u64() >> rng.range(0, 63),
            };
            let ct = if rng.chance(1, 2) { 0xFFFFFFFF00000000 } else { edge(rng) };
            let x = match rng.below(4) {
                0 => edge(rng),
                1 => ct.wrapping_add(rng.below(5)).wrapping_sub(2),
                2 => ct ^ 1 << rng.below(64),
                _ => ct ^ (1 << rng.below(64)) ^ (rng.u64() >> rng.range(1, 63)),
            };
            (job("CompConstant64", vec![big(ct)], vec![("in", (0..64).map(|k| f.u(x >> k & 1)).collect())], Want::Exact(vec![big((x > ct) as u64)])), 0)
        }
    };
    v02_job(r, rng, c, j, n);
}
fn curve_value(rng: &mut Rng, f: &BigF) -> BigUint {
    let p = f.prime();
    match rng.below(6) {
        0 => big(rng.below(4)),
        1 => &p - 1u32 - rng.below(4) as u32,
        2 => big(rng.u64()),
        3 => (big(1) << p.bits()) % &p - rng.below(2) as u32,
        _ => BigUint::from_bytes_le(&(0..32).map(|_| rng.u64() as u8).collect::<Vec<_>>()) % &p,
    }
}
fn v02_challenge(r: &mut Report, rng: &mut Rng, curve: &'static str, c: &Program<BigF>) {
    let x = curve_value(rng, c.field());
    let limbs = from_big(&x);
    let j = Job { curve, template: "BN1toGL3", args: vec![], inputs: vec![("in", vec![c.field().big(&x)])], output: "out", want: Want::Exact(limbs[..3].iter().map(|l| big(*l)).collect()) };
    v02_job(r, rng, c, j, 4);
}
fn v02_functions(r: &mut Report, rng: &mut Rng, curve: &str, c: &Program<BigF>) {
    let mut one = |r: &mut Report, name: &str, arg: u64, want: u64| {
        let got = c.function(name, &[big(arg)]);
        let ok = matches!(&got, Ok(v) if v.len() == 1 && c.field().int(&v[0]) == big(want));
        r.check(&format!("{curve}-{name}"), ok, || format!("{name}({arg}) = {got:?}, expected {want}"));
        r.case(&(curve, name, arg), true);
        r.count(&format!("{name} on {curve}"), 1);
    };
    for i in 0..33 {
        one(r, "roots", i, gl::root(i as usize));
    }
    for k in 0..32 {
        one(r, "log2", 1 << k, k);
    }
    for _ in 0..50 {
        let x = common::gl_val(rng).max(1);
        one(r, "_inv1", x, gl::inv(x));
    }
}
fn v02_hashes(r: &mut Report, rng: &mut Rng, c: &Program<BigF>, n: usize) {
    let f = c.field();
    let curve = "BLS12381";
    let word = |rng: &mut Rng| common::gl_val(rng);
    let j = match n % 5 {
        0 => {
            let k = n / 5 % 16 + 1;
            let outs = rng.range(1, k + 1);
            let inp: Vec<BigUint> = (0..k).map(|_| curve_value(rng, f)).collect();
            let init = curve_value(rng, f);
            let w = bls().permute(&inp, &init)[..outs].to_vec();
            let j = Job { curve, template: "PoseidonEx", args: vec![big(k as u64), big(outs as u64)], inputs: vec![("inputs", inp.iter().map(|x| f.big(x)).collect()), ("initialState", vec![f.big(&init)])], output: "out", want: Want::Exact(w) };
            r.observe("Poseidon arities and outputs", &(k, outs));
            j
        }
        1 => {
            let k = n / 5 % 16 + 1;
            let inp: Vec<BigUint> = (0..k).map(|_| curve_value(rng, f)).collect();
            let w = bls().permute(&inp, &BigUint::zero())[1].clone();
            Job { curve, template: "Poseidon", args: vec![big(k as u64)], inputs: vec![("inputs", inp.iter().map(|x| f.big(x)).collect())], output: "out", want: Want::Exact(vec![w]) }
        }
        2 => {
            let e = rng.range(1, 3);
            let rows = match rng.below(4) {
                0 => rng.range(1, 60),
                1 => rng.range(20, 220),
                _ => rng.range(1, 12),
            };
            let v: Vec<u64> = (0..rows * e).map(|_| word(rng)).collect();
            r.observe("linear hash lengths", &(rows * e));
            Job { curve, template: "LinearHash", args: vec![big(rows as u64), big(e as u64)], inputs: vec![("in", v.iter().map(|x| f.u(*x)).collect())], output: "out", want: Want::Exact(vec![Bls::leaf(&v)]) }
        }
        _ => {
            let full = n % 5 == 4;
            let k = if rng.chance(1, 5) { rng.range(11, 26) } else { rng.range(full as usize, 10) };
            let levels = (k + 3) / 4;
            let (e, rows) = (rng.range(1, 3), rng.range(1, 6));
            let v: Vec<u64> = (0..rows * e).map(|_| word(rng)).collect();
            let sib: Vec<BigUint> = (0..16 * levels).map(|_| curve_value(rng, f)).collect();
            let key: Vec<usize> = (0..k).map(|_| rng.range(0, 1)).collect();
            let start = if full { Bls::leaf(&v) } else { curve_value(rng, f) };
            let mut d = start.clone();
            for (s, kk) in sib.chunks(16).zip(key.chunks(4)) {
                let mut s = s.to_vec();
                s[kk.iter().enumerate().fold(0, |a, (j, b)| a | b << j)] = d;
                d = Bls::parent(&s);
            }
            let mut inputs = vec![("siblings", sib.iter().map(|x| f.big(x)).collect()), ("key", key.iter().map(|b| f.u(*b as u64)).collect::<Vec<_>>())];
            r.observe("Merkle depths", &(full, k));
            if full {
                inputs.push(("values", v.iter().map(|x| f.u(*x)).collect()));
                Job { curve, template: "MerkleHash", args: vec![big(e as u64), big(rows as u64), big(1 << k)], inputs, output: "root", want: Want::Exact(vec![d]) }
            } else {
                inputs.push(("value", vec![f.big(&start)]));
                Job { curve, template: "Merkle", args: vec![big(k as u64)], inputs, output: "root", want: Want::Exact(vec![d]) }
            }
        }
    };
    v02_job(r, rng, c, j, 0);
}
fn v02(r: &mut Report) {
    r.assume("circomlib's Num2Bits and Bits2Num are right: bits that sum up to the input in the field");
    r.assume("inputs of multiplications lie in -8p..60p, of normalisations in -16p..1000p, of inverses, transforms and one-coefficient polynomials in 0..2^64");
    let files = ["gl.circom", "fft.circom", "evalpol.circom", "treeselector.circom", "compconstant64.circom", "bn1togl3.circom", "utils.circom"];
    r.workers(8, |r| {
        let mut rng = r.rng.fork();
        let mut load = |r: &mut Report, mut c: Program<BigF>, files: &[&str], curve: &str| -> Program<BigF> {
            for n in files {
                let t = circuit_text(n).unwrap_or_default();
                let e = c.load(n, &t, &|n| circuit_text(n));
                r.check(&format!("{curve}-{n}"), e.is_ok(), || format!("{e:?}"));
            }
            c
        };
        let a = load(r, curve_library::<Bn>(true), &files, "BN128");
        let b = load(r, curve_library::<Bls>(true), &files, "BLS12381");
        let h = load(r, curve_library::<Bls>(false), &["merklehash.circom"], "BLS12381");
        let mut n = rng.range(0, 79);
        for (name, c) in [("BN128", &a), ("BLS12381", &b)] {
            v02_functions(r, &mut rng, name, c);
        }
        while r.more_time(1.0) {
            match rng.below(8) {
                0..=2 => v02_goldilocks(r, &mut rng, "BN128", &a),
                3..=5 => v02_goldilocks(r, &mut rng, "BLS12381", &b),
                6 => {
                    v02_challenge(r, &mut rng, "BLS12381", &b);
                    v02_challenge(r, &mut rng, "BN128", &a);
                }
                _ => {
                    v02_hashes(r, &mut rng, &h, n);
                    n += 1;
                }
            }
            r.beat(&n.to_string());
        }
    });
}

// ---------------------------------------------------------------- E01
fn row_major(cols: &[Vec<u64>]) -> Vec<u8> {
    (0..cols.first().map_or(0, |c| c.len())).flat_map(|i| cols.iter().flat_map(move |c| c[i].to_le_bytes())).collect()
}
fn e01_case<B: Flavour>(r: &mut Report, rng: &mut Rng, sh: &Shape, o: &Opt, dir: &str) {
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let p = pilgen::program(rng, sh);
    r.beat(&brief(&p).to_string());
    let at = |n: &str| format!("{dir}/{n}");
    let put = |n: &str, b: &[u8]| std::fs::write(at(n), b).unwrap();
    put("pil.json", serde_json::to_string(&p.pil).unwrap().as_bytes());
    put("ss.json", serde_json::to_string(&p.ss).unwrap().as_bytes());
    let consts = row_major(&p.consts);
    put("const", &consts);
    let addr = if rng.chance(1, 2) { ADDR.to_string() } else { (BigUint::from(rng.u64()) << rng.range(0, 96)).to_string() };
    let options = format!("norm={} skip_main={} agg={} addr={addr}", o.verkey, o.skip_main, o.agg);
    let run = |constants: &str, cm: &str| {
        flat(guard(|| {
            starky::prove::stark_prove(&at("ss.json"), &at("pil.json"), o.verkey, o.skip_main, o.agg, &at(constants), &at(cm), &at("circom"), &at("zkin"), &addr)
        }))
    };
    let outputs = || {
        let t = |n: &str| std::fs::read_to_string(at(n)).unwrap_or_default();
        (t("circom"), t("zkin"))
    };
    // longer leftovers of an earlier run
    put("circom", &vec![b'x'; 3 << 20]);
    put("zkin", &vec![b'7'; 3 << 20]);
    let accepted = |p: &Prog, s: &Setup<B>, zk: &str| match guard(|| serde_json::from_str::<Proof<B>>(zk).ok()) {
        Ok(Some(x)) => verify::<B>(p, s, &x) == Verdict::Accept,
        _ => false,
    };
    let Ok(s) = setup::<B>(&p) else { return r.count("setup refused (S01)", 1) };
    match prove_with::<B>(&p, &s, &s.starkinfo, &p.cms, &addr) {
        Ok(x) if verify::<B>(&p, &s, &x) == Verdict::Accept => {}
        _ => return r.count("honest proof refused (S01)", 1),
    }
    let want = match B::generate(&p, &s, o) {
        Ok(t) => t,
        Err(_) => return r.count("programs without quotient, for which no circuit is generated", 1),
    };
    let id = serde_json::to_string(&p.pil).unwrap();
    put("cm", &row_major(&p.cms));
    match run("const", "cm") {
        Err(e) => return r.violation(&key("honest"), format!("{e}; {options}; {}", text(&p))),
        Ok(()) => r.count("honest runs", 1),
    }
    let (circuit, zk) = outputs();
    r.observe("options", &(B::NAME, o.verkey, o.skip_main, o.agg));
    r.case(&(B::NAME, &id, &options, "honest"), true);
    let proof: Proof<B> = match guard(|| serde_json::from_str(&zk).map_err(|e| e.to_string())) {
        Ok(Ok(x)) => x,
        e => return r.violation(&key("input"), format!("the written proof cannot be read: {:?}; {options}; {}", e.map(|x| x.err()), text(&p))),
    };
    let v = verify::<B>(&p, &s, &proof);
    r.check(&key("input"), v == Verdict::Accept, || format!("the written proof, read back: {v:?}; {options}; {}", text(&p)));
    let got: Vec<u64> = proof.publics.iter().map(|x| elems(x)[0]).collect();
    r.check(&key("publics"), got == p.publics, || format!("publics {got:?}, the trace's are {:?}; {options}; {}", p.publics, text(&p)));
    let json: Map<String, Value> = serde_json::from_str(&zk).unwrap();
    if let Some(a) = json.get("proverAddr") {
        r.check(&key("address"), a.as_str() == Some(&addr), || format!("address {a}; {options}; {}", text(&p)));
        r.count("addresses compared", 1);
    }
    if B::ARITY == 16 {
        r.check(&key("address"), json.contains_key("proverAddr"), || format!("no prover address; {options}"));
    }
    if let Some(c) = &proof.rootC {
        r.check(&key("root"), *c == s.const_root, || format!("the written constant root is another; {options}; {}", text(&p)));
    }
    let differ = circuit.lines().zip(want.lines()).find(|(a, b)| a != b);
    r.check(&key("circuit"), circuit == want, || format!("the circuit is not the one of this program, root and stage: {differ:?}; {options}; {}", text(&p)));
    r.check(&key("main"), B::ARITY == 2 || circuit.contains("component main") != o.skip_main, || format!("main component: {}; {options}", circuit.contains("component main")));
    let json = if !o.agg {
        Some(json)
    } else if p.pil.publics.len() < 5 {
        r.count("too few publics to aggregate", 1);
        None
    } else {
        // the aggregation circuit takes two of the written inputs, joined
        let res = flat(guard(|| starky::zkin_join::join_zkin(&at("zkin"), &at("zkin"), &at("joined"))));
        r.check(&key("join"), res.is_ok(), || format!("{res:?}; {options}; {}", text(&p)));
        r.count("written inputs joined", 1);
        std::fs::read_to_string(at("joined")).ok().and_then(|t| serde_json::from_str(&t).ok())
    };
    if let Some(json) = json {
        let mut c = B::library();
        match c.load("verifier.circom", &circuit, &|n| B::file(n)) {
            Err(e) => r.violation(&key("circuit"), format!("not a circuit: {e:?}; {options}; {}", text(&p))),
            Ok(()) => {
                let out = decide::<B>(&c, json, !o.skip_main);
                r.check(&key("pair"), out.is_ok(), || format!("the written circuit refuses the written input: {:?}; {options}; {}", out.as_ref().err(), text(&p)));
                r.count("written circuits run on written inputs", 1);
                r.count("constraints evaluated", c.constraints.replace(0));
            }
        }
    }
    // traces that are not of the program
    for _ in 0..3 {
        let (cms, what) = corrupt(rng, &p);
        let selected = Trace::new(&p.pil, &p.consts, &cms, &p.publics).selected_publics();
        let mut t = Trace::new(&p.pil, &p.consts, &cms, &selected);
        if !t.selectors_boolean() || t.broken().is_empty() {
            r.count("changed traces on which nothing is claimed", 1);
            continue;
        }
        put("broken", &row_major(&cms));
        put("zkin", b"");
        let res = run("const", "broken");
        let (_, zk) = outputs();
        r.check(&key("broken"), res.is_err(), || format!("proved after {what}; {options}; {}", text(&p)));
        r.check(&key("broken-output"), !accepted(&p, &s, &zk), || format!("an accepted proof is left after {what}; {options}; {}", text(&p)));
        r.case(&(B::NAME, &id, &options, "broken", &what), true);
        r.count("broken traces refused", 1);
    }
    // files that are not whole
    for (n, whole) in [("const", &consts), ("cm", &row_major(&p.cms))] {
        if whole.is_empty() {
            continue;
        }
        let cut = rng.range(0, whole.len() - 1);
        put("short", &whole[..cut]);
        put("zkin", b"");
        let res = if n == "const" { run("short", "cm") } else { run("const", "short") };
        let (_, zk) = outputs();
        r.check(&key("short"), res.is_err(), || format!("proved with {cut} of {} bytes of {n}; {options}; {}", whole.len(), text(&p)));
        r.check(&key("short-output"), !accepted(&p, &s, &zk), || format!("an accepted proof is left; {options}"));
        r.case(&(B::NAME, &id, &options, "short", n, cut), true);
        r.count("incomplete files refused", 1);
    }
    if r.wants_sample() {
        r.sample(json!({"program": brief(&p), "options": options, "circuit bytes": circuit.len(), "input bytes": zk.len()}));
    }
}
fn e01_one<B: Flavour>(r: &mut Report, rng: &mut Rng, dir: &str) {
    let mut s = v01_shape::<B>(rng);
    s.queries = rng.range(24, 32);
    let mut o = Opt { enable: false, verkey: rng.chance(1, 2), agg: false, skip_main: rng.chance(1, 2) };
    if B::ARITY == 2 && rng.chance(1, 4) {
        o = Opt { enable: false, verkey: true, agg: true, skip_main: false };
        let other = *rng.pick(&KINDS);
        s.only = vec!["public", "public", "public", other];
        s.parts = rng.range(7, 12);
    }
    e01_case::<B>(r, rng, &s, &o, dir)
}
fn e01(r: &mut Report) {
    r.assume("gates and circuits of libraries outside the repository do what their names say (as in V01)");
    r.assume("selectors are boolean and the last layer of FRI is no smaller than the blow-up (as in S02)");
    r.workers(8, |r| {
        let mut rng = r.rng.fork();
        let dir = common::scratch();
        while r.more_time(1.0) {
            match rng.below(6) {
                0 | 1 => e01_one::<Bls>(r, &mut rng, &dir),
                2 => e01_one::<Bn>(r, &mut rng, &dir),
                _ => e01_one::<Gl>(r, &mut rng, &dir),
            }
        }
    });
}

fn main() {
    let p = std::env::args().nth(1).unwrap();
    match p.as_str() {
        "V01" => {
            let mut r = Report::new("V01", "one case is a generated circuit evaluated on the input of one proof, honest or altered", (35, 700));
            v01(&mut r);
            r.finish()
        }
        "V02" => {
            let mut r = Report::new("V02", "one case is a library circuit evaluated on one input, with its own hints or with forged ones", (25, 600));
            v02(&mut r);
            r.finish()
        }
        "E01" => {
            let mut r = Report::new("E01", "one case is one run of the prove command on files, with what it leaves behind", (30, 600));
            e01(&mut r);
            r.finish()
        }
        _ => panic!("unknown property {p}"),
    }
}
