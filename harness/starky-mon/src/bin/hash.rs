//! H01, H02: the hash functions against textbook Poseidon and the specified sponges.
use common::{gl, gl_val, guard, refused, Report, Rng};
use ff::PrimeField;
use num_bigint::BigUint;
use rayon::prelude::*;
use serde_json::json;
use starky::linearhash::LinearHash;
use starky::linearhash_bls12381::LinearHashBLS12381;
use starky::linearhash_bn128::LinearHashBN128;
use starky::traits::MTNodeType;
use starky_mon::backend::*;
use starky_mon::refhash::*;
use starky_mon::*;

fn state(rng: &mut Rng) -> [u64; 12] {
    let mut s = [0u64; 12];
    match rng.below(8) {
        0 => {
            // one active element
            s[rng.range(0, 11)] = gl_val(rng);
        }
        1 => s = [gl_val(rng); 12],
        2 => {
            for x in s.iter_mut() {
                *x = if rng.chance(1, 2) { 0 } else { common::P - 1 };
            }
        }
        _ => {
            for x in s.iter_mut() {
                *x = gl_val(rng);
            }
        }
    }
    s
}
/// a state whose value just before one full or partial round's S-boxes is extreme, by inverting the
/// rounds that lead to it
fn crafted_state(rng: &mut Rng) -> [u64; 12] {
    let mut s = state(rng);
    let rounds = rng.range(0, 29);
    gl_unpermute(&mut s, rounds);
    s
}

fn row(rng: &mut Rng, n: usize) -> Vec<u64> {
    match rng.below(6) {
        0 => vec![0; n],
        1 => vec![common::P - 1; n],
        2 => (1..=n as u64).collect(),
        _ => (0..n).map(|_| gl_val(rng)).collect(),
    }
}

fn h01(r: &mut Report) {
    let mut rng = r.rng.fork();
    let ps = starky::poseidon_opt::Poseidon::new();
    r.assume("reference: Poseidon with 4+22+4 rounds, x^7, the plain circulant MDS and the published round constants; checked against the published vectors at start");
    let kat = gl_hash(&[0; 8], &[0; 4]);
    assert_eq!(&kat[..4], &[0x3c18a9786cb0b359, 0xc4055e3364a246c3, 0x7953db0ab48808f4, 0xc71603f33a1144ca], "reference permutation");
    let kat = gl_hash(&[0, 1, 2, 3, 4, 5, 6, 7], &[8, 9, 10, 11]);
    assert_eq!(kat[0], 0xd64e1e3efc5b8e9e, "reference permutation");
    let kat = gl_hash(&[common::P - 1; 8], &[common::P - 1; 4]);
    assert_eq!(kat[0], 0xbe0085cfc57a8357, "reference permutation");
    let perm = |r: &mut Report, rng: &mut Rng, s: [u64; 12]| {
        let want = gl_hash(&s[..8], &s[8..].try_into().unwrap());
        let (i, c) = (fes(&s[..8]), fes(&s[8..]));
        let out = if rng.chance(1, 2) { 12 } else { rng.range(1, 12) };
        let got = guard(|| ps.hash(&i, &c, out).map_err(|e| e.to_string()));
        let ok = matches!(&got, Ok(Ok(v)) if vals(v) == want[..out]);
        r.check("permutation", ok, || format!("state {s:?}, {out} outputs: {:?}, textbook {:?}", got.map(|g| g.map(|v| vals(&v))), &want[..out]));
        r.count("permutations", 1);
        r.observe("output counts", &out);
        r.case(&("perm", s), true);
    };
    for i in 0..12 {
        for v in [0, 1, common::P - 1, 1 << 32, 0xffff_ffff] {
            let mut s = [0; 12];
            s[i] = v;
            perm(r, &mut rng, s);
        }
    }
    for bad in [0, 1, 7, 9, 12, 16] {
        r.check("wrong-input-length", refused(|| ps.hash(&vec![fe(1); bad], &fes(&[0; 4]), 4)), || format!("{bad} inputs accepted"));
        if bad != 4 {
            r.check("wrong-capacity-length", refused(|| ps.hash(&fes(&[1; 8]), &vec![fe(1); bad], 4)), || format!("capacity of {bad} accepted"));
        }
    }
    let lh = LinearHash::new();
    let mut len = 0;
    while r.more_time(1.0) {
        for _ in 0..40 {
            let s = if rng.chance(1, 3) { crafted_state(&mut rng) } else { state(&mut rng) };
            perm(r, &mut rng, s);
        }
        // every length in turn up to 200, then random longer ones
        len += 1;
        let n = if len <= 200 { len } else if rng.chance(1, 20) { rng.range(200, 3000) } else { rng.range(1, 200) };
        let v = row(&mut rng, n);
        r.beat(&format!("linear hash of {n} elements"));
        for batch in [0, rng.range(1, 40), *rng.pick(&[1, 4, 5, 8, 9, 16, 64, 5000])] {
            let want = gl_linear(&v, batch);
            let got = guard(|| lh.hash(&fes(&v), batch).map(|d| vals(d.as_elements())).map_err(|e| e.to_string()));
            r.check("linear", got == Ok(Ok(want.to_vec())), || format!("row of {n}, batch {batch}: {got:?}, sponge {want:?}; row {v:?}"));
            // matrix form: the same elements as equal-length columns
            let ds: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
            let cl = *rng.pick(&ds);
            let m: Vec<Vec<_>> = v.chunks(cl).map(fes).collect();
            let got2 = guard(|| lh.hash_element_matrix(&m, batch).map(|d| vals(d.as_elements())).map_err(|e| e.to_string()));
            r.check("matrix", got2 == Ok(Ok(want.to_vec())), || format!("{} columns of {cl}, batch {batch}: {got2:?}, sponge {want:?}", n / cl));
            r.observe("row lengths and batches", &(n, batch));
            r.count("linear hashes", 2);
            // sensitivity
            if let Ok(Ok(d)) = &got {
                let mut w = v.clone();
                let j = rng.range(0, n - 1);
                w[j] = gl::add(w[j], *rng.pick(&[1, common::P - 1, 1 << 32, 1 << 63]));
                let d2 = guard(|| vals(lh.hash(&fes(&w), batch).unwrap().as_elements()));
                r.check("element-change", d2.as_ref() != Ok(d), || format!("row of {n}, batch {batch}: changing element {j} keeps the digest; row {v:?}"));
                let (a, b) = (rng.range(0, n - 1), rng.range(0, n - 1));
                if v[a] != v[b] {
                    let mut w = v.clone();
                    w.swap(a, b);
                    let d2 = guard(|| vals(lh.hash(&fes(&w), batch).unwrap().as_elements()));
                    r.check("order-change", d2.as_ref() != Ok(d), || format!("row of {n}, batch {batch}: swapping {a},{b} keeps the digest; row {v:?}"));
                }
            }
            r.case(&("linear", &v, batch), true);
        }
        if r.wants_sample() && len % 17 == 0 {
            r.sample(json!({"row length": n, "digest": gl_linear(&v, 0)}));
        }
    }
    r.note("row_lengths_in_order", json!(len.min(200)));
}

trait Curve16: Sync {
    type F: PrimeField + Send + Sync;
    const NAME: &'static str;
    fn reference() -> &'static RefPoseidon;
    fn hash(i: &[Self::F], s: &Self::F) -> anyhow::Result<Self::F>;
    fn hash_ex(i: &[Self::F], s: &Self::F, n: usize) -> anyhow::Result<Vec<Self::F>>;
    fn row(v: &[fields::field_gl::Fr]) -> anyhow::Result<BigUint>;
    fn matrix(v: &[Vec<fields::field_gl::Fr>]) -> anyhow::Result<BigUint>;
    fn node(children: &[BigUint]) -> Option<anyhow::Result<BigUint>>;
    fn mont(v: [fields::field_gl::Fr; 4]) -> [fields::field_gl::Fr; 4];
}
fn raw<F: PrimeField>(x: &F) -> U256 {
    x.into_raw_repr().as_ref().try_into().unwrap()
}
macro_rules! curve {
    ($b:ty, $fr:ty, $p:ty, $lh:ty, $r:path, $mont:ident) => {
        impl Curve16 for $b {
            type F = $fr;
            const NAME: &'static str = <$b as Backend>::NAME;
            fn reference() -> &'static RefPoseidon {
                $r()
            }
            fn hash(i: &[$fr], s: &$fr) -> anyhow::Result<$fr> {
                <$p>::new().hash(i, s)
            }
            fn hash_ex(i: &[$fr], s: &$fr, n: usize) -> anyhow::Result<Vec<$fr>> {
                <$p>::new().hash_ex(i, s, n)
            }
            fn row(v: &[fields::field_gl::Fr]) -> anyhow::Result<BigUint> {
                <$lh>::new().hash_element_array(v).map(|d| <$b as Backend>::node(&d))
            }
            fn matrix(v: &[Vec<fields::field_gl::Fr>]) -> anyhow::Result<BigUint> {
                <$lh>::new().hash_element_matrix(v).map(|d| to_big(&$r().f.from_mont(&raw(&d))))
            }
            fn mont(v: [fields::field_gl::Fr; 4]) -> [fields::field_gl::Fr; 4] {
                <$lh>::$mont(v)
            }
            fn node(c: &[BigUint]) -> Option<anyhow::Result<BigUint>> {
                use ff::Field;
                let e: Option<Vec<_>> = c.iter().map(|x| <$b as Backend>::make(x)).collect();
                let e = e?;
                Some(<$lh>::new().hash_node(&e, &<$fr>::zero()).map(|d| <$b as Backend>::node(&d)))
            }
        }
    };
}
curve!(Bn, BnFr, starky::poseidon_bn128_opt::Poseidon, LinearHashBN128, bn, to_bn128_mont);
curve!(Bls, BlsFr, starky::poseidon_bls12381_opt::Poseidon, LinearHashBLS12381, bls, to_bls12381_mont);

fn big(rng: &mut Rng, p: &BigUint) -> BigUint {
    match rng.below(7) {
        0 => BigUint::from(rng.below(4)),
        1 => p - BigUint::from(1 + rng.below(3)),
        2 => BigUint::from(1u32) << rng.range(0, 253),
        3 => p >> 1usize,
        _ => BigUint::from_bytes_le(&rng.bytes(40)) % p,
    }
}
fn h02_arity<C: Curve16>(r: &mut Report, rng: &mut Rng, arity: usize, n: usize) {
    let rf = C::reference();
    let cases: Vec<(Vec<BigUint>, BigUint, usize)> = (0..n)
        .map(|k| {
            let zero = k == 0;
            let i = (0..arity).map(|_| if zero { BigUint::from(0u32) } else { big(rng, &rf.p) }).collect();
            (i, if zero || rng.chance(1, 3) { BigUint::from(0u32) } else { big(rng, &rf.p) }, rng.range(1, arity + 1))
        })
        .collect();
    r.beat(&format!("{} arity {arity}", C::NAME));
    let f = |x: &BigUint| C::F::from_str(&x.to_string()).unwrap();
    let canon = |x: &C::F| to_big(&rf.f.from_mont(&raw(x)));
    let res: Vec<_> = cases
        .par_iter()
        .map(|(i, s, n)| {
            let want = rf.permute(i, s);
            let wd = rf.hash(i, s);
            let iv: Vec<_> = i.iter().map(f).collect();
            let sv = f(s);
            let d = guard(|| C::hash(&iv, &sv).map(|x| canon(&x)).map_err(|e| e.to_string()));
            let o = guard(|| C::hash_ex(&iv, &sv, *n).map(|v| v.iter().map(canon).collect::<Vec<_>>()).map_err(|e| e.to_string()));
            (want, wd, d, o)
        })
        .collect();
    for ((i, s, n), (want, wd, d, o)) in cases.iter().zip(res) {
        r.check(&format!("{}-digest", C::NAME), d == Ok(Ok(wd.clone())), || format!("{} arity {arity} inputs {i:?} state {s}: {d:?}, textbook {wd}", C::NAME));
        r.check(&format!("{}-outputs", C::NAME), o == Ok(Ok(want[..*n].to_vec())), || format!("{} arity {arity} inputs {i:?} state {s}: {n} outputs {o:?}, textbook {want:?}", C::NAME));
        r.case(&(C::NAME, arity, format!("{i:?}{s}{n}")), true);
        r.count(C::NAME, 1);
        r.observe("arity and output count", &(C::NAME, arity, n));
    }
    if r.wants_sample() {
        r.sample(json!({"curve": C::NAME, "arity": arity, "input": cases[0].0.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "digest": rf.hash(&cases[0].0, &cases[0].1).to_string()}));
    }
}
fn h02_linear<C: Curve16>(r: &mut Report, rng: &mut Rng, n: usize) {
    let rf = C::reference();
    let v = row(rng, n);
    let d = format!("{} row of {n}", C::NAME);
    r.beat(&d);
    let want = rf.linear(&v);
    if unrepresentable(rf, &want) {
        r.count("digests outside the representable set (finding of D01)", 1);
        return;
    }
    let str_err = |x: anyhow::Result<BigUint>| x.map_err(|e| e.to_string());
    let got = guard(|| str_err(C::row(&fes(&v))));
    r.check(&format!("{}-row", C::NAME), got == Ok(Ok(want.clone())), || format!("{d}: {got:?}, sponge {want}; row {v:?}"));
    let cl = rng.range(1, n.max(1));
    let m: Vec<Vec<_>> = v.chunks(cl).map(fes).collect();
    let got2 = guard(|| str_err(C::matrix(&m)));
    r.check(&format!("{}-matrix", C::NAME), got2 == Ok(Ok(want.clone())), || format!("{d} as columns of {cl}: {got2:?}, sponge {want}; row {v:?}"));
    // injective packing: a different row of the same width
    let mut w = v.clone();
    let j = rng.range(0, n - 1);
    match rng.below(3) {
        0 => w[j] = gl::add(w[j], 1),
        1 if j + 1 < n => {
            w[j] = gl::sub(w[j], 1);
            w[j + 1] = gl::add(w[j + 1], 1);
        }
        _ => w.rotate_left(1),
    }
    if w != v {
        let g3 = guard(|| str_err(C::row(&fes(&w))));
        r.check(&format!("{}-injective", C::NAME), g3 != got, || format!("{d}: rows {v:?} and {w:?} have one digest"));
    }
    if n == 4 {
        // rows whose 256-bit integers agree modulo the curve order
        let x = to_big(&v.clone().try_into().unwrap());
        let y = &x + &rf.p;
        if y.bits() <= 256 {
            let w = from_big(&y);
            if w.iter().all(|l| *l < common::P) {
                let g3 = guard(|| str_err(C::row(&fes(&w))));
                r.check(&format!("{}-injective", C::NAME), g3 != got, || format!("{d}: rows {v:?} and {w:?} have one digest"));
                r.count("rows congruent modulo the curve order", 1);
            }
        }
    }
    r.case(&(C::NAME, "row", &v, cl), true);
    r.observe("row widths", &(C::NAME, n));
    r.count("linear hashes", 2);
}
/// Four elements as one 256-bit integer, in Montgomery form: also where it exceeds the modulus.
fn h02_mont<C: Curve16>(r: &mut Report, rng: &mut Rng) {
    let rf = C::reference();
    let mut v: U256 = std::array::from_fn(|_| gl_val(rng));
    match rng.below(4) {
        0 => v[3] = 0,
        1 => v[3] = rf.p.iter_u64_digits().nth(3).unwrap().wrapping_add(rng.below(3)).wrapping_sub(1),
        _ => {}
    }
    let want = rf.f.to_mont(&from_big(&(to_big(&v) % &rf.p)));
    if want.iter().any(|l| *l >= common::P) {
        return;
    }
    let got = guard(|| C::mont(fes(&v).try_into().unwrap()).iter().map(starky_mon::val).collect::<Vec<_>>());
    r.check(&format!("{}-montgomery", C::NAME), got == Ok(want.to_vec()), || format!("{} {v:?}: {got:?}, expected {want:?}", C::NAME));
    r.count("packings of four elements", 1);
    r.observe("packed integers against the modulus", &(C::NAME, to_big(&v) >= rf.p));
}
fn h02_node<C: Curve16>(r: &mut Report, rng: &mut Rng) {
    let rf = C::reference();
    let c: Vec<BigUint> = (0..16).map(|_| big(rng, &rf.p)).collect();
    let want = rf.hash(&c, &BigUint::from(0u32));
    if unrepresentable(rf, &want) {
        return;
    }
    if let Ok(Some(g)) = guard(|| C::node(&c)).map_err(|e| r.violation(&format!("{}-node", C::NAME), e)) {
        let g = g.map_err(|e| e.to_string());
        r.check(&format!("{}-node", C::NAME), g == Ok(want.clone()), || format!("node of {c:?}: {g:?}, textbook {want}"));
        r.count("nodes", 1);
    }
}

fn h02_refusals<C: Curve16>(r: &mut Report) {
    use ff::Field;
    for n in [0, 17, 18, 33] {
        let v = vec![C::F::one(); n];
        r.check(&format!("{}-arity", C::NAME), matches!(guard(|| C::hash(&v, &C::F::zero()).is_err()), Ok(true)), || format!("{} arity {n} is not refused with an error", C::NAME));
        r.check(&format!("{}-arity", C::NAME), matches!(guard(|| C::hash_ex(&v, &C::F::zero(), 1).is_err()), Ok(true)), || format!("{} arity {n} is not refused with an error", C::NAME));
    }
}

fn h02(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("reference: Poseidon parameters regenerated from the Grain LFSR (BN254: circomlib instance, digest first element; BLS12-381: Filecoin instance, digest second element), plain rounds");
    h02_refusals::<Bn>(r);
    h02_refusals::<Bls>(r);
    let mut w = 0;
    let mut k = 3;
    while r.more_time(1.0) {
        for a in 1..=16 {
            h02_arity::<Bn>(r, &mut rng, a, k);
            h02_arity::<Bls>(r, &mut rng, a, k);
        }
        k = 16;
        for _ in 0..12 {
            w = w % 150 + 1;
            let w = if rng.chance(1, 12) { rng.range(150, 900) } else { w };
            h02_linear::<Bn>(r, &mut rng, w);
            h02_linear::<Bls>(r, &mut rng, w);
            h02_linear::<Bn>(r, &mut rng, 4);
            h02_linear::<Bls>(r, &mut rng, 4);
            for _ in 0..6 {
                h02_mont::<Bn>(r, &mut rng);
                h02_mont::<Bls>(r, &mut rng);
            }
            h02_node::<Bn>(r, &mut rng);
            h02_node::<Bls>(r, &mut rng);
        }
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("H01") => {
            let mut r = Report::new("H01", "permutation inputs (edge, random, and inverted from extreme inner states), rows of every length 1..200 and random longer ones under several batch sizes; all non-trivial; distinct by input", (20, 600));
            h01(&mut r);
            r.finish()
        }
        Some("H02") => {
            let mut r = Report::new("H02", "per curve: every arity 1..16 with edge and random inputs, initial states and output counts; rows of every width 1..150 and random ones to 900, four packed elements on either side of the modulus; all non-trivial; distinct by input", (25, 600));
            h02(&mut r);
            r.finish()
        }
        _ => panic!("usage: hash H01|H02"),
    }
}
