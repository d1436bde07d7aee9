//! S05: FRI accepts evaluations of polynomials below the degree bound and nothing else. The oracle is a reference
//! prover (folding by its defining interpolation), which also plays the adversary.
use common::{gl, gl_val, guard, Report, Rng};
use fields::field_gl::Fr as FGL;
use starky::f3g::F3G;
use starky::stark_gen::verif::{FRIProof, Query, FRI};
use starky::traits::{FieldExtension, MTNodeType, MerkleTree, Transcript};
use starky::types::{StarkStruct, Step};
use starky_mon::backend::*;
use starky_mon::ext::cubic::{self, E};
use starky_mon::ext::{dft, idft, Coeffs};
use starky_mon::*;
use std::cell::RefCell;

type Proof<B> = FRIProof<F3G, <B as Backend>::M>;
type Opening<B> = Vec<(Vec<FGL>, Vec<Vec<<<B as Backend>::M as MerkleTree>::BaseField>>)>;

const SHIFT: u64 = 49;

#[derive(Clone, Debug)]
struct Params {
    bits: usize,
    ext: usize,
    steps: Vec<usize>,
    queries: usize,
    salt: u64,
}
impl Params {
    fn fri(&self) -> FRI {
        FRI::new(&StarkStruct {
            nBits: self.bits - self.ext,
            nBitsExt: self.bits,
            nQueries: self.queries,
            verificationHashType: "GL".into(),
            steps: self.steps.iter().map(|n| Step { nBits: *n }).collect(),
        })
    }
    fn last(&self) -> usize {
        *self.steps.last().unwrap()
    }
    /// how many coefficients the final polynomial may have
    fn final_coefs(&self) -> usize {
        if self.last() < self.ext { 1 } else { 1 << (self.last() - self.ext) }
    }
}
fn params(rng: &mut Rng, slow: bool, sound: bool) -> Params {
    let bits = match rng.below(6) {
        0 => rng.range(2, 3),
        1 => if slow { 5 } else { rng.range(8, 10) },
        _ => rng.range(3, if slow { 5 } else { 7 }),
    };
    let ext = rng.range(1, 3.min(bits - 1));
    let low = if !sound && rng.chance(1, 8) { 1 } else { ext };
    let mut steps = vec![bits];
    if bits > low {
        let mut rest: Vec<usize> = (low..bits).collect();
        rng.shuffle(&mut rest);
        let k = rng.range(0, rest.len().min(5));
        rest.truncate(k);
        rest.sort();
        rest.reverse();
        steps.extend(rest);
    }
    let queries = if sound { rng.range(40, 64) } else { *rng.pick(&[1, 1, 2, 3, 5, 8, 20, 64]) };
    Params { bits, ext, steps, queries, salt: rng.u64() >> 1 }
}
fn coef(v: &[E], k: usize) -> Vec<u64> {
    v.iter().map(|x| x[k]).collect()
}
fn zip3(c: [Vec<u64>; 3]) -> Vec<E> {
    (0..c[0].len()).map(|i| [c[0][i], c[1][i], c[2][i]]).collect()
}
fn each(v: &[E], f: impl Fn(&[u64]) -> Vec<u64>) -> Vec<E> {
    zip3([f(&coef(v, 0)), f(&coef(v, 1)), f(&coef(v, 2))])
}
/// values on shift*<w> of a polynomial
fn evaluate(c: &[E], bits: usize, shift: u64) -> Vec<E> {
    each(c, |c| {
        let mut s = 1;
        let mut v: Vec<u64> = c
            .iter()
            .map(|x| {
                let y = gl::mul(*x, s);
                s = gl::mul(s, shift);
                y
            })
            .collect();
        v.resize(1 << bits, 0);
        dft(&v, gl::root(bits))
    })
}
fn horner(c: &[E], x: &E) -> E {
    c.iter().rev().fold([0; 3], |a, b| cubic::add(&cubic::mul(&a, x), b))
}
fn shift_at(bits: usize, now: usize) -> u64 {
    gl::pow(SHIFT, 1 << (bits - now))
}
/// the value at z of the polynomial through the group's points, divided by x_g
fn fold_group(vals: &[E], xg: u64, z: &E) -> E {
    let c = each(vals, |v| idft(v, gl::root(v.len().trailing_zeros() as usize)));
    horner(&c, &cubic::scale(z, gl::inv(xg)))
}
fn fold(v: &[E], top: usize, from: usize, to: usize, z: &E) -> Vec<E> {
    let groups = 1 << to;
    let (shift, w) = (shift_at(top, from), gl::root(from));
    (0..groups)
        .map(|g| {
            let vals: Vec<E> = v.iter().skip(g).step_by(groups).copied().collect();
            fold_group(&vals, gl::mul(shift, gl::pow(w, g as u64)), z)
        })
        .collect()
}
fn f3(e: &E) -> F3G {
    F3G::from_vec(fes(e))
}
fn e3(x: &F3G) -> E {
    x.coeffs().try_into().unwrap()
}
/// leaf g holds the values of group g
fn layer_rows(v: &[E], to: usize) -> Vec<Vec<u64>> {
    let groups = 1 << to;
    (0..groups).map(|g| v.iter().skip(g).step_by(groups).flatten().copied().collect()).collect()
}
fn commit<B: Backend>(rows: &[Vec<u64>]) -> B::M {
    let flat: Vec<FGL> = rows.iter().flatten().map(|x| fe(*x)).collect();
    let mut t = B::M::new();
    t.merkelize(flat, rows[0].len(), rows.len()).unwrap();
    t
}
fn start<B: Backend>(p: &Params, root: &<B::M as MerkleTree>::MTNode) -> B::T {
    let mut t = B::T::new();
    t.put(&[vec![fe(p.salt)]]).unwrap();
    t.put(&[root.as_elements().to_vec()]).unwrap();
    t
}

/// what the adversary does differently
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Trick {
    Honest,
    /// the final values are replaced by the polynomial through the first few of them
    LastInterpolated,
    /// final values of a polynomial of the right degree unrelated to anything
    LastRandom,
    /// from this layer on an unrelated low-degree polynomial is committed
    Switch(usize),
    /// the final list has twice or half as many values, all of a low-degree polynomial
    LastLong,
    LastShort,
    /// the leaves of the first folded layer are wider than a group, the extra values chosen so that the fold has low degree
    Wide,
    /// every folded layer is made from values other than the committed ones
    FoldOther,
    /// one value of one committed vector differs from what everything else is made from (0: the first vector)
    Spot(usize, usize),
}
thread_local! {
    /// the positions the last proof of the reference prover was asked for
    static DRAWN: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}
/// the reference prover
fn forge<B: Backend>(p: &Params, v: &[E], trick: &Trick, rng: &mut Rng) -> Option<(Proof<B>, <B::M as MerkleTree>::MTNode)> {
    let spot = |layer: usize, v: &[E]| -> Vec<E> {
        let mut v = v.to_vec();
        if let Trick::Spot(l, at) = trick {
            if *l == layer {
                v[*at] = cubic::add(&v[*at], &[1 + p.salt % 1000, p.salt % 7, 0]);
            }
        }
        v
    };
    let tree0 = commit::<B>(&spot(0, v).iter().map(|e| e.to_vec()).collect::<Vec<_>>());
    let mut t = start::<B>(p, &tree0.root());
    let mut proof: Proof<B> = FRIProof::new(p.steps.len());
    let mut trees = vec![];
    let mut now = v.to_vec();
    let mut bits = p.bits;
    let random_low = |rng: &mut Rng, bits: usize| -> Vec<E> {
        let n = if bits < p.ext { 1 } else { 1 << (bits - p.ext) };
        let c: Vec<E> = (0..n).map(|_| [gl_val(rng), gl_val(rng), gl_val(rng)]).collect();
        evaluate(&c, bits, shift_at(p.bits, bits))
    };
    let mut wide: Option<Vec<Vec<E>>> = None;
    for (si, b) in p.steps.iter().enumerate() {
        let z: F3G = t.get_field();
        let z = e3(&z);
        if si > 0 {
            now = match wide.take() {
                Some(leaves) => {
                    let (shift, w) = (shift_at(p.bits, bits), gl::root(bits));
                    leaves.iter().enumerate().map(|(g, l)| fold_group(l, gl::mul(shift, gl::pow(w, g as u64)), &z)).collect()
                }
                None => fold(&now, p.bits, bits, *b, &z),
            };
        }
        bits = *b;
        if *trick == Trick::Switch(si) || (*trick == Trick::FoldOther && si > 0) {
            now = random_low(rng, bits);
        }
        if si + 1 < p.steps.len() {
            let to = p.steps[si + 1];
            let rows = if si == 0 && *trick == Trick::Wide {
                let l = widen(p, &now, bits, to)?;
                let rows = l.iter().map(|g| g.iter().flatten().copied().collect()).collect();
                wide = Some(l);
                rows
            } else {
                layer_rows(&spot(si + 1, &now), to)
            };
            let tree = commit::<B>(&rows);
            proof.queries[si + 1].root = tree.root();
            t.put(&[tree.root().as_elements().to_vec()]).unwrap();
            trees.push(tree);
        } else {
            match trick {
                Trick::LastInterpolated => {
                    let k = p.final_coefs();
                    // through every 2^ext-th point
                    let step = now.len() / k;
                    if step < 2 {
                        return None;
                    }
                    let c = {
                        let at: Vec<E> = now.iter().step_by(step).copied().collect();
                        each(&at, |v| idft(v, gl::root(k.trailing_zeros() as usize)))
                    };
                    now = each(&c, |c| {
                        let mut c = c.to_vec();
                        c.resize(now.len(), 0);
                        dft(&c, gl::root(bits))
                    });
                }
                Trick::LastRandom => now = random_low(rng, bits),
                Trick::LastLong => {
                    let c: Vec<E> = (0..p.final_coefs()).map(|_| [gl_val(rng), 1, 0]).collect();
                    now = evaluate(&c, bits + 1, 1);
                }
                Trick::LastShort => {
                    if bits == 0 {
                        return None;
                    }
                    now.truncate(now.len() / 2);
                }
                _ => {}
            }
            for e in &now {
                t.put(&e.iter().map(|x| vec![fe(*x)]).collect::<Vec<_>>()).unwrap();
            }
        }
    }
    proof.last = now.iter().map(f3).collect();
    let mut ys = t.get_permutations(p.queries, p.steps[0]).unwrap();
    DRAWN.with(|d| *d.borrow_mut() = ys.clone());
    for si in 0..p.steps.len() {
        for y in &ys {
            let tree = if si == 0 { &tree0 } else { &trees[si - 1] };
            proof.queries[si].pol_queries.push(vec![tree.get_group_proof(*y).unwrap()]);
        }
        if si + 1 < p.steps.len() {
            for y in &mut ys {
                *y %= 1 << p.steps[si + 1];
            }
        }
    }
    Some((proof, tree0.root()))
}
/// Leaves 2^ext times as wide as a group, starting with the group's values, whose fold at every z is a polynomial
/// below the degree bound: the coefficients are the unknowns of a linear system.
fn widen(p: &Params, v: &[E], from: usize, to: usize) -> Option<Vec<Vec<E>>> {
    if to < p.ext {
        return None;
    }
    let groups = 1usize << to;
    let nx = v.len() / groups;
    let d = groups >> p.ext;
    let m = nx << p.ext;
    let n = m * d;
    if n > 128 || m > 1 << 20 {
        return None;
    }
    assert_eq!(n, nx * groups);
    let (shift, w, wm, wg) = (shift_at(p.bits, from), gl::root(from), gl::root(m.trailing_zeros() as usize), gl::root(to));
    // value i of leaf g is sum_k h_k(w_g^g) x_g^k wm^(ik), h_k of d coefficients
    let mut a: Vec<Vec<u64>> = vec![];
    for g in 0..groups {
        let xg = gl::mul(shift, gl::pow(w, g as u64));
        for i in 0..nx {
            let mut row = vec![];
            for k in 0..m {
                let base = gl::mul(gl::pow(xg, k as u64), gl::pow(wm, (i * k) as u64));
                for c in 0..d {
                    row.push(gl::mul(base, gl::pow(wg, (g * c) as u64)));
                }
            }
            row.extend(v[i * groups + g]);
            a.push(row);
        }
    }
    // Gauss
    let mut free: Vec<usize> = vec![usize::MAX; n];
    let mut r = 0;
    for c in 0..n {
        let Some(q) = (r..n).find(|q| a[*q][c] != 0) else { continue };
        a.swap(r, q);
        let inv = gl::inv(a[r][c]);
        for x in a[r].iter_mut() {
            *x = gl::mul(*x, inv);
        }
        for q in 0..n {
            if q != r && a[q][c] != 0 {
                let f = a[q][c];
                for j in 0..n + 3 {
                    let t = gl::mul(f, a[r][j]);
                    a[q][j] = gl::sub(a[q][j], t);
                }
            }
        }
        free[c] = r;
        r += 1;
    }
    if a[r..].iter().any(|row| row[n..] != [0, 0, 0]) {
        return None;
    }
    let sol: Vec<E> = (0..n).map(|c| if free[c] == usize::MAX { [0; 3] } else { a[free[c]][n..].try_into().unwrap() }).collect();
    let leaves = (0..groups)
        .map(|g| {
            let xg = gl::mul(shift, gl::pow(w, g as u64));
            let ck: Vec<E> = (0..m)
                .map(|k| {
                    let h = (0..d).fold([0; 3], |s, c| cubic::add(&s, &cubic::scale(&sol[k * d + c], gl::pow(wg, (g * c) as u64))));
                    cubic::scale(&h, gl::pow(xg, k as u64))
                })
                .collect();
            each(&ck, |c| dft(c, wm))
        })
        .collect();
    Some(leaves)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Verdict {
    Accept,
    Reject,
    Refused(String),
}
/// the native verifier, with the caller's part (opening the first layer) done here; also the positions it asked for
fn verify<B: Backend>(p: &Params, proof: &Proof<B>, root: &<B::M as MerkleTree>::MTNode) -> (Verdict, Vec<usize>) {
    let asked = RefCell::new(vec![]);
    let r = guard(|| {
        let mut t = start::<B>(p, root);
        let tree = B::M::new();
        p.fri().verify::<F3G, B::M, B::T>(&mut t, proof, |q: &Opening<B>, idx: usize| {
            asked.borrow_mut().push(idx);
            if q[0].0.len() != 3 || !tree.verify_group_proof(root, &q[0].1, idx, &q[0].0)? {
                anyhow::bail!("opening");
            }
            Ok(vec![F3G::from_vec(q[0].0.clone())])
        })
    });
    let v = match r {
        Ok(Ok(true)) => Verdict::Accept,
        Ok(Ok(false)) => Verdict::Reject,
        Ok(Err(e)) => Verdict::Refused(e.to_string()),
        Err(e) => Verdict::Refused(e),
    };
    (v, asked.into_inner())
}
fn prove<B: Backend>(p: &Params, v: &[E]) -> Result<(Proof<B>, <B::M as MerkleTree>::MTNode, Vec<usize>), String> {
    let tree0 = commit::<B>(&v.iter().map(|e| e.to_vec()).collect::<Vec<_>>());
    let pol: Vec<F3G> = v.iter().map(f3).collect();
    let asked = RefCell::new(vec![]);
    let proof = guard(|| {
        let mut t = start::<B>(p, &tree0.root());
        p.fri()
            .prove::<F3G, B::M, B::T>(&mut t, &pol, |i| {
                asked.borrow_mut().push(i);
                vec![tree0.get_group_proof(i).unwrap()]
            })
            .map_err(|e| e.to_string())
    })??;
    Ok((proof, tree0.root(), asked.into_inner()))
}
fn same<B: Backend>(a: &Proof<B>, b: &Proof<B>) -> Result<(), String> {
    if a.last.iter().map(e3).ne(b.last.iter().map(e3)) {
        return Err("final values".into());
    }
    if a.queries.len() != b.queries.len() {
        return Err("number of layers".into());
    }
    for (i, (x, y)) in a.queries.iter().zip(&b.queries).enumerate() {
        if i > 0 && B::node(&x.root) != B::node(&y.root) {
            return Err(format!("root {i}"));
        }
        if x.pol_queries.len() != y.pol_queries.len() {
            return Err(format!("number of queries of layer {i}"));
        }
        for (q, (s, t)) in x.pol_queries.iter().zip(&y.pol_queries).enumerate() {
            if vals(&s[0].0) != vals(&t[0].0) || s[0].1.iter().map(|l| B::level(l)).ne(t[0].1.iter().map(|l| B::level(l))) {
                return Err(format!("query {q} of layer {i}"));
            }
        }
    }
    Ok(())
}
fn random_pol(rng: &mut Rng, n: usize) -> Vec<E> {
    (0..n).map(|_| [gl_val(rng), if rng.chance(1, 4) { 0 } else { gl_val(rng) }, gl_val(rng)]).collect()
}
fn unlucky<B: Backend>(e: &str) -> bool {
    B::ARITY == 16 && e.contains("NotInField")
}

fn honest<B: Backend>(r: &mut Report, rng: &mut Rng) {
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let p = params(rng, B::ARITY == 16, false);
    let bound = 1usize << (p.bits - p.ext);
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => rng.range(0, bound),
        _ => bound,
    };
    let mut c = random_pol(rng, n);
    if rng.chance(1, 10) {
        c.iter_mut().for_each(|x| *x = [0; 3]);
    }
    if rng.chance(1, 6) && n > 0 {
        // one term only
        let k = rng.range(0, n - 1);
        c.iter_mut().enumerate().for_each(|(i, x)| if i != k { *x = [0; 3] });
    }
    r.beat(&format!("{} {p:?} {n} coefficients", B::NAME));
    let c = if c.is_empty() { vec![[0; 3]] } else { c };
    let v = evaluate(&c, p.bits, SHIFT);
    let d = || format!("{p:?}, coefficients {c:?}");
    let (proof, root, asked) = match prove::<B>(&p, &v) {
        Ok(x) => x,
        Err(e) if unlucky::<B>(&e) => return r.count("digest outside the representable set (finding of D01)", 1),
        Err(e) => return r.violation(&key("prove"), format!("{e}; {}", d())),
    };
    let (got, wanted) = verify::<B>(&p, &proof, &root);
    r.check(&key("complete"), got == Verdict::Accept, || format!("{got:?}; {}", d()));
    r.check(&key("positions"), asked == wanted && asked.len() == p.queries && asked.iter().all(|y| *y < 1 << p.bits), || {
        format!("prover opened {asked:?}, verifier asked for {wanted:?}; {}", d())
    });
    for (q, y) in proof.queries[0].pol_queries.iter().zip(&asked) {
        r.check(&key("opened"), vals(&q[0].0) == v[*y], || format!("position {y} opened as {:?}, committed {:?}; {}", vals(&q[0].0), v[*y], d()));
    }
    match guard(|| forge::<B>(&p, &v, &Trick::Honest, rng)) {
        Ok(Some((want, _))) => {
            let s = same::<B>(&proof, &want);
            r.check(&key("reference"), s.is_ok(), || format!("{} differ from the reference prover's; {}", s.clone().unwrap_err(), d()));
            r.count("proofs equal to the reference prover's", 1);
        }
        e => r.violation(&key("reference"), format!("{:?}; {}", e.map(|x| x.is_some()), d())),
    }
    // the final polynomial is the folded one: below its bound
    let f = each(&proof.last.iter().map(e3).collect::<Vec<_>>(), |v| idft(v, gl::root(p.last())));
    let deg = f.iter().rposition(|x| *x != [0; 3]).map_or(0, |k| k + 1);
    r.check(&key("final-degree"), deg <= p.final_coefs(), || format!("{deg} coefficients; {}", d()));
    r.count("honest proofs", 1);
    r.observe("step lists", &p.steps);
    r.observe("sizes and blow-ups", &(p.bits, p.ext));
    r.observe("query counts", &p.queries);
    r.observe("final coefficients", &deg);
    r.case(&(B::NAME, format!("{p:?}"), &c), true);
    if r.wants_sample() {
        r.sample(serde_json::json!({"hash": B::NAME, "params": format!("{p:?}"), "coefficients": n}));
    }
    tamper::<B>(r, rng, &p, proof, &root);
}
fn tamper<B: Backend>(r: &mut Report, rng: &mut Rng, p: &Params, mut proof: Proof<B>, root: &<B::M as MerkleTree>::MTNode) {
    macro_rules! judge {
        ($what:expr, $detail:expr) => {{
            let (v, _) = verify::<B>(p, &proof, root);
            let d: String = $detail;
            r.check(&format!("{}-altered-{}", B::NAME, $what), v != Verdict::Accept, || format!("accepted after: {d}; {p:?}"));
            r.count(&format!("altered {} rejected", $what), 1);
            r.case(&(B::NAME, p.salt, $what, &d), true);
        }};
    }
    fn bump(rng: &mut Rng, x: &FGL) -> FGL {
        let x = val(x);
        loop {
            let y = match rng.below(4) {
                0 => gl::add(x, 1),
                1 => gl::neg(x),
                2 => 0,
                _ => gl_val(rng),
            };
            if y != x {
                return fe(y);
            }
        }
    }
    for i in 0..proof.last.len().min(4) {
        let i = if i == 0 { 0 } else { rng.range(0, proof.last.len() - 1) };
        let old = proof.last[i];
        let mut e = fes(&e3(&old));
        let k = rng.range(0, 2);
        e[k] = bump(rng, &e[k]);
        proof.last[i] = F3G::from_vec(e);
        judge!("final value", format!("final value {i}"));
        proof.last[i] = old;
    }
    for si in 0..p.steps.len() {
        if si > 0 {
            let mut l = proof.queries[si].root.as_elements().to_vec();
            let k = rng.range(0, 2);
            l[k] = bump(rng, &l[k]);
            if let Ok(n) = guard(|| <B::M as MerkleTree>::MTNode::new(&l)) {
                if guard(|| B::node(&n)).is_ok_and(|x| x != B::node(&proof.queries[si].root)) {
                    let old = std::mem::replace(&mut proof.queries[si].root, n);
                    judge!("root", format!("root {si}"));
                    proof.queries[si].root = old;
                }
            }
        }
        for _ in 0..4 {
            let q = rng.range(0, p.queries - 1);
            let w = proof.queries[si].pol_queries[q][0].0.len();
            let k = rng.range(0, w - 1);
            let old = proof.queries[si].pol_queries[q][0].0[k];
            proof.queries[si].pol_queries[q][0].0[k] = bump(rng, &old);
            judge!("opened value", format!("layer {si} query {q} value {k}"));
            proof.queries[si].pol_queries[q][0].0[k] = old;
            let depth = proof.queries[si].pol_queries[q][0].1.len();
            if depth > 0 {
                let l = rng.range(0, depth - 1);
                let k = rng.range(0, proof.queries[si].pol_queries[q][0].1[l].len() - 1);
                let old = proof.queries[si].pol_queries[q][0].1[l][k].clone();
                proof.queries[si].pol_queries[q][0].1[l][k] = B::mutate_base(&old, 1 + rng.below(1 << 20));
                judge!("path", format!("layer {si} query {q} level {l} sibling {k}"));
                proof.queries[si].pol_queries[q][0].1[l][k] = old;
            }
        }
        // missing pieces
        let x = proof.queries[si].pol_queries.pop().unwrap();
        judge!("query list", format!("last query of layer {si} removed"));
        proof.queries[si].pol_queries.push(x);
        let x = proof.queries[si].pol_queries[0][0].0.pop().unwrap();
        judge!("opened value", format!("last value of query 0 of layer {si} removed"));
        proof.queries[si].pol_queries[0][0].0.push(x);
        if p.queries > 1 {
            let (a, b) = (rng.range(0, p.queries - 1), rng.range(0, p.queries - 1));
            let pq = &mut proof.queries[si].pol_queries;
            if vals(&pq[a][0].0) != vals(&pq[b][0].0) {
                pq.swap(a, b);
                judge!("query order", format!("layer {si}: queries {a}, {b} swapped"));
                proof.queries[si].pol_queries.swap(a, b);
            }
        }
    }
    let l = proof.last.clone();
    if l.len() > 1 {
        proof.last.truncate(l.len() / 2);
        judge!("final list", "final list halved".into());
        proof.last = l.clone();
        proof.last.reverse();
        if proof.last.iter().map(e3).ne(l.iter().map(e3)) {
            judge!("final list", "final list reversed".into());
        }
    }
    proof.last = l.iter().chain(&l).copied().collect();
    judge!("final list", "final list doubled".into());
    proof.last = l;
    let q = proof.queries.pop().unwrap();
    judge!("layer list", "last layer removed".into());
    proof.queries.push(q);
    let (v, _) = verify::<B>(p, &proof, root);
    // every alteration was undone: the honest proof is what is left
    r.check(&format!("{}-honest", B::NAME), v == Verdict::Accept, || format!("an honest proof is not accepted: {v:?}; {p:?}"));
}
/// evaluations that are not of a polynomial below the bound
fn high<B: Backend>(r: &mut Report, rng: &mut Rng) {
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let mut p = params(rng, B::ARITY == 16, true);
    let bound = 1usize << (p.bits - p.ext);
    let what = rng.below(8);
    let (v, name): (Vec<E>, &str) = match what {
        0 => {
            // exactly one degree too many
            let mut c = random_pol(rng, bound + 1);
            c[bound] = [1 + rng.below(9), 0, 0];
            (evaluate(&c, p.bits, SHIFT), "degree equal to the bound")
        }
        1 => {
            let mut c = vec![[0; 3]; bound + 1];
            c[bound] = [1, 0, 0];
            (evaluate(&c, p.bits, SHIFT), "the monomial of degree equal to the bound")
        }
        2 => {
            let n = 1usize << p.bits;
            let mut c = vec![[0; 3]; n];
            let k = rng.range(bound, n - 1);
            c[k] = [0, gl_val(rng).max(1), 0];
            (evaluate(&c, p.bits, SHIFT), "a monomial above the bound")
        }
        3 => {
            let c = random_pol(rng, 1 << p.bits);
            (evaluate(&c, p.bits, SHIFT), "full degree")
        }
        4 => ((0..1 << p.bits).map(|_| [gl_val(rng), gl_val(rng), gl_val(rng)]).collect(), "random values"),
        5 => {
            // half of the positions lie on a polynomial
            let c = random_pol(rng, bound);
            let mut v = evaluate(&c, p.bits, SHIFT);
            let mut at: Vec<usize> = (0..v.len()).collect();
            rng.shuffle(&mut at);
            for i in at.iter().take(v.len() / 2) {
                v[*i] = cubic::add(&v[*i], &[1 + gl_val(rng) % 1000, 0, 1]);
            }
            (v, "half of the values off a polynomial")
        }
        6 => {
            // two polynomials on the two halves
            let (a, b) = (evaluate(&random_pol(rng, bound), p.bits, SHIFT), evaluate(&random_pol(rng, bound), p.bits, SHIFT));
            let h = a.len() / 2;
            (a[..h].iter().chain(&b[h..]).copied().collect(), "two polynomials on the two halves")
        }
        _ => {
            // right degree, wrong coset
            let c = random_pol(rng, bound.max(2));
            let v = evaluate(&c, p.bits, SHIFT);
            let mut v2 = v.clone();
            v2.swap(0, 1);
            let half = v2.len() / 2;
            v2[half..].reverse();
            (v2, "values in another order")
        }
    };
    let k = p.steps.len();
    let mut tricks = vec![Trick::Honest, Trick::LastInterpolated, Trick::LastRandom, Trick::LastLong, Trick::LastShort, Trick::Wide, Trick::FoldOther];
    tricks.extend((1..k).map(Trick::Switch));
    let t = if what == 5 { Trick::Honest } else { rng.pick(&tricks).clone() };
    if t == Trick::Wide {
        // a system small enough to solve
        p.bits = rng.range(3, 6);
        p.ext = rng.range(1, 2);
        let to = rng.range(p.ext, p.bits - 1);
        p.steps = if to > p.ext && rng.chance(1, 2) { vec![p.bits, to, p.ext] } else { vec![p.bits, to] };
    }
    let v = if t == Trick::Wide { (0..1 << p.bits).map(|_| [gl_val(rng), gl_val(rng), gl_val(rng)]).collect() } else { v };
    let name = if t == Trick::Wide { "random values" } else { name };
    r.beat(&format!("{} {p:?} {name} {t:?}", B::NAME));
    let d = |v: &[E]| format!("accepted {name} (prover {t:?}); {p:?}; {v:?}");
    let forged = match guard(|| forge::<B>(&p, &v, &t, rng)) {
        Ok(Some(x)) => x,
        Ok(None) => return r.count("trick not applicable", 1),
        Err(e) if unlucky::<B>(&e) => return r.count("digest outside the representable set (finding of D01)", 1),
        Err(e) => panic!("{e}"),
    };
    let (got, _) = verify::<B>(&p, &forged.0, &forged.1);
    r.check(&key(&format!("sound-{}", format!("{t:?}").split('(').next().unwrap())), got != Verdict::Accept, || d(&v));
    r.count(match got { Verdict::Refused(_) => "forgeries refused with an error", _ => "forgeries rejected" }, 1);
    r.observe("forgeries", &(what, &t));
    if t == Trick::Wide {
        r.count("proofs with widened leaves", 1);
    }
    if t == Trick::Honest {
        if let Ok((proof, root, _)) = prove::<B>(&p, &v) {
            let (got, _) = verify::<B>(&p, &proof, &root);
            r.check(&key("sound"), got != Verdict::Accept, || d(&v));
            r.count("proofs by the native prover rejected", 1);
        }
    }
    r.case(&(B::NAME, p.salt, what, &t), true);
}
/// A proof in which exactly one query meets a value that does not fit: it has to be rejected whichever query that is.
fn spot<B: Backend>(r: &mut Report, rng: &mut Rng) {
    let mut p = params(rng, true, false);
    let most = if rng.chance(1, 4) { 12 } else { 4 };
    p.queries = rng.range(1, most);
    let v = evaluate(&random_pol(rng, 1 << (p.bits - p.ext)), p.bits, SHIFT);
    for _ in 0..20 {
        p.salt = rng.u64() >> 1;
        let layer = rng.range(0, p.steps.len() - 1);
        let at = rng.range(0, (1 << p.steps[layer.saturating_sub(1)]) - 1);
        let t = Trick::Spot(layer, at);
        r.beat(&format!("{} {p:?} {t:?}", B::NAME));
        let (proof, root) = match guard(|| forge::<B>(&p, &v, &t, rng)) {
            Ok(x) => x.unwrap(),
            Err(e) if unlucky::<B>(&e) => return r.count("digest outside the representable set (finding of D01)", 1),
            Err(e) => panic!("{e}"),
        };
        let (got, _) = verify::<B>(&p, &proof, &root);
        // vector 0 is opened value by value, a later one group by group
        let groups = 1 << p.steps[layer];
        let hits: Vec<usize> = DRAWN.with(|d| d.borrow().iter().enumerate().filter(|(_, y)| *y % groups == at % groups).map(|(q, _)| q).collect());
        if hits.len() != 1 {
            r.count("spots met by no query or by several", 1);
            continue;
        }
        r.check(&format!("{}-spot", B::NAME), got != Verdict::Accept, || {
            format!("accepted though query {} of {} opens a value of vector {layer} that was altered at {at}; {p:?}; {v:?}", hits[0], p.queries)
        });
        r.count("proofs in which one query meets one wrong value", 1);
        r.observe("query and layer that meet the wrong value", &(hits[0], p.queries, layer, p.steps.len()));
        r.case(&(B::NAME, p.salt, layer, at), true);
        return;
    }
}
fn run(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("soundness is judged with 40 to 64 queries and functions at distance 1/2 or more, so that a false alarm has probability below 2^-16 per million cases; the last folding step keeps at least as many values as the blow-up, as the recursive verifiers demand (fewer cannot express the bound)");
    while r.more_time(1.0) {
        match rng.below(24) {
            0 => honest::<Bn>(r, &mut rng),
            1 => honest::<Bls>(r, &mut rng),
            2 => if rng.chance(1, 4) { spot::<Bn>(r, &mut rng) } else { high::<Bn>(r, &mut rng) },
            3 => if rng.chance(1, 4) { spot::<Bls>(r, &mut rng) } else { high::<Bls>(r, &mut rng) },
            4..=7 => spot::<Gl>(r, &mut rng),
            8..=12 => honest::<Gl>(r, &mut rng),
            _ => high::<Gl>(r, &mut rng),
        }
    }
}
fn main() {
    let rule = "a case is a parameter set, an evaluation vector and what the prover or the attacker did; distinct by all of them";
    let mut r = Report::new("S05", rule, (25, 800));
    r.workers(8, run);
    let _ = Query::<FGL, <Gl as Backend>::Node>::default();
    r.finish()
}
