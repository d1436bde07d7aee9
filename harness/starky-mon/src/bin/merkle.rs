//! M01, M02: Merkle commitments against an independent tree, and tampered openings.
use common::{gl, gl_val, guard, Report, Rng};
use rayon::prelude::*;
use serde_json::json;
use starky::traits::{MTNodeType, MerkleTree};
use starky_mon::backend::*;
use starky_mon::*;

type Rows = Vec<Vec<u64>>;

fn matrix(rng: &mut Rng, w: usize, h: usize) -> Rows {
    match rng.below(6) {
        0 => vec![vec![0; w]; h],
        1 => {
            let row: Vec<u64> = (0..w).map(|_| gl_val(rng)).collect();
            vec![row; h]
        }
        2 => (0..h).map(|i| (0..w).map(|j| (i * w + j) as u64).collect()).collect(),
        _ => (0..h).map(|_| (0..w).map(|_| gl_val(rng)).collect()).collect(),
    }
}
fn shape(rng: &mut Rng, arity: usize) -> (usize, usize) {
    let w = match rng.below(8) {
        0 => rng.range(1, 5),
        1 => *rng.pick(&[7, 8, 9, 11, 12, 13, 16, 17]),
        2 => *rng.pick(&[31, 32, 33, 35, 36, 37, 47, 48, 49, 50, 64, 65]),
        3 => rng.range(50, 140),
        _ => rng.range(1, 24),
    };
    let cap = if w > 32 { 40 } else { 200 };
    let h = match rng.below(6) {
        0 => rng.range(1, 3),
        1 => 1 << rng.range(0, 7),
        2 => (arity.pow(rng.range(1, 2) as u32) as i64 + rng.range(0, 2) as i64 - 1).max(1) as usize,
        3 => rng.range(1, 40),
        _ => rng.range(1, cap),
    };
    (w, h.min(300))
}

fn commit<B: Backend>(rows: &Rows) -> Result<B::M, String> {
    let w = rows[0].len();
    let flat: Vec<_> = rows.iter().flatten().map(|v| fe(*v)).collect();
    match guard(|| {
        let mut t = B::M::new();
        t.merkelize(flat, w, rows.len()).map(|_| t)
    }) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(p),
    }
}

fn m01_case<B: Backend>(r: &mut Report, rng: &mut Rng, w: usize, h: usize) {
    let rows = matrix(rng, w, h);
    let key = |s: &str| format!("{}-{s}", B::NAME);
    let d = format!("{} {w} columns x {h} rows", B::NAME);
    r.beat(&d);
    let t = match commit::<B>(&rows) {
        Ok(t) => t,
        Err(e) if e.contains("NotInField") && B::has_unrepresentable(&rows) => {
            r.count("trees with a digest outside the representable set (finding of D01)", 1);
            return;
        }
        Err(e) => {
            r.violation(&key("commit"), format!("{d}: {e}"));
            return;
        }
    };
    let want = B::ref_root(&rows);
    let root = t.root();
    let hk = if h == 1 { "root-one-row" } else { "root" };
    if !r.check(&key(hk), B::node(&root) == want, || format!("{d}: root {:x}, the tree hash is {want:x}; first row {:?}", B::node(&root), rows[0])) {
        return;
    }
    r.check(&key("size"), t.element_size() == w * h, || d.clone());
    // the same matrix under other worker counts
    if rng.chance(1, 4) {
        let n = rng.range(1, 9);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        if let Ok(t2) = pool.install(|| commit::<B>(&rows)) {
            r.check(&key("workers"), t2.eq_root(&t2.root(), &root) && B::node(&t2.root()) == want, || format!("{d}: root differs with {n} workers"));
            r.observe("worker counts", &n);
        } else {
            r.violation(&key("commit"), format!("{d} with {n} workers"));
        }
    }
    let idxs: Vec<usize> = if h <= 48 { (0..h).collect() } else { (0..24).map(|i| match i { 0 => 0, 1 => h - 1, 2 => h / 2, _ => rng.range(0, h - 1) }).collect() };
    for i in idxs {
        let op = guard(|| t.get_group_proof(i).map_err(|e| e.to_string()));
        let (v, mp) = match op {
            Ok(Ok(x)) => x,
            e => {
                r.violation(&key("open"), format!("{d} row {i}: {:?}", e.map(|x| x.map(|_| ()))));
                continue;
            }
        };
        r.check(&key("opened-row"), vals(&v) == rows[i], || format!("{d}: opening of row {i} returns {:?}, committed {:?}", vals(&v), rows[i]));
        let ok = guard(|| t.verify_group_proof(&root, &mp, i, &v).map_err(|e| e.to_string()));
        r.check(&key("verify"), ok == Ok(Ok(true)), || format!("{d}: honest opening of row {i}: {ok:?}"));
        // a verifier that never built the tree decides the same
        if i % 5 == 0 {
            let ok = guard(|| B::M::new().verify_group_proof(&root, &mp, i, &v).map_err(|e| e.to_string()));
            r.check(&key("verify"), ok == Ok(Ok(true)), || format!("{d}: fresh verifier, row {i}: {ok:?}"));
        }
        // depth of the path
        let mut n = h;
        let mut depth = 0;
        while n > 1 {
            n = (n - 1) / B::ARITY + 1;
            depth += 1;
        }
        r.check(&key("depth"), mp.len() == depth, || format!("{d}: path of {} levels, expected {depth}", mp.len()));
        let e = guard(|| (0..w).all(|j| val(&t.get_element(i, j)) == rows[i][j]));
        r.check(&key("element"), e == Ok(true), || format!("{d}: reading row {i}: {e:?}"));
        r.count("openings verified", 1);
    }
    for bad in [h, h + 1, h + 17] {
        r.check(&key("out-of-range"), common::refused(|| t.get_group_proof(bad)), || format!("{d}: opened row {bad}"));
    }
    r.count(B::NAME, 1);
    r.observe("shapes", &(B::NAME, w, h));
    r.case(&(B::NAME, w, h, want.to_string()), h > 1);
    if r.wants_sample() {
        r.sample(json!({"backend": B::NAME, "width": w, "height": h, "root": want.to_string()}));
    }
}

fn m01(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("the reference tree: textbook Poseidon (Goldilocks constants copied and checked with published vectors; BN254/BLS12-381 parameters regenerated by the Grain LFSR), arity 2 or 16, zero digests for missing children");
    r.workers(4, |r| {
        let mut rng = r.rng.fork();
        while r.more_time(0.5) {
            let (w, h) = shape(&mut rng, 2);
            m01_case::<Gl>(r, &mut rng, w, h);
            let (w, h) = shape(&mut rng, 16);
            if rng.chance(1, 2) {
                m01_case::<Bn>(r, &mut rng, w, h);
            } else {
                m01_case::<Bls>(r, &mut rng, w, h);
            }
        }
    });
    // shapes that make the parallel code split a level or the rows into several chunks
    m01_case::<Gl>(r, &mut rng, 3, (1 << 14) + 5);
    let tall = (1 << 16) + rng.range(1, 70000);
    m01_case::<Gl>(r, &mut rng, 1, tall);
    m01_case::<Gl>(r, &mut rng, 66, 2048 + 700);
    let tall = (1 << 17) + rng.range(1, 16000);
    m01_case::<Bn>(r, &mut rng, 1, tall);
    let tall = (1 << 17) + rng.range(1, 16000);
    m01_case::<Bls>(r, &mut rng, 1, tall);
    m01_case::<Bls>(r, &mut rng, 200, 1900);
    if common::thorough() {
        for i in 0..6 {
            m01_case::<Gl>(r, &mut rng, [1, 9, 33, 130, 3, 12][i], [1 << 15, 12345, 4099, 3000, 70001, 1 << 14][i]);
            m01_case::<Bls>(r, &mut rng, [1, 2, 100, 300, 5, 49][i], [66000, 20000, 3000, 1500, 5000, 4500][i]);
            m01_case::<Bn>(r, &mut rng, [1, 4, 100, 300, 5, 49][i], [140000, 17000, 3000, 1500, 5000, 4500][i]);
        }
    }
    for h in 1..=40 {
        m01_case::<Gl>(r, &mut rng, 1 + h % 12, h);
        m01_case::<Bn>(r, &mut rng, 1 + h % 9, h);
        m01_case::<Bls>(r, &mut rng, 1 + h % 9, h);
    }
}

fn m02_case<B: Backend>(r: &mut Report, rng: &mut Rng, w: usize, h: usize) {
    let mut rows = matrix(rng, w, h);
    // make sure different rows differ somewhere
    for (i, row) in rows.iter_mut().enumerate() {
        row[0] = gl::add(row[0], i as u64);
    }
    let d = format!("{} {w} columns x {h} rows", B::NAME);
    r.beat(&d);
    let Ok(t) = commit::<B>(&rows) else { return };
    let root = t.root();
    for _ in 0..6 {
        // every size of index, also in a tall tree
        let i = if rng.chance(1, 2) { rng.range(0, h - 1) } else { { let k = rng.range(0, 17); rng.range(0, (1 << k).min(h) - 1) } };
        let Ok(Ok((v, mp))) = guard(|| t.get_group_proof(i)) else { continue };
        let honest = matches!(guard(|| t.verify_group_proof(&root, &mp, i, &v)), Ok(Ok(true)));
        if !honest {
            continue; // completeness is M01's business
        }
        let v0 = r.violations();
        let mut attempt = |r: &mut Report, what: &str, detail: String, rt: &<B::M as MerkleTree>::MTNode, mp: &[Vec<<B::M as MerkleTree>::BaseField>], i: usize, v: &[fields::field_gl::Fr]| {
            let res = guard(|| t.verify_group_proof(rt, mp, i, v).map_err(|e| e.to_string()));
            r.count("tampered openings", 1);
            r.count(match &res { Ok(Ok(false)) => "rejected: false", Ok(Err(_)) => "rejected: error", Err(_) => "rejected: panic", _ => "accepted" }, 1);
            r.case(&(B::NAME, what, w, h, i, &detail), true);
            r.check(&format!("{}-{what}", B::NAME), res != Ok(Ok(true)), || format!("{d}: {detail} still verifies"));
        };
        // leaf
        for _ in 0..3 {
            let mut v2 = v.clone();
            let j = rng.range(0, w - 1);
            let delta = match rng.below(3) { 0 => 1, 1 => common::P - 1, _ => 1 + rng.below(common::P - 1) };
            v2[j] = fe(gl::add(val(&v2[j]), delta));
            attempt(r, "leaf", format!("row {i} with element {j} changed by {delta}"), &root, &mp, i, &v2);
        }
        if w > 1 {
            let (a, b) = (rng.range(0, w - 1), rng.range(0, w - 1));
            if val(&v[a]) != val(&v[b]) {
                let mut v2 = v.clone();
                v2.swap(a, b);
                attempt(r, "leaf", format!("row {i} with elements {a},{b} swapped"), &root, &mp, i, &v2);
            }
        }
        if w % 3 == 0 && w > 3 || w > 8 {
            // whole other row under this row's path
            let o = rng.range(0, h - 1);
            if rows[o] != rows[i] {
                attempt(r, "leaf", format!("row {o} presented as row {i}"), &root, &mp, i, &fes(&rows[o]));
            }
        }
        // carries between the limbs of the packed digests
        if B::ARITY == 16 && w >= 2 {
            let mut v2 = v.clone();
            let j = rng.range(0, w - 2);
            v2[j] = fe(gl::add(val(&v2[j]), 1));
            v2[j + 1] = fe(gl::sub(val(&v2[j + 1]), 1));
            attempt(r, "leaf", format!("row {i}: element {j} +1, {} -1", j + 1), &root, &mp, i, &v2);
        }
        // four limbs of a 256-bit integer shifted by the curve's modulus
        if B::ARITY == 16 && w == 4 {
            for p in [bn(), bls()] {
                let x = starky_mon::refhash::to_big(&vals(&v).try_into().unwrap());
                for y in [&x + &p.p, if x >= p.p { &x - &p.p } else { x.clone() }] {
                    if y == x || y.bits() > 256 { continue; }
                    let l = starky_mon::refhash::from_big(&y);
                    if l.iter().all(|q| *q < common::P) {
                        attempt(r, "leaf", format!("row {i} {:?} shifted by the curve modulus", rows[i]), &root, &mp, i, &fes(&l));
                    }
                }
            }
        }
        // index
        if h > 1 {
            let mut at = vec![i + 1, i.wrapping_sub(1), rng.range(0, h - 1)];
            at.extend((0..20).map(|b| i ^ 1 << b));
            for o in at {
                if o < h && rows[o] != rows[i] {
                    attempt(r, "index", format!("row {i} presented at index {o}"), &root, &mp, o, &v);
                }
            }
        }
        // path
        if !mp.is_empty() {
            for _ in 0..4 {
                let l = rng.range(0, mp.len() - 1);
                let k = rng.range(0, mp[l].len() - 1);
                let mut m2 = mp.clone();
                let delta = if rng.chance(1, 2) { 1 } else { 1 + rng.below(common::P - 1) };
                m2[l][k] = B::mutate_base(&m2[l][k], delta);
                attempt(r, "path", format!("row {i}: path level {l} entry {k} changed by {delta}"), &root, &m2, i, &v);
            }
            let mut m2 = mp.clone();
            m2.pop();
            attempt(r, "path-length", format!("row {i}: top level dropped"), &root, &m2, i, &v);
            let mut m2 = mp.clone();
            m2.remove(0);
            attempt(r, "path-length", format!("row {i}: bottom level dropped"), &root, &m2, i, &v);
            let mut m2 = mp.clone();
            m2.push(mp[rng.range(0, mp.len() - 1)].clone());
            attempt(r, "path-length", format!("row {i}: a level added"), &root, &m2, i, &v);
            attempt(r, "path-length", format!("row {i}: empty path"), &root, &[], i, &v);
            if mp.len() > 1 && B::level(&mp[0]) != B::level(&mp[1]) {
                let mut m2 = mp.clone();
                m2.swap(0, 1);
                attempt(r, "path", format!("row {i}: levels 0,1 swapped"), &root, &m2, i, &v);
            }
            // the path of another row
            let o = rng.range(0, h - 1);
            if let Ok((_, mo)) = t.get_group_proof(o) {
                if mo.iter().map(|l| B::level(l)).collect::<Vec<_>>() != mp.iter().map(|l| B::level(l)).collect::<Vec<_>>() {
                    attempt(r, "path", format!("row {i} with the path of row {o}"), &root, &mo, i, &v);
                }
            }
        }
        // root
        let rv = starky_mon::refhash::from_big(&B::node(&root));
        for k in 0..4 {
            let mut x = rv;
            x[k] ^= 1 << rng.below(if k == 3 { 60 } else { 64 });
            let xb = starky_mon::refhash::to_big(&x);
            let too_big = (B::NAME == "BN128" && xb >= bn().p) || (B::NAME == "BLS12381" && xb >= bls().p);
            if too_big { continue; }
            if let Some(n) = B::make(&xb) {
                attempt(r, "root", format!("row {i}: root limb {k} changed"), &n, &mp, i, &v);
            }
        }
        // ... and one limb of the digest as it is held, by a little
        let held: Vec<u64> = root.as_elements().iter().map(val).collect();
        for k in 0..held.len() {
            let mut x = held.clone();
            x[k] = if x[k] > 1 && rng.chance(1, 2) { x[k] - 1 - rng.below(2) } else if x[k] + 2 < common::P { x[k] + 1 + rng.below(2) } else { continue };
            attempt(r, "root", format!("row {i}: root's limb {k} held as {} instead of {}", x[k], held[k]), &MTNodeType::new(&fes(&x)), &mp, i, &v);
        }
        r.count("honest openings", 1);
        if r.wants_sample() {
            r.sample(json!({"backend": B::NAME, "width": w, "height": h, "row": i, "accepted tampering": r.violations() - v0}));
        }
    }
    r.observe("shapes", &(B::NAME, w, h));
}

fn m02(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("a panic of the verifier counts as a rejection; entries beyond the committed width and siblings beyond a level's arity are not part of an opening");
    r.workers(4, |r| {
        let mut rng = r.rng.fork();
        while r.more_time(0.5) {
            let (w, h) = shape(&mut rng, 2);
            m02_case::<Gl>(r, &mut rng, w, h.max(2));
            let (w, h) = shape(&mut rng, 16);
            if rng.chance(1, 2) {
                m02_case::<Bn>(r, &mut rng, w, h.max(2));
            } else {
                m02_case::<Bls>(r, &mut rng, w, h.max(2));
            }
        }
    });
    for w in 1..=20 {
        for h in [2, 3, 5, 16, 17, 40] {
            m02_case::<Gl>(r, &mut rng, w, h);
            m02_case::<Bn>(r, &mut rng, w, h);
            m02_case::<Bls>(r, &mut rng, w, h);
            if !r.more_time(0.8) { break; }
        }
    }
    // deep paths
    let tall = [(); 3].map(|_| (1 << 16) + rng.range(1, 16000));
    m02_case::<Gl>(r, &mut rng, 1, tall[0]);
    m02_case::<Bn>(r, &mut rng, 1, tall[1]);
    m02_case::<Bls>(r, &mut rng, 1, tall[2]);
    let _ = (0..1).into_par_iter().count();
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("M01") => {
            let mut r = Report::new("M01", "matrices over all heights 1..40, shapes around the block sizes of the hashes, shapes that split into parallel chunks, and random shapes, per backend; non-trivial: more than one row; distinct by backend, shape and root", (25, 900));
            m01(&mut r);
            r.finish()
        }
        Some("M02") => {
            let mut r = Report::new("M02", "honest openings altered in one leaf element, index, path node, path length or root, per backend; every altered opening is non-trivial; distinct by backend, shape, row and alteration", (25, 900));
            m02(&mut r);
            r.finish()
        }
        _ => panic!("usage: merkle M01|M02"),
    }
}
