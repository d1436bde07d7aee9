//! F02: packed (AVX2 / AVX-512) Goldilocks arithmetic and hashing against integer arithmetic and the
//! textbook hash, in builds compiled with those target features.
use common::{gl, gl_val, guard, Report, Rng, P};
use fields::field_gl::FrRepr;
use fields::packed::PackedField;
use serde_json::json;
use starky::linearhash::LinearHash;
use starky::merklehash::MerkleTreeGL;
use starky::traits::{MTNodeType, MerkleTree};
use starky_mon::refhash::*;
use starky_mon::*;

#[cfg(target_feature = "avx512f")]
mod flavour {
    pub use fields::arch::x86_64::avx512_field_gl::Avx512GoldilocksField as Pk;
    pub const NAME: &str = "AVX-512";
    pub const ROWS: usize = 2;
    pub fn available() -> bool {
        ["f", "bw", "cd", "dq", "vl"].len() == 5
            && is_x86_feature_detected!("avx512f")
            && is_x86_feature_detected!("avx512bw")
            && is_x86_feature_detected!("avx512cd")
            && is_x86_feature_detected!("avx512dq")
            && is_x86_feature_detected!("avx512vl")
    }
    pub fn reduce(hi: [u64; 8], lo: [u64; 8]) -> Pk {
        use std::arch::x86_64::_mm512_loadu_si512;
        unsafe { Pk::reduce(_mm512_loadu_si512(hi.as_ptr() as *const _), _mm512_loadu_si512(lo.as_ptr() as *const _)) }
    }
    pub use starky::arch::x86_64::avx512_poseidon_gl::Poseidon;
}
#[cfg(all(target_feature = "avx2", not(target_feature = "avx512f")))]
mod flavour {
    pub use fields::arch::x86_64::avx2_field_gl::Avx2GoldilocksField as Pk;
    pub const NAME: &str = "AVX2";
    pub const ROWS: usize = 1;
    pub fn available() -> bool {
        is_x86_feature_detected!("avx2")
    }
    pub fn reduce(hi: [u64; 4], lo: [u64; 4]) -> Pk {
        use std::arch::x86_64::_mm256_loadu_si256;
        unsafe { Pk::reduce(_mm256_loadu_si256(hi.as_ptr() as *const _), _mm256_loadu_si256(lo.as_ptr() as *const _)) }
    }
    pub use starky::arch::x86_64::avx2_poseidon_gl::Poseidon;
}
#[cfg(not(target_feature = "avx2"))]
compile_error!("this monitor is built with -C target-feature=+avx2 or the avx512 features");
use flavour::*;

const W: usize = <Pk as PackedField>::WIDTH;
type Lanes = [u64; W];

fn lanes(rng: &mut Rng) -> Lanes {
    let mut v = [0u64; W];
    match rng.below(5) {
        0 => v = [gl_val(rng); W],
        1 => {
            v[rng.range(0, W - 1)] = gl_val(rng);
        }
        _ => {
            for x in v.iter_mut() {
                *x = gl_val(rng);
            }
        }
    }
    v
}
fn word(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => *rng.pick(&[0, 1, u64::MAX, u64::MAX - 1, P, P - 1, P + 1, 1 << 63, (1 << 63) - 1, 0xffff_ffff, 1 << 32, 0xffff_ffff_0000_0000]),
        1 => (rng.u64() as u32) as u64,
        2 => rng.u64() << 32,
        3 => u64::MAX - rng.below(1 << 33),
        _ => rng.u64(),
    }
}
fn pk(v: &Lanes) -> Pk {
    let r: Vec<FrRepr> = v.iter().map(|x| FrRepr([*x])).collect();
    *Pk::from_slice(&r)
}
fn un(p: &Pk) -> Lanes {
    let v: Vec<u64> = p.as_slice().iter().map(|x| x.0[0]).collect();
    v.try_into().unwrap()
}
fn map2(a: &Lanes, b: &Lanes, f: impl Fn(u64, u64) -> u64) -> Lanes {
    std::array::from_fn(|i| f(a[i], b[i]))
}

fn arith(r: &mut Report, rng: &mut Rng) {
    let (a, b) = (lanes(rng), if rng.chance(1, 10) { [0; W] } else { lanes(rng) });
    // half of the time make lanes that meet the boundaries of addition and subtraction
    let b = if rng.chance(1, 3) {
        std::array::from_fn(|i| match rng.below(5) {
            0 => gl::neg(a[i]),
            1 => a[i],
            2 => gl::add(gl::neg(a[i]), 1),
            3 => gl::sub(gl::neg(a[i]), 1),
            _ => b[i],
        })
    } else {
        b
    };
    let s = if rng.chance(1, 2) { b[0] } else { gl_val(rng) };
    let sc = FrRepr([s]);
    let sv = [s; W];
    let (x, y) = (pk(&a), pk(&b));
    let mut run = |name: &str, got: Pk, want: Lanes| {
        let g = un(&got);
        r.check(name, g == want, || format!("{NAME} {name}: {a:?} and {b:?} (scalar {s}) give {g:?}, lane by lane {want:?}"));
        r.count("packed operations", 1);
    };
    run("add", x + y, map2(&a, &b, gl::add));
    run("sub", x - y, map2(&a, &b, gl::sub));
    run("mul", x * y, map2(&a, &b, gl::mul));
    run("neg", -x, a.map(gl::neg));
    run("square", x.square(), a.map(|v| gl::mul(v, v)));
    run("add-scalar", x + sc, map2(&a, &sv, gl::add));
    run("sub-scalar", x - sc, map2(&a, &sv, gl::sub));
    run("mul-scalar", x * sc, map2(&a, &sv, gl::mul));
    run("scalar-add", sc + x, map2(&sv, &a, gl::add));
    run("scalar-sub", sc - x, map2(&sv, &a, gl::sub));
    run("scalar-mul", sc * x, map2(&sv, &a, gl::mul));
    if s != 0 && rng.chance(1, 16) {
        run("div-scalar", x / sc, map2(&a, &sv, |p, q| gl::mul(p, gl::inv(q))));
        let mut z = x;
        z /= sc;
        run("div-assign", z, map2(&a, &sv, |p, q| gl::mul(p, gl::inv(q))));
    }
    let mut z = x;
    z += y;
    run("add-assign", z, map2(&a, &b, gl::add));
    z = x;
    z -= y;
    run("sub-assign", z, map2(&a, &b, gl::sub));
    z = x;
    z *= y;
    run("mul-assign", z, map2(&a, &b, gl::mul));
    z = x;
    z += sc;
    run("add-assign-scalar", z, map2(&a, &sv, gl::add));
    z = x;
    z -= sc;
    run("sub-assign-scalar", z, map2(&a, &sv, gl::sub));
    z = x;
    z *= sc;
    run("mul-assign-scalar", z, map2(&a, &sv, gl::mul));
    run("from-scalar", Pk::from(sc), sv);
    // 128-bit values reduced
    let (hi, lo): (Lanes, Lanes) = (std::array::from_fn(|_| word(rng)), std::array::from_fn(|_| word(rng)));
    let want = map2(&hi, &lo, |h, l| ((((h as u128) << 64) | l as u128) % P as u128) as u64);
    let g = un(&reduce(hi, lo));
    r.check("reduce", g == want, || format!("{NAME} reduction of high words {hi:?}, low words {lo:?}: {g:?}, not {want:?}"));
    // a chain, to reach values operations produce
    let mut p = x;
    let mut q = a;
    for _ in 0..rng.range(1, 12) {
        match rng.below(5) {
            0 => {
                p = p + y;
                q = map2(&q, &b, gl::add);
            }
            1 => {
                p = p - y;
                q = map2(&q, &b, gl::sub);
            }
            2 => {
                p = p * y;
                q = map2(&q, &b, gl::mul);
            }
            3 => {
                p = -p;
                q = q.map(gl::neg);
            }
            _ => {
                p = p.square();
                q = q.map(|v| gl::mul(v, v));
            }
        }
    }
    let g = un(&p);
    r.check("chain", g == q, || format!("{NAME} chain from {a:?} with {b:?}: {g:?}, lane by lane {q:?}"));
    // interleaving
    let mut bl = 1;
    while bl <= W {
        let (c, d) = x.interleave(y, bl);
        let (mut wc, mut wd) = ([0; W], [0; W]);
        if bl == W {
            (wc, wd) = (a, b);
        } else {
            for blk in (0..W / bl).step_by(2) {
                for i in 0..bl {
                    wc[blk * bl + i] = a[blk * bl + i];
                    wc[(blk + 1) * bl + i] = b[blk * bl + i];
                    wd[blk * bl + i] = a[(blk + 1) * bl + i];
                    wd[(blk + 1) * bl + i] = b[(blk + 1) * bl + i];
                }
            }
        }
        r.check("interleave", (un(&c), un(&d)) == (wc, wd), || {
            format!("{NAME} interleave by {bl} of {a:?} and {b:?}: {:?} {:?}, not {wc:?} {wd:?}", un(&c), un(&d))
        });
        bl *= 2;
    }
    r.case(&("arith", a, b, s), true);
}

fn packing(r: &mut Report, rng: &mut Rng) {
    r.check("constants", un(&Pk::ZEROS) == [0; W] && un(&Pk::ONES) == [1; W] && un(&Pk::default()) == [0; W], || "ZEROS, ONES or default".into());
    let n = rng.range(0, 40);
    let v: Vec<u64> = (0..n).map(|_| gl_val(rng)).collect();
    let mut f: Vec<FrRepr> = v.iter().map(|x| FrRepr([*x])).collect();
    let g = guard(|| Pk::pack_slice(&f).iter().flat_map(|p| un(p)).collect::<Vec<u64>>());
    r.check("pack_slice", if n % W == 0 { g.as_ref() == Ok(&v) } else { g.is_err() }, || format!("{n} elements {v:?} packed as {g:?}"));
    if n % W == 0 && n > 0 {
        let add = gl_val(rng);
        let k = rng.range(0, n / W - 1);
        {
            let m = Pk::pack_slice_mut(&mut f);
            m[k] += FrRepr([add]);
            m[k].as_slice_mut()[0].0[0] = 7;
        }
        let mut w = v.clone();
        for i in k * W..(k + 1) * W {
            w[i] = gl::add(w[i], add);
        }
        w[k * W] = 7;
        let got: Vec<u64> = f.iter().map(|x| x.0[0]).collect();
        r.check("pack_slice_mut", got == w, || format!("writing through packed slice {k} of {v:?}: {got:?}"));
    }
    for bad in [0, 1, W - 1, W + 1, 2 * W] {
        let s = vec![FrRepr([1]); bad];
        r.check("from_slice-length", guard(|| un(Pk::from_slice(&s))).is_err(), || format!("a slice of {bad} accepted"));
    }
    r.case(&("pack", v), true);
}

/// the states of one packed permutation, as the packed Poseidon lays them out
fn packed_perm(ps: &Poseidon, st: &[[u64; 12]; ROWS], out: usize) -> Result<Vec<u64>, String> {
    let (mut i, mut c) = (vec![], vec![]);
    for blk in 0..2 {
        for s in st {
            i.extend_from_slice(&s[blk * 4..blk * 4 + 4]);
        }
    }
    for s in st {
        c.extend_from_slice(&s[8..]);
    }
    match guard(|| ps.hash(&fes(&i), &fes(&c), out).map(|v| v.iter().map(|e| e.as_int()).collect()).map_err(|e| e.to_string())) {
        Ok(x) => x,
        Err(e) => Err(e),
    }
}
fn state(rng: &mut Rng) -> [u64; 12] {
    let mut s = [0u64; 12];
    match rng.below(6) {
        0 => s[rng.range(0, 11)] = gl_val(rng),
        1 => s = [gl_val(rng); 12],
        2 => s = std::array::from_fn(|_| if rng.chance(1, 2) { 0 } else { P - 1 }),
        _ => s = std::array::from_fn(|_| gl_val(rng)),
    }
    if rng.chance(1, 2) {
        // extreme before the S-boxes of an inner round
        let k = rng.range(0, 29);
        gl_unpermute(&mut s, k);
    }
    s
}
fn digests<T: AsDigests>(x: T) -> Vec<[u64; 4]> {
    x.list()
}
trait AsDigests {
    fn list(self) -> Vec<[u64; 4]>;
}
impl AsDigests for starky::ElementDigest<4, fields::field_gl::Fr> {
    fn list(self) -> Vec<[u64; 4]> {
        vec![vals(self.as_elements()).try_into().unwrap()]
    }
}
impl<const N: usize> AsDigests for [starky::ElementDigest<4, fields::field_gl::Fr>; N] {
    fn list(self) -> Vec<[u64; 4]> {
        self.iter().map(|d| vals(d.as_elements()).try_into().unwrap()).collect()
    }
}

fn hashes(r: &mut Report, rng: &mut Rng, ps: &Poseidon, lh: &LinearHash) {
    for _ in 0..20 {
        let st: [[u64; 12]; ROWS] = std::array::from_fn(|_| state(rng));
        let out = 4 * ROWS;
        let want: Vec<u64> = st.iter().flat_map(|s| gl_hash(&s[..8], &s[8..].try_into().unwrap())[..4].to_vec()).collect();
        let got = packed_perm(ps, &st, out);
        r.check("permutation", got.as_ref() == Ok(&want), || format!("{NAME} permutation of {st:?}: {got:?}, textbook {want:?}"));
        r.count("packed permutations", 1);
        r.case(&("perm", st), true);
    }
    let n = if rng.chance(1, 12) { rng.range(60, 1200) } else { rng.range(1, 60) };
    let rows: Vec<Vec<u64>> = (0..ROWS).map(|_| (0..n).map(|_| gl_val(rng)).collect()).collect();
    let flat = rows.concat();
    for batch in [0, rng.range(1, 40), *rng.pick(&[4, 5, 8, 9, 16])] {
        let want: Vec<[u64; 4]> = rows.iter().map(|x| gl_linear(x, batch)).collect();
        let got = guard(|| lh.hash(&fes(&flat), batch).map(digests).map_err(|e| e.to_string()));
        r.check("linear", got == Ok(Ok(want.clone())), || format!("{NAME} {ROWS} rows of {n}, batch {batch}: {got:?}, sponge {want:?}; {rows:?}"));
        let ds: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
        let cl = *rng.pick(&ds);
        let m: Vec<Vec<_>> = rows[0].chunks(cl).map(fes).collect();
        let got = guard(|| lh.hash_element_matrix(&m, batch).map(|d| vals(d.as_elements())).map_err(|e| e.to_string()));
        r.check("matrix", got == Ok(Ok(want[0].to_vec())), || format!("{NAME} {} columns of {cl}, batch {batch}: {got:?}, sponge {:?}", n / cl, want[0]));
        r.observe("row lengths and batches", &(n, batch));
        r.count("linear hashes", 1);
    }
}

fn tree(r: &mut Report, rng: &mut Rng, h: usize, w: usize) {
    r.beat(&format!("tree of {h} rows of {w}"));
    let rows: Vec<Vec<u64>> = (0..h).map(|_| (0..w).map(|_| gl_val(rng)).collect()).collect();
    let want = gl_root(&rows);
    let flat = fes(&rows.concat());
    let cpus = *rng.pick(&[1, 2, 3, 5, 8]);
    let t = guard(|| {
        common::with_cpus(cpus, || {
            let mut t = MerkleTreeGL::new();
            t.merkelize(flat.clone(), w, h).map(|_| t).map_err(|e| e.to_string())
        })
    });
    let t = match t {
        Ok(Ok(t)) => t,
        e => {
            r.violation("commit-fails", format!("{NAME} tree of {h}x{w}: {:?}", e.map(|x| x.map(|_| ()))));
            return;
        }
    };
    let root = t.root();
    r.check("root", vals(root.as_elements()) == want, || format!("{NAME} tree of {h}x{w} on {cpus} CPUs: root {:?}, tree hash {want:?}", vals(root.as_elements())));
    for _ in 0..4 {
        let i = rng.range(0, h - 1);
        let Some((v, mp)) = r.must("open-fails", || format!("{NAME} opening row {i} of {h}x{w}"), || t.get_group_proof(i).unwrap()) else { continue };
        r.check("opened-row", vals(&v) == rows[i], || format!("{NAME} row {i} of {h}x{w}: {:?}", vals(&v)));
        let ok = guard(|| t.verify_group_proof(&root, &mp, i, &v).map_err(|e| e.to_string()));
        r.check("opening", ok == Ok(Ok(true)), || format!("{NAME} opening of row {i} of {h}x{w}: {ok:?}"));
        let mut bad = v.clone();
        let k = rng.range(0, w - 1);
        bad[k] = fe(gl::add(val(&bad[k]), 1 + rng.below(P - 1)));
        let ok = guard(|| t.verify_group_proof(&root, &mp, i, &bad).map_err(|e| e.to_string()));
        r.check("altered-opening", ok != Ok(Ok(true)), || format!("{NAME} altered element {k} of row {i} of {h}x{w} still verifies"));
    }
    r.case(&("tree", h, w, want), true);
    r.observe("tree shapes", &(h, w));
}

fn main() {
    let mut rep = Report::new("F02", "one packed arithmetic case, permutation, linear hash or tree; distinct inputs count", (14, 300));
    rep.note("flavour", json!(NAME));
    rep.assume("lanes are given in canonical form, as the scalar type holds them; the oracle of digests is textbook Poseidon, with which H01 compares the portable build");
    if !available() {
        rep.note("skipped", json!(format!("this CPU does not have {NAME}")));
        rep.case(&"skipped", true);
        rep.sample(json!("skipped"));
        rep.finish();
    }
    rep.workers(8, |r| {
        let mut rng = r.rng.fork();
        let ps = Poseidon::new();
        let lh = LinearHash::new();
        let mut it = 0;
        while r.more_time(1.0) && !r.full() {
            it += 1;
            for _ in 0..300 {
                arith(r, &mut rng);
            }
            packing(r, &mut rng);
            hashes(r, &mut rng, &ps, &lh);
            if it % 8 == 0 {
                let (h, w) = match rng.below(8) {
                    0 => (rng.range(1, 40), rng.range(1, 30)),
                    1 => (*rng.pick(&[255, 256, 257, 511, 513, 1000, 1024, 1025, 2049]), rng.range(1, 12)),
                    2 => (rng.range(1, 600), rng.range(1, 40)),
                    3 => (rng.range(1, 5), rng.range(30, 300)),
                    _ => (rng.range(1, 70), rng.range(1, 12)),
                };
                tree(r, &mut rng, h, w);
            }
            if r.wants_sample() {
                r.sample(json!({"flavour": NAME, "operation": "add", "a": lanes(&mut rng).to_vec()}));
            }
        }
    });
    rep.finish()
}
