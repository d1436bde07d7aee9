//! F04: polynomial transforms against the DFT by its definition.
use common::{gl, gl_val, guard, with_cpus, Report, Rng, P};
use rayon::prelude::*;
use serde_json::json;
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::fft::FFT;
use starky::fft_p;
use starky::traits::FieldExtension;
use starky::polutils::{eval_pol, extend_pol, pol_mul_axi};
use starky_mon::ext::*;
use starky_mon::*;

const SHIFT: u64 = 49;

/// n values, each a coefficient vector; full extension elements, embedded base elements, or a mix
fn data(rng: &mut Rng, n: usize, k: usize) -> Vec<Vec<u64>> {
    let style = rng.below(8);
    let base = rng.below(3);
    let hot = rng.range(0, n - 1);
    let c = gl_val(rng);
    (0..n)
        .map(|i| {
            let mut v: Vec<u64> = (0..k).map(|_| gl_val(rng)).collect();
            match style {
                0 => v = vec![0; k],
                1 => v = vec![c; k],
                2 => v = vec![if i == hot { 1 } else { 0 }; k],
                3 => v = vec![P - 1; k],
                _ => {}
            }
            if base == 0 || (base == 1 && i % 3 == 0) {
                v[1..].fill(0);
            }
            v
        })
        .collect()
}
fn elems<F: Coeffs>(d: &[Vec<u64>]) -> Vec<F> {
    d.iter().map(|c| F::make(c)).collect()
}
/// applies `f` to every (column, coefficient) vector of a row-major matrix of extension elements
fn map_cols(d: &[Vec<u64>], cols: usize, out: usize, f: impl Fn(&[u64]) -> Vec<u64> + Sync) -> Vec<Vec<u64>> {
    let n = d.len() / cols;
    let k = d[0].len();
    let parts: Vec<Vec<u64>> = (0..cols * k)
        .into_par_iter()
        .map(|ck| {
            let (c, j) = (ck / k, ck % k);
            let v: Vec<u64> = (0..n).map(|i| d[i * cols + c][j]).collect();
            if v.iter().all(|x| *x == 0) {
                return vec![0; out];
            }
            f(&v)
        })
        .collect();
    (0..out * cols).map(|ic| (0..k).map(|j| parts[(ic % cols) * k + j][ic / cols]).collect()).collect()
}
fn same<F: Coeffs>(got: &[F], want: &[Vec<u64>]) -> Option<usize> {
    if got.len() != want.len() {
        return Some(usize::MAX);
    }
    got.iter().zip(want).position(|(g, w)| g.coeffs() != *w)
}

fn seq<F: Coeffs>(r: &mut Report, rng: &mut Rng, bits: usize) {
    let n = 1 << bits;
    let d = data(rng, n, F::N);
    r.beat(&format!("sequential {} 2^{bits}", F::NAME));
    let x: Vec<F> = elems(&d);
    let w = gl::root(bits);
    let fwd = map_cols(&d, 1, n, |v| if bits <= 6 { dft_naive(v, w) } else { dft(v, w) });
    let mut t = FFT::<F>::new();
    match guard(|| t.fft(&x)) {
        Ok(y) => {
            let e = same(&y, &fwd);
            r.check("seq-fft", e.is_none(), || format!("{} size {n}: output {e:?} is not the evaluation at w^i; input {:?}", F::NAME, &d[..n.min(4)]));
            let b = guard(|| t.ifft(&y));
            r.check("seq-ifft", matches!(&b, Ok(b) if same(b, &d).is_none()), || format!("{} size {n}: ifft(fft(x)) differs from x", F::NAME));
        }
        Err(e) => r.violation("seq-fft", format!("{} size {n}: {e}", F::NAME)),
    }
    let inv = map_cols(&d, 1, n, |v| idft(v, w));
    let y = guard(|| FFT::<F>::new().ifft(&x));
    r.check("seq-ifft", matches!(&y, Ok(b) if same(b, &inv).is_none()), || format!("{} size {n}: inverse transform", F::NAME));
    if bits <= 10 {
        let e = rng.range(1, if bits <= 7 { 7 } else { 3 });
        let want = map_cols(&d, 1, n << e, |v| lde(v, bits, bits + e, SHIFT));
        let y = guard(|| extend_pol(&x, e));
        r.check("extend_pol", matches!(&y, Ok(b) if same(b, &want).is_none()), || format!("{} size {n} extended {e} bits", F::NAME));
    }
    r.count("sequential transforms", 3);
    r.case(&("seq", F::NAME, bits, common::hash64(&d)), true);
}

fn par<F: Coeffs>(r: &mut Report, rng: &mut Rng, bits: usize, cols: usize, ext: usize, cpus: usize, threads: usize) {
    let n = 1 << bits;
    let d = data(rng, n * cols, F::N);
    let what = format!("{} 2^{bits} x {cols} columns, {cpus} cpus, {threads} threads", F::NAME);
    r.beat(&what);
    let x: Vec<F> = elems(&d);
    let w = gl::root(bits);
    let fwd = map_cols(&d, cols, n, |v| if bits <= 5 { dft_naive(v, w) } else { dft(v, w) });
    let inv = map_cols(&d, cols, n, |v| idft(v, w));
    let big = map_cols(&d, cols, n << ext, |v| lde(v, bits, bits + ext, SHIFT));
    let res = with_cpus(cpus, || {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        pool.install(|| {
            let mut a = vec![F::ZERO; n * cols];
            let ra = guard(|| fft_p::fft(&x, cols, bits, &mut a));
            let mut b = vec![F::ZERO; n * cols];
            let rb = guard(|| fft_p::ifft(&x, cols, bits, &mut b));
            let mut c = vec![F::ZERO; (n << ext) * cols];
            let rc = guard(|| fft_p::interpolate(&x, cols, bits, &mut c, bits + ext));
            [("par-fft", ra, a), ("par-ifft", rb, b), ("par-interpolate", rc, c)]
        })
    });
    for ((k, ok, v), want) in res.into_iter().zip([&fwd, &inv, &big]) {
        let e = same(&v, want);
        r.check(k, ok.is_ok() && e.is_none(), || format!("{what} (extended by {ext} bits): {ok:?}, first difference at {e:?}"));
    }
    r.count("parallel transforms", 3);
    r.observe("shapes", &(bits, cols, ext));
    r.observe("cpu and thread counts", &(cpus, threads));
    r.case(&("par", F::NAME, bits, cols, ext, cpus, common::hash64(&d)), true);
    if r.wants_sample() {
        r.sample(json!({"field": F::NAME, "log2 rows": bits, "columns": cols, "extension bits": ext, "cpus": cpus, "threads": threads, "first output": fwd[0].iter().map(|x| x.to_string()).collect::<Vec<_>>()}));
    }
}

/// A size at which the layers are transposed three times: a few coefficients, the evaluations
/// probed at random points, and the way back probed everywhere.
fn huge(r: &mut Report, rng: &mut Rng, bits: usize) {
    let n = 1usize << bits;
    r.beat(&format!("2^{bits}"));
    let terms: Vec<(usize, u64)> = (0..5).map(|i| (if i == 0 { n - 1 } else { rng.below(n as u64) as usize }, gl_val(rng))).collect();
    let w = gl::root(bits);
    let mut x = vec![F3G::ZERO; n];
    let mut sum = std::collections::BTreeMap::new();
    for (i, c) in &terms {
        let e = sum.entry(*i).or_insert(0);
        *e = gl::add(*e, *c);
    }
    for (i, c) in &sum {
        x[*i] = F3G::from(fe(*c));
    }
    let mut y = vec![F3G::ZERO; n];
    let ok = guard(|| fft_p::fft(&x, 1, bits, &mut y));
    let probes: Vec<usize> = (0..2000).map(|_| rng.below(n as u64) as usize).chain([0, 1, n / 2, n - 1]).collect();
    let bad = probes.iter().find(|j| {
        let want = sum.iter().fold(0, |s, (i, c)| gl::add(s, gl::mul(*c, gl::pow(w, (*i as u64 * **j as u64) % n as u64))));
        y[**j].coeffs() != [want, 0, 0]
    });
    r.check("par-fft", ok.is_ok() && bad.is_none(), || format!("2^{bits} of {terms:?}: {ok:?}, wrong at {bad:?}"));
    let mut z = vec![F3G::ZERO; n];
    let ok = guard(|| fft_p::ifft(&y, 1, bits, &mut z));
    let bad = (0..n).find(|i| z[*i] != x[*i]);
    r.check("par-ifft", ok.is_ok() && bad.is_none(), || format!("2^{bits} of {terms:?}: {ok:?}, wrong at {bad:?}"));
    r.count("parallel transforms", 2);
    r.observe("shapes", &(bits, 1, 0));
    r.case(&("huge", bits, &terms), true);
}

fn helpers<F: Coeffs>(r: &mut Report, rng: &mut Rng) {
    let n = rng.range(1, 20);
    let d = data(rng, n, 3);
    let d: Vec<Vec<u64>> = d.iter().map(|c| { let mut c = c.clone(); c.resize(F::N, 0); c }).collect();
    let p: Vec<F> = elems(&d);
    // evaluation at a base point, coefficient by coefficient
    let b = gl_val(rng);
    let got = guard(|| eval_pol(&p, &F::from(fe(b))).coeffs());
    let want: Vec<u64> = (0..F::N).map(|j| d.iter().rev().fold(0, |s, c| gl::add(gl::mul(s, b), c[j]))).collect();
    r.check("eval_pol", got.as_ref() == Ok(&want), || format!("{} {d:?} at {b}: {got:?}, expected {want:?}", F::NAME));
    r.check("eval_pol-empty", eval_pol::<F>(&[], &F::from(fe(b))).coeffs().iter().all(|x| *x == 0), || "empty polynomial".into());
    let (i, a) = (gl_val(rng), gl_val(rng));
    let mut q = p.clone();
    let ok = guard(|| pol_mul_axi(&mut q, F::from(fe(i)), &F::from(fe(a))));
    let good = ok.is_ok() && q.iter().zip(&d).enumerate().all(|(k, (x, c))| {
        let m = gl::mul(i, gl::pow(a, k as u64));
        x.coeffs() == c.iter().map(|v| gl::mul(*v, m)).collect::<Vec<_>>()
    });
    r.check("pol_mul_axi", good, || format!("{} {d:?} by {i}*{a}^k", F::NAME));
    r.case(&("helpers", F::NAME, &d, b, i, a), n > 1);
    r.count("helper calls", 3);
}
fn eval_ext(r: &mut Report, rng: &mut Rng) {
    // at an extension point
    let n = rng.range(1, 12);
    let d = data(rng, n, 3);
    let x = [gl_val(rng), gl_val(rng), gl_val(rng)];
    let p: Vec<F3G> = elems(&d);
    let want = d.iter().rev().fold([0u64; 3], |s, c| cubic::add(&cubic::mul(&s, &x), &[c[0], c[1], c[2]]));
    let got = guard(|| eval_pol(&p, &F3G::make(&x)).coeffs());
    r.check("eval_pol", got == Ok(want.to_vec()), || format!("{d:?} at {x:?}: {got:?}, expected {want:?}"));
}

fn permutations(r: &mut Report, rng: &mut Rng) {
    // bit reversal, the transposition and the inverse orders
    for bits in 1..=11 {
        let n = 1usize << bits;
        let ok = guard(|| (0..n).all(|x| fft_p::BR(x, bits) == x.reverse_bits() >> (64 - bits)));
        r.check("BR", ok == Ok(true), || format!("bit reversal of {bits} bits: {ok:?}"));
    }
    for _ in 0..6 {
        let (bits, cols) = (rng.range(1, 9), rng.range(1, 5));
        let n = 1usize << bits;
        let src: Vec<F3G> = (0..n * cols).map(|i| F3G::from(i as u64 + 1)).collect();
        let at = |v: &[F3G], i: usize, c: usize| v[i * cols + c].coeffs()[0];
        let rev = |x: usize| x.reverse_bits() >> (64 - bits);
        let mut o = vec![F3G::ZERO; n * cols];
        let ok = guard(|| fft_p::bit_reverse(&mut o, &src, cols, bits));
        r.check("bit_reverse", ok.is_ok() && (0..n).all(|i| (0..cols).all(|c| at(&o, i, c) == at(&src, rev(i), c))), || format!("{bits} bits {cols} columns"));
        let mut o = vec![F3G::ZERO; n * cols];
        let ok = guard(|| fft_p::interpolate_bit_reverse(&mut o, &src, cols, bits));
        r.check("interpolate_bit_reverse", ok.is_ok() && (0..n).all(|i| (0..cols).all(|c| at(&o, i, c) == at(&src, (n - rev(i)) % n, c))), || format!("{bits} bits {cols} columns"));
        let tb = rng.range(0, bits);
        let (w, h) = (1usize << tb, n >> tb);
        let mut o = vec![F3G::ZERO; n * cols];
        let ok = guard(|| fft_p::transpose(&mut o, &src, cols, bits, tb));
        r.check("transpose", ok.is_ok() && (0..w).all(|i| (0..h).all(|j| (0..cols).all(|c| at(&o, i * h + j, c) == at(&src, j * w + i, c)))), || format!("{bits} bits, transposed at {tb}"));
        r.count("reorderings", 3);
    }
}

fn constants(r: &mut Report, rng: &mut Rng) {
    use starky::constant::{MG, SHIFT as S, SHIFT_INV};
    r.check("shift", val(&S) == SHIFT && gl::mul(val(&SHIFT_INV), SHIFT) == 1, || format!("{} {}", val(&S), val(&SHIFT_INV)));
    for i in 0..=32 {
        let (w, wi) = (val(&MG.0[i]), val(&MG.1[i]));
        r.check("roots", gl::mul(w, wi) == 1 && w == gl::root(i) && gl::pow(w, 1 << i) == 1 && (i == 0 || gl::pow(w, 1 << (i - 1)) == P - 1), || format!("root of order 2^{i}: {w}, inverse {wi}"));
    }
    let n = rng.range(1, 40);
    let ks = guard(|| vals(&starky::helper::get_ks(n)));
    r.check("coset-ids", matches!(&ks, Ok(k) if k.len() == n && (0..n).all(|i| k[i] == gl::pow(12275445934081160404, i as u64 + 1))), || format!("{ks:?}"));
    for _ in 0..300 {
        let v = match rng.below(3) { 0 => 1usize << rng.range(0, 31), 1 => (1usize << rng.range(1, 32)) - 1, _ => 1 + (rng.u64() as u32 as usize >> rng.range(0, 31)) };
        if v == 0 || v > u32::MAX as usize { continue; }
        let g = starky::helper::log2_any(v);
        r.check("log2", g == v.ilog2() as usize, || format!("log2_any({v}) = {g}"));
    }
    for bad in [3, 5, 6, 7, 9, 12, 1000] {
        r.check("size", guard(|| FFT::<F3G>::new().fft(&vec![F3G::ONE; bad])).is_err(), || format!("a transform of {bad} elements is computed"));
    }
}

fn main() {
    let mut r = Report::new(
        "F04",
        "sequential and parallel transforms of every size 2^1..2^13 and larger ones that split into blocks, 1..many columns, several blow-ups, CPU and thread counts, plus helper calls; non-trivial: more than one coefficient; distinct by shape and data",
        (30, 900),
    );
    let mut rng = r.rng.fork();
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    r.assume("reference: even/odd recursion on integers, itself compared with the defining sums; destination buffers are fresh (all zero), as every caller in the repository passes them");
    for b in [1, 2, 3, 4, 5, 6, 7] {
        let v: Vec<u64> = (0..1 << b).map(|_| gl_val(&mut rng)).collect();
        assert_eq!(dft(&v, gl::root(b)), dft_naive(&v, gl::root(b)), "reference transform");
    }
    constants(&mut r, &mut rng);
    permutations(&mut r, &mut rng);
    for b in 1..=12 {
        seq::<F3G>(&mut r, &mut rng, b);
        seq::<F5G>(&mut r, &mut rng, b.min(9));
    }
    // sizes that are cut into blocks and transposed between layers
    par::<F3G>(&mut r, &mut rng, 13, 1, 1, cpus, cpus);
    par::<F3G>(&mut r, &mut rng, 14, 2, 2, cpus, 3);
    par::<F3G>(&mut r, &mut rng, 12, 3, 1, 2, 2);
    par::<F3G>(&mut r, &mut rng, 16, 1, 1, 1, 1);
    par::<F3G>(&mut r, &mut rng, 15, 5, 1, cpus, cpus);
    par::<F3G>(&mut r, &mut rng, 17, 1, 1, cpus, 4);
    par::<F3G>(&mut r, &mut rng, 18, 1, 1, cpus, cpus);
    seq::<F3G>(&mut r, &mut rng, 17);
    huge(&mut r, &mut rng, 20);
    if common::thorough() {
        huge(&mut r, &mut rng, 25);
        huge(&mut r, &mut rng, 26);
    }
    let mut k = 0;
    while r.more_time(1.0) {
        k += 1;
        let b = match k % 40 { 7 => rng.range(13, if common::thorough() { 19 } else { 15 }), 1..=14 => 1 + k % 12, _ => rng.range(1, 9) };
        let cols = if b > 10 { rng.range(1, 3) } else if rng.chance(1, 12) { rng.range(20, 90) } else { rng.range(1, 12) };
        let ext = if b > 9 { rng.range(0, 2) } else { rng.range(0, 4) };
        let c = *rng.pick(&[1, 2, 3, cpus, cpus]);
        let t = rng.range(1, 9);
        if rng.chance(1, 4) {
            par::<F5G>(&mut r, &mut rng, b.min(10), cols.min(5), ext.min(2), c, t);
        } else {
            par::<F3G>(&mut r, &mut rng, b, cols, ext, c, t);
        }
        if k % 4 == 0 {
            let b = rng.range(1, 10);
            seq::<F3G>(&mut r, &mut rng, b);
        }
        for _ in 0..20 {
            helpers::<F3G>(&mut r, &mut rng);
            helpers::<F5G>(&mut r, &mut rng);
            eval_ext(&mut r, &mut rng);
        }
        if k % 10 == 0 {
            permutations(&mut r, &mut rng);
            constants(&mut r, &mut rng);
        }
    }
    r.finish()
}
