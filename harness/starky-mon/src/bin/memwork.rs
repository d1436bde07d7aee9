//! U01: the work that runs under a sanitizer. `memwork <kind> <seed> <seconds> <max cases>`; prints what it did.
//! It judges almost nothing itself: the sanitizer watching it does. Results are only checked for being what was asked.
use common::{gl_val, guard, Rng};
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::polsarray::{PolKind, PolsArray};
use starky::traits::{FieldExtension, MerkleTree};
use starky::types::PIL;
use starky_mon::backend::*;
use starky_mon::pilgen::{self, Shape};
use starky_mon::starks::{prove, setup, verify};
use starky_mon::*;
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
struct Seen {
    counts: BTreeMap<String, u64>,
    shapes: HashSet<String>,
    wrong: Vec<String>,
}
static SEEN: Mutex<Option<Seen>> = Mutex::new(None);
fn seen(f: impl FnOnce(&mut Seen)) {
    f(SEEN.lock().unwrap().get_or_insert_with(Seen::default))
}
fn count(what: &str, shape: String) {
    seen(|s| {
        *s.counts.entry(what.into()).or_default() += 1;
        if s.shapes.len() < 100_000 {
            s.shapes.insert(format!("{what} {shape}"));
        }
    })
}
fn wrong(what: String) {
    seen(|s| s.wrong.push(what))
}

const SMALL: bool = cfg!(miri);

fn elements(rng: &mut Rng) {
    macro_rules! all {
        ($t:ty, $dim:expr, $mk:expr) => {{
            let mut v: Vec<$t> = Vec::with_capacity(8);
            for k in 0..rng.range(1, 8) {
                v.push(if k % 2 == 0 { <$t>::from(fe(gl_val(rng))) } else { $mk(rng) });
            }
            v.shrink_to_fit();
            for x in &v {
                let c: Vec<u64> = vals(&x.as_elements());
                if c.len() != x.dim() || x.as_bytes().len() != 8 * x.dim() {
                    wrong(format!("{x:?} has {} elements and {} bytes", c.len(), x.as_bytes().len()));
                }
                let mut h = DefaultHasher::new();
                x.hash(&mut h);
                std::hint::black_box(h.finish());
                let s: u64 = x.as_bytes().iter().map(|b| *b as u64).sum();
                std::hint::black_box(s);
                let y = v[rng.range(0, v.len() - 1)];
                for z in [*x + y, *x - y, *x * y, -*x] {
                    std::hint::black_box(z.as_elements());
                }
                if vals(&x.as_elements()).iter().any(|c| *c != 0) {
                    std::hint::black_box(x.inv().as_elements());
                }
                std::hint::black_box(format!("{x}"));
            }
            let b = <$t>::elements_as_bytes(&v);
            let s: u64 = b.iter().map(|b| *b as u64).sum();
            std::hint::black_box(s);
            count("elements read as bytes", format!("{} {}", stringify!($t), v.len()));
        }};
    }
    all!(F3G, 3, |r: &mut Rng| F3G::new(fe(gl_val(r)), fe(gl_val(r)), fe(gl_val(r))));
    all!(F5G, 5, |r: &mut Rng| F5G::new(fe(gl_val(r)), fe(gl_val(r)), fe(gl_val(r)), fe(gl_val(r)), fe(gl_val(r))));
}

fn transforms(rng: &mut Rng, max: usize) {
    let bits = rng.range(1, max);
    let w = rng.range(1, if bits > 10 { 3 } else { 9 });
    let n = 1usize << bits;
    let src: Vec<F3G> = (0..n * w).map(|_| F3G::from(fe(gl_val(rng)))).collect();
    let ext = rng.range(0, 2);
    let cpus = rng.range(1, 8);
    let what = rng.below(if SMALL { 2 } else { 3 });
    let work = || match what {
        0 => {
            let mut d = vec![F3G::ZERO; n * w];
            starky::fft_p::fft(&src, w, bits, &mut d);
            let mut e = vec![F3G::ZERO; n * w];
            starky::fft_p::ifft(&d, w, bits, &mut e);
            if e != src {
                wrong(format!("fft and ifft of 2^{bits} rows of {w}"));
            }
        }
        1 => {
            let mut d = vec![F3G::ZERO; (n << ext) * w];
            starky::fft_p::interpolate(&src, w, bits, &mut d, bits + ext);
            std::hint::black_box(d.len());
        }
        _ => {
            let p: Vec<F3G> = src[..n].to_vec();
            let mut f = starky::fft::FFT::<F3G>::new();
            let q = f.fft(&p);
            if f.ifft(&q) != p {
                wrong(format!("FFT of 2^{bits} rows"));
            }
        }
    };
    if SMALL {
        work()
    } else {
        common::with_cpus(cpus, work)
    }
    count(["fft_p fft+ifft", "fft_p interpolate", "FFT fft+ifft"][what as usize], format!("2^{bits} x {w} cpus {cpus} ext {ext}"));
}

fn tree<B: Backend>(rng: &mut Rng) {
    let big = B::ARITY != 16 && !SMALL;
    let (w, h) = match rng.below(6) {
        0 => (rng.range(1, 40), rng.range(1, if SMALL { 3 } else { 40 })),
        1 => (rng.range(1, 3), if SMALL { 7 } else if big { rng.range(1000, 9000) } else { rng.range(15, 70) }),
        2 => (rng.range(1, 9), 1 << rng.range(0, if SMALL { 2 } else if big { 10 } else { 6 })),
        3 => (if SMALL { 13 } else { rng.range(40, 200) }, rng.range(1, 3)),
        _ => (rng.range(1, 12), rng.range(1, if SMALL { 4 } else { 20 })),
    };
    let flat: Vec<_> = (0..w * h).map(|_| fe(gl_val(rng))).collect();
    let work = || {
        guard(|| {
            let mut t = B::M::new();
            t.merkelize(flat.clone(), w, h).unwrap();
            let i = h / 2;
            let (v, mp) = t.get_group_proof(i).unwrap();
            if vals(&v) != vals(&flat[i * w..(i + 1) * w]) || !t.verify_group_proof(&t.root(), &mp, i, &v).unwrap() {
                wrong(format!("{} tree of {h} x {w}", B::NAME));
            }
            let mut p: Vec<F3G> = vec![F3G::ZERO; w * h];
            t.to_extend(&mut p);
            std::hint::black_box(t.get_element(i, w - 1));
        })
    };
    let cpus = rng.range(1, 8);
    let r = if SMALL { work() } else { common::with_cpus(cpus, work) };
    match r {
        Ok(()) => count("trees", format!("{} {w} x {h}", B::NAME)),
        Err(e) if e.contains("NotInField") => count("unrepresentable digests", String::new()),
        Err(e) => wrong(format!("{} tree of {h} x {w}: {e}", B::NAME)),
    }
}

fn trace(rng: &mut Rng) {
    let (rows, width) = if SMALL { (1 << rng.range(0, 4), rng.range(1, 4)) } else { (1 << rng.range(0, 12), rng.range(1, 20)) };
    let mut refs = serde_json::Map::new();
    let mut id = 0;
    while id < width {
        let len = if rng.chance(1, 3) { rng.range(1, width - id) } else { 0 };
        let mut v = serde_json::json!({"type": "cmP", "id": id, "polDeg": rows, "isArray": len > 0});
        if len > 0 {
            v["len"] = serde_json::json!(len);
        }
        refs.insert(format!("Main.p{id}"), v);
        id += len.max(1);
    }
    let pil: PIL = serde_json::from_value(serde_json::json!({"nCommitments": width, "nConstants": 0, "nQ": 0, "nIm": 0, "publics": [], "references": refs, "expressions": [],
        "polIdentities": [], "plookupIdentities": [], "permutationIdentities": [], "connectionIdentities": []}))
    .unwrap();
    let mut a = PolsArray::new(&pil, PolKind::Commit);
    for c in 0..width {
        a.array[c] = (0..rows).map(|_| fe(gl_val(rng))).collect();
    }
    let mut out: Vec<u8> = vec![];
    a.save(&mut out).unwrap();
    if out.len() != rows * width * 8 {
        wrong(format!("{rows} x {width} saved as {} bytes", out.len()));
    }
    let sum: u64 = out.iter().map(|b| *b as u64).sum();
    std::hint::black_box(sum);
    let b: Vec<F3G> = a.write_buff();
    std::hint::black_box(b.len());
    if !SMALL {
        let f = format!("{}/t", common::scratch());
        std::fs::write(&f, &out).unwrap();
        let mut c = PolsArray::new(&pil, PolKind::Commit);
        c.load(&f).unwrap();
        if c.array != a.array {
            wrong(format!("{rows} x {width} loaded back differently"));
        }
    }
    count("traces saved and loaded", format!("{rows} x {width}"));
}

fn proof<B: Backend>(rng: &mut Rng, bits: usize) {
    let only = if bits > 8 { vec!["recurrence", "permutation", "cyclic"] } else { vec![] };
    let mut sh = Shape { nbits: bits, ext: rng.range(1, 2), parts: rng.range(1, 5), hash: B::NAME, only, min_last: 1, queries: rng.range(2, 6) };
    if bits < 2 {
        sh.min_last = 0;
    }
    let p = pilgen::program(rng, &sh);
    let work = || {
        let Ok(s) = setup::<B>(&p) else { return };
        let Ok(x) = prove::<B>(&p, &s, &p.cms) else { return };
        let v = verify::<B>(&p, &s, &x);
        count("proofs made and verified", format!("{} 2^{bits} {:?} {v:?}", B::NAME, p.kinds));
    };
    if SMALL {
        work()
    } else {
        common::with_cpus(rng.range(1, 8), work)
    }
}

/// many threads begin on the same sizes at the same time, first uses of every table included
fn storm(rng: &mut Rng) {
    let threads = if SMALL { 3 } else { rng.range(3, 12) };
    let seed = rng.u64();
    let rounds = if SMALL { 1 } else { 4 };
    let barrier = std::sync::Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let barrier = &barrier;
            s.spawn(move || {
                let mut common_ = Rng::new(seed);
                let mut own = Rng::new(seed ^ (t as u64 + 1) * 77);
                for _ in 0..rounds {
                    let what = common_.below(6);
                    let bits = common_.range(1, if SMALL { 4 } else { 12 });
                    barrier.wait();
                    match what {
                        0 | 1 => transforms(&mut own, bits),
                        2 => tree::<Gl>(&mut own),
                        3 if !SMALL => tree::<Bn>(&mut own),
                        4 if !SMALL => tree::<Bls>(&mut own),
                        5 if !SMALL => proof::<Gl>(&mut own, bits.min(5)),
                        _ => elements(&mut own),
                    }
                }
            });
        }
    });
    count("concurrent rounds", format!("{threads} threads"));
}

#[cfg(all(target_arch = "x86_64", target_feature = "avx2"))]
fn packed(rng: &mut Rng) {
    use fields::field_gl::FrRepr;
    use fields::packed::PackedField;
    macro_rules! pk {
        ($t:ty, $w:expr, $name:expr) => {{
            // lengths the packed type must refuse, or read no further than
            for _ in 0..2 {
                let odd = rng.range(0, 3 * $w);
                let s: Box<[FrRepr]> = (0..odd).map(|_| FrRepr([gl_val(rng)])).collect();
                let read = |p: &$t| p.as_slice().iter().fold(0u64, |a, x| a ^ x.0[0]);
                let _ = std::hint::black_box(guard(|| <$t>::pack_slice(&s).iter().map(read).sum::<u64>()));
                let _ = std::hint::black_box(guard(|| read(<$t>::from_slice(&s))));
                let mut m = s.clone();
                let _ = std::hint::black_box(guard(|| {
                    for p in <$t>::pack_slice_mut(&mut m) {
                        p.as_slice_mut()[$w - 1] = FrRepr([1]);
                    }
                }));
                let _ = std::hint::black_box(guard(|| <$t>::from_slice_mut(&mut m).as_slice_mut()[$w - 1] = FrRepr([1])));
            }
            let n = $w * rng.range(1, 9);
            // exactly as long as needed, so that one lane too many is seen
            let mut v: Vec<FrRepr> = Vec::with_capacity(n);
            for _ in 0..n {
                v.push(FrRepr([gl_val(rng)]));
            }
            let mut v = v.into_boxed_slice();
            let mut sum = 0u64;
            for p in <$t>::pack_slice(&v) {
                for x in p.as_slice() {
                    sum = sum.wrapping_add(x.0[0]);
                }
            }
            let k = rng.range(0, n / $w - 1);
            let a = <$t>::pack_slice(&v)[k];
            for p in <$t>::pack_slice_mut(&mut v) {
                let q = *p;
                *p = (q + a) * q - a;
            }
            let s = <$t>::from_slice(&v[n - $w..]);
            sum = sum.wrapping_add(s.as_slice()[$w - 1].0[0]);
            <$t>::from_slice_mut(&mut v[..$w]).as_slice_mut()[0] = FrRepr([1]);
            let mut bl = 1;
            while bl <= $w {
                let (x, y) = a.interleave(-a, bl);
                sum = sum.wrapping_add(x.as_slice()[0].0[0] ^ y.as_slice()[$w - 1].0[0]);
                bl *= 2;
            }
            std::hint::black_box(sum);
            count("packed slices", format!("{} {n}", $name));
        }};
    }
    #[cfg(not(target_feature = "avx512f"))]
    pk!(fields::arch::x86_64::avx2_field_gl::Avx2GoldilocksField, 4, "avx2");
    #[cfg(target_feature = "avx512f")]
    pk!(fields::arch::x86_64::avx512_field_gl::Avx512GoldilocksField, 8, "avx512");
    if rng.chance(1, if SMALL { 20 } else { 4 }) {
        tree::<Gl>(rng);
    }
}
#[cfg(not(all(target_arch = "x86_64", target_feature = "avx2")))]
fn packed(rng: &mut Rng) {
    elements(rng)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (kind, seed, secs, max) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap(), a[4].parse::<u64>().unwrap());
    let mut rng = Rng::new(seed);
    let t0 = Instant::now();
    if !SMALL {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut n = 0;
    while n < max && t0.elapsed() < Duration::from_secs_f64(secs) {
        n += 1;
        match kind {
            "elements" => elements(&mut rng),
            "transforms" => transforms(&mut rng, if SMALL { 4 } else { 14 }),
            "trees" => match rng.below(4) {
                0 => tree::<Bn>(&mut rng),
                1 => tree::<Bls>(&mut rng),
                _ => tree::<Gl>(&mut rng),
            },
            "trace" => trace(&mut rng),
            "packed" => packed(&mut rng),
            "storm" => storm(&mut rng),
            "proofs" => match rng.below(if SMALL { 1 } else { 10 }) {
                8 => proof::<Bn>(&mut rng, 3),
                9 => proof::<Bls>(&mut rng, 3),
                5 if !SMALL && rng.chance(1, 4) => {
                    let b = rng.range(9, 12);
                    proof::<Gl>(&mut rng, b)
                }
                _ => {
                    let b = rng.range(1, if SMALL { 3 } else { 7 });
                    proof::<Gl>(&mut rng, b)
                }
            },
            k => panic!("no kind {k}"),
        }
    }
    if !SMALL {
        let _ = std::fs::remove_dir_all(common::scratch());
    }
    seen(|s| {
        println!("{}", serde_json::json!({"cases": n, "counts": s.counts, "shapes": s.shapes.iter().collect::<Vec<_>>(), "wrong": s.wrong}));
    });
}
