//! R04: inputs a circuit does not accept give an error, never a witness.
//! R02: witness files round-trip, malformed ones are refused, computed witnesses satisfy their circuit.
use common::{guard, in_child, scratch, Ended, Report};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use r1cs_mon::imp::{all, Imp};
use r1cs_mon::*;
use serde_json::{json, Value};
use std::collections::HashMap;

/// the witness calculators of the two crates
macro_rules! calc {
    ($m:ident, $krate:ident, $eng:ty) => {
        mod $m {
            use num_bigint::BigInt;
            use std::collections::HashMap;
            pub use $krate::witness::{flat_array, load_input_for_witness};
            pub struct Calc(pub $krate::witness::WitnessCalculator);
            impl Calc {
                pub fn new(path: &str) -> Self {
                    Calc($krate::witness::WitnessCalculator::from_file(path).unwrap())
                }
                pub fn big(&mut self, i: HashMap<String, Vec<BigInt>>, sanity: bool) -> Result<Vec<BigInt>, String> {
                    self.0.calculate_witness(i, sanity).map_err(|e| e.to_string())
                }
                pub fn words(&mut self, i: HashMap<String, Vec<BigInt>>, sanity: bool) -> Result<Vec<u32>, String> {
                    self.0.calculate_witness_bin(i, sanity).map_err(|e| e.to_string())
                }
                pub fn save(&mut self, path: &str, w: &Vec<u32>) {
                    self.0.save_witness_to_bin_file::<$eng>(path, w).unwrap()
                }
                pub fn prime(&self) -> BigInt {
                    self.0.memory.prime.clone()
                }
            }
        }
    };
}
calc!(cpu, algebraic, algebraic::bellman_ce::pairing::bn256::Bn256);
calc!(gpu, algebraic_gpu, blstrs::Scalar);

enum Either {
    Cpu(cpu::Calc),
    Gpu(gpu::Calc),
}
macro_rules! both {
    ($s:expr, $c:ident => $b:expr) => {
        match $s {
            Either::Cpu($c) => $b,
            Either::Gpu($c) => $b,
        }
    };
}
impl Either {
    fn new(k: usize, path: &str) -> Self {
        if k == 0 {
            Either::Cpu(cpu::Calc::new(path))
        } else {
            Either::Gpu(gpu::Calc::new(path))
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Either::Cpu(_) => "algebraic",
            Either::Gpu(_) => "algebraic-gpu",
        }
    }
    fn big(&mut self, i: &HashMap<String, Vec<BigInt>>, s: bool) -> Result<Vec<BigInt>, String> {
        both!(self, c => c.big(i.clone(), s))
    }
    fn words(&mut self, i: &HashMap<String, Vec<BigInt>>, s: bool) -> Result<Vec<u32>, String> {
        both!(self, c => c.words(i.clone(), s))
    }
    fn save(&mut self, p: &str, w: &Vec<u32>) {
        both!(self, c => c.save(p, w))
    }
    fn prime(&self) -> BigInt {
        both!(self, c => c.prime())
    }
}

fn words_of(w: &[BigInt], n32: usize) -> Vec<u32> {
    w.iter()
        .flat_map(|x| {
            let mut b = x.to_biguint().unwrap().to_bytes_le();
            b.resize(n32 * 4, 0);
            b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect::<Vec<_>>()
        })
        .collect()
}
/// the file format, written down again
fn wtns_bytes(version: u32, prime: &BigUint, w: &[BigInt], n32: usize) -> Vec<u8> {
    let mut o = b"wtns".to_vec();
    u32le(&mut o, version);
    u32le(&mut o, 2);
    u32le(&mut o, 1);
    u64le(&mut o, (n32 * 4 + 8) as u64);
    u32le(&mut o, (n32 * 4) as u32);
    let mut p = prime.to_bytes_le();
    p.resize(n32 * 4, 0);
    o.extend(p);
    u32le(&mut o, w.len() as u32);
    u32le(&mut o, 2);
    u64le(&mut o, (w.len() * n32 * 4) as u64);
    for v in words_of(w, n32) {
        u32le(&mut o, v);
    }
    o
}

fn bi(x: &BigUint) -> BigInt {
    BigInt::from(x.clone())
}

/// saves through the crate, compares the file with the format, loads with every reader of the field
fn round_trip(rep: &mut Report, imps: &[Box<dyn Imp>], c: &mut Either, dir: &str, words: &Vec<u32>, w: &[BigInt], n32: usize, version: u32) {
    let path = format!("{dir}/w.wtns");
    c.save(&path, words);
    let got = std::fs::read(&path).unwrap();
    let prime = c.prime().to_biguint().unwrap();
    let want = wtns_bytes(version, &prime, w, n32);
    let name = c.name();
    rep.check("file-format", got == want, || format!("{name}: a {}-element witness was written as {} bytes that differ from the format's {}", w.len(), got.len(), want.len()));
    for i in imps.iter().filter(|i| i.prime() == Prime::Bn254 && prime == Prime::Bn254.modulus()) {
        let back = guard(|| i.wtns_file(&path));
        let e: Vec<BigUint> = w.iter().map(|x| x.to_biguint().unwrap()).collect();
        rep.check("round-trip", back.as_ref() == Ok(&e), || brief(&format!("{}: {back:?} read back, {e:?} written", i.name())));
        let back = guard(|| i.wtns(&got));
        rep.check("round-trip", back == Ok(Ok(e.clone())), || brief(&format!("{}: {back:?} read back, {e:?} written", i.name())));
        rep.count("witness files read back", 2);
    }
}

fn brief(s: &str) -> String {
    s.chars().take(2000).collect()
}

fn multiplier(rep: &mut Report, imps: &[Box<dyn Imp>], dir: &str) {
    let cases = [
        ("/repo/algebraic/test-vectors/mycircuit.wasm", Prime::Bn254),
        ("/repo/algebraic-gpu/test-vectors/mycircuit.wasm", Prime::Bn254),
        ("/repo/test/multiplier.wasm", Prime::Bn254),
        ("/repo/groth16/test-vectors/mycircuit_bls12381.wasm", Prime::Bls381),
    ];
    for (path, prime) in cases {
        for k in 0..2 {
            let mut c = Either::new(k, path);
            let mut second = Either::new(k, path);
            let p = prime.modulus();
            rep.check("prime", c.prime() == bi(&p), || format!("{} {path}: prime read as {}", c.name(), c.prime()));
            let n = if common::thorough() { 2000 } else { 150 };
            let mut seen: Vec<(HashMap<String, Vec<BigInt>>, Vec<u32>)> = vec![];
            for round in 0..n {
                if rep.full() {
                    return;
                }
                let (a, b) = (prime.elem(&mut rep.rng), prime.elem(&mut rep.rng));
                rep.case(&(k, path, &a, &b), true);
                let inp = HashMap::from([("a".to_string(), vec![bi(&a)]), ("b".to_string(), vec![bi(&b)])]);
                let e = vec![BigInt::one(), bi(&(&a * &b % &p)), bi(&a), bi(&b)];
                let sanity = rep.rng.chance(1, 2);
                let order = rep.rng.chance(1, 2);
                let (mut x, mut y) = (Ok(vec![]), Ok(vec![]));
                if order {
                    x = c.big(&inp, sanity);
                }
                y = match c.words(&inp, sanity) {
                    Ok(v) => Ok(v),
                    e => {
                        let _ = &y;
                        e
                    }
                };
                if !order {
                    x = c.big(&inp, sanity);
                }
                rep.check("witness", x.as_ref() == Ok(&e), || format!("{} {path}: a={a} b={b}: witness {x:?}, the circuit's is {e:?}", c.name()));
                let ew = words_of(&e, 8);
                rep.check("witness-words", y.as_ref() == Ok(&ew), || format!("{} {path}: a={a} b={b}: witness words {y:?}, the circuit's are {ew:?}", c.name()));
                if round % 3 == 0 {
                    round_trip(rep, imps, &mut c, dir, &ew, &e, 8, 2);
                }
                seen.push((inp, ew));
                // an earlier input again, and on another instance: the same witness
                let (i2, w2) = rep.rng.pick(&seen).clone();
                let z = c.words(&i2, true);
                rep.check("deterministic", z.as_ref() == Ok(&w2), || format!("{} {path}: {i2:?} gave {z:?} after other runs, {w2:?} before", c.name()));
                if round % 10 == 0 {
                    let z = second.words(&i2, true);
                    rep.check("deterministic", z.as_ref() == Ok(&w2), || format!("{} {path}: {i2:?} gave {z:?} on another instance", c.name()));
                }
                if rep.wants_sample() && round % 40 == 5 {
                    rep.sample(json!({"wasm": path, "a": a.to_string(), "b": b.to_string()}));
                }
            }
        }
    }
}

/// circuits that hand their inputs back, at several field widths, fed through the input file reader
fn echo_circuits(rep: &mut Report, imps: &[Box<dyn Imp>], dir: &str) {
    let primes: Vec<(BigUint, usize)> = vec![
        (Prime::Bn254.modulus(), 8),
        (Prime::Gl.modulus(), 2),
        (Prime::Bls381.modulus(), 8),
        // 12 words: the base field of BLS12-381
        (
            BigUint::parse_bytes(
                b"1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab",
                16,
            )
            .unwrap(),
            12,
        ),
    ];
    let mut n = 0;
    let rounds = if common::thorough() { 600 } else { 50 };
    while n < rounds && !rep.full() {
        n += 1;
        let (p, n32) = rep.rng.pick(&primes).clone();
        let ns = rep.rng.range(1, 6);
        let mut sigs: Vec<(String, u32)> = vec![];
        for i in 0..ns {
            let nm: String = match rep.rng.below(4) {
                0 => format!("s{i}"),
                1 => format!("main.sub[{i}].in"),
                2 => format!("ünï{i}"),
                _ => (0..rep.rng.range(1, 30)).map(|_| (b'a' + rep.rng.below(26) as u8) as char).collect::<String>() + &i.to_string(),
            };
            let len = match rep.rng.below(5) {
                0 => 1,
                1 => rep.rng.range(1, 200),
                _ => rep.rng.range(1, 12),
            } as u32;
            sigs.push((nm, len));
        }
        let words: Vec<u32> = words_of(&[bi(&p)], n32);
        let version = *rep.rng.pick(&[1, 2]);
        let wasm = echo::module(&words, &sigs, version);
        let path = format!("{dir}/echo.wasm");
        std::fs::write(&path, &wasm).unwrap();
        // values, and a JSON file in one of the accepted shapes
        let mut exp = vec![BigInt::one()];
        let mut obj = serde_json::Map::new();
        for (nm, len) in &sigs {
            let vals: Vec<BigUint> = (0..*len)
                .map(|_| match rep.rng.below(8) {
                    0 => BigUint::zero(),
                    1 => BigUint::one(),
                    2 => &p - 1u32,
                    3 => BigUint::from(rep.rng.u64()) % &p,
                    4 => {
                        let mut b = rep.rng.bytes(n32 * 4);
                        for ch in b.chunks_mut(4) {
                            match rep.rng.below(3) {
                                0 => ch.fill(0),
                                1 => ch.fill(0xff),
                                _ => {}
                            }
                        }
                        BigUint::from_bytes_le(&b) % &p
                    }
                    _ => BigUint::from_bytes_le(&rep.rng.bytes(n32 * 4 + 4)) % &p,
                })
                .collect();
            exp.extend(vals.iter().map(bi));
            let mut one = |v: &BigUint| -> Value {
                match rep.rng.below(3) {
                    0 => json!(v.to_str_radix(10)),
                    1 if *v <= BigUint::one() => json!(!v.is_zero()),
                    _ => Value::Number(serde_json::Number::from_string_unchecked(v.to_str_radix(10))),
                }
            };
            let leaves: Vec<Value> = vals.iter().map(&mut one).collect();
            let v = if *len == 1 && rep.rng.chance(1, 2) {
                leaves[0].clone()
            } else {
                nest(&mut rep.rng, leaves)
            };
            obj.insert(nm.clone(), v);
        }
        let jpath = format!("{dir}/input.json");
        std::fs::write(&jpath, Value::Object(obj.clone()).to_string()).unwrap();
        for k in 0..2 {
            rep.case(&(k, &wasm, Value::Object(obj.clone()).to_string()), true);
            let what = || format!("echo circuit over {p} with {sigs:?}, inputs {}", Value::Object(obj.clone()));
            let Some(inputs) = rep.must("inputs", what, || {
                if k == 0 {
                    cpu::load_input_for_witness(&jpath)
                } else {
                    gpu::load_input_for_witness(&jpath)
                }
            }) else {
                continue;
            };
            let mut c = Either::new(k, &path);
            rep.check("prime", c.prime() == bi(&p), || format!("{}: prime {} of an echo circuit read as {}", c.name(), p, c.prime()));
            let x = c.big(&inputs, true);
            rep.check("echo", x.as_ref() == Ok(&exp), || format!("{}: {}: witness {x:?}, expected {exp:?}", c.name(), what()));
            let y = c.words(&inputs, false);
            let ew = words_of(&exp, n32);
            rep.check("echo-words", y.as_ref() == Ok(&ew), || format!("{}: {}: words {y:?}", c.name(), what()));
            round_trip(rep, imps, &mut c, dir, &ew, &exp, n32, version as u32);
            rep.count("echo circuits", 1);
            rep.observe("field width", &n32);
        }
    }
}
/// groups leaves into arrays of arrays, keeping their order
fn nest(r: &mut common::Rng, leaves: Vec<Value>) -> Value {
    if leaves.len() < 2 || r.chance(1, 2) {
        return Value::Array(leaves);
    }
    let mut out = vec![];
    let mut rest = leaves;
    while !rest.is_empty() {
        let k = r.range(1, rest.len());
        let tail = rest.split_off(k);
        if rest.len() == 1 && r.chance(1, 2) {
            out.push(rest.pop().unwrap());
        } else {
            out.push(nest(r, rest));
        }
        rest = tail;
    }
    Value::Array(out)
}

/// more elements than sixteen bits count
fn long(rep: &mut Report, imps: &[Box<dyn Imp>], dir: &str) {
    for n in [65_535, 65_536, 70_001] {
        for k in 0..2 {
            let mut c = Either::new(k, "/repo/test/multiplier.wasm");
            let w: Vec<BigInt> = (0..n).map(|_| BigInt::from(rep.rng.u64())).collect();
            rep.case(&(k, n, &w[0]), true);
            let words = words_of(&w, 8);
            round_trip(rep, imps, &mut c, dir, &words, &w, 8, 2);
            rep.count("long witnesses", 1);
        }
    }
}

fn malformed(rep: &mut Report, imps: &[Box<dyn Imp>]) {
    let p = Prime::Bn254.modulus();
    let rounds = if common::thorough() { 30 } else { 4 };
    for round in 0..rounds {
        for i in imps.iter().filter(|i| i.prime() == Prime::Bn254) {
            let n = rep.rng.range(1, 6);
            let w: Vec<BigInt> = (0..n).map(|_| bi(&Prime::Bn254.elem(&mut rep.rng))).collect();
            let f = wtns_bytes(2, &p, &w, 8);
            let mut bad: Vec<(&str, Vec<u8>)> = vec![];
            for c in 0..f.len() {
                bad.push(("truncated", f[..c].to_vec()));
            }
            // an element outside the field, in each position
            for k in 0..n {
                for v in [p.clone(), &p + 1u32, (BigUint::one() << 256usize) - 1u32, BigUint::one() << 255usize, &p << 1usize] {
                    let mut g = f.clone();
                    let mut b = v.to_bytes_le();
                    b.resize(32, 0);
                    let at = f.len() - 32 * (n - k);
                    g[at..at + 32].copy_from_slice(&b);
                    bad.push(("element-range", g));
                }
            }
            let set = |at: usize, b: &[u8]| {
                let mut g = f.clone();
                g[at..at + b.len()].copy_from_slice(b);
                g
            };
            for k in 0..4 {
                bad.push(("magic", set(k, &[f[k] ^ (1 << rep.rng.below(8))])));
            }
            for v in [3u32, 7, u32::MAX] {
                bad.push(("version", set(4, &v.to_le_bytes())));
            }
            for v in [0u32, 1, 3, u32::MAX] {
                bad.push(("sections", set(8, &v.to_le_bytes())));
            }
            for v in [0u32, 2, 3] {
                bad.push(("section-type", set(12, &v.to_le_bytes())));
            }
            for v in [0u64, 39, 41, u64::MAX, 40 + (1 << 32)] {
                bad.push(("section-size", set(16, &v.to_le_bytes())));
            }
            for v in [0u32, 8, 31, 33, 48, u32::MAX] {
                bad.push(("field-size", set(24, &v.to_le_bytes())));
            }
            for k in 0..32 {
                bad.push(("prime", set(28 + k, &[f[28 + k] ^ (1 << rep.rng.below(8))])));
            }
            for v in [0u32, n as u32 - 1, n as u32 + 1, n as u32 + (1 << 27), 1 << 31, u32::MAX] {
                if v != n as u32 {
                    bad.push(("count", set(60, &v.to_le_bytes())));
                }
            }
            for v in [0u32, 1, 3] {
                bad.push(("section-type", set(64, &v.to_le_bytes())));
            }
            for v in [0u64, n as u64 * 32 - 1, n as u64 * 32 + 1, n as u64 * 32 + (1 << 32), u64::MAX] {
                bad.push(("section-size", set(68, &v.to_le_bytes())));
            }
            // count and size agree, but the elements are not there
            for v in [n as u64 + 1, 1 << 20, 1 << 27, (1 << 32) - 1] {
                let mut g = set(60, &(v as u32).to_le_bytes());
                g[68..76].copy_from_slice(&(v * 32).to_le_bytes());
                bad.push(("count", g));
            }
            rep.beat(&format!("{} malformed witness files, round {round}", i.name()));
            let run = |lo: usize, hi: usize| {
                in_child(1500, 60, || {
                    let mut acc = vec![];
                    for (k, (_, g)) in bad[lo..hi].iter().enumerate() {
                        if matches!(guard(|| i.wtns(g)), Ok(Ok(_))) {
                            acc.extend(((lo + k) as u32).to_le_bytes());
                        }
                    }
                    acc
                })
            };
            for (k, g) in &bad {
                rep.case(&(i.name(), k, g), true);
            }
            rep.count("malformed witness files", bad.len() as u64);
            match run(0, bad.len()) {
                Ended::Returned(acc) => {
                    for c in acc.chunks(4) {
                        let k = u32::from_le_bytes(c.try_into().unwrap()) as usize;
                        rep.violation(
                            &format!("accepted-{}", bad[k].0),
                            format!("{}: malformed witness file accepted ({}; {} elements, {} of {} bytes)", i.name(), bad[k].0, n, bad[k].1.len(), f.len()),
                        );
                    }
                }
                _ => {
                    for k in 0..bad.len() {
                        if !matches!(run(k, k + 1), Ended::Returned(_)) {
                            rep.violation(&format!("crash-{}", bad[k].0), format!("{}: reading a malformed witness file ({}) ended the process", i.name(), bad[k].0));
                            break;
                        }
                    }
                }
            }
        }
    }
}

/// the JSON form of a witness
fn json_witness(rep: &mut Report, imps: &[Box<dyn Imp>], dir: &str) {
    for _ in 0..60 {
        for i in imps {
            let n = rep.rng.range(0, 30);
            let w: Vec<BigUint> = (0..n).map(|_| i.prime().elem(&mut rep.rng)).collect();
            let path = format!("{dir}/w.json");
            std::fs::write(&path, json!(w.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>()).to_string()).unwrap();
            rep.case(&(i.name(), &w), n > 0);
            let g = guard(|| i.wtns_file(&path));
            rep.check("json-witness", g.as_ref() == Ok(&w), || format!("{}: {g:?} read from JSON, {w:?} written", i.name()));
            if n > 0 {
                let mut s: Vec<String> = w.iter().map(|x| x.to_str_radix(10)).collect();
                let k = rep.rng.below(n as u64) as usize;
                s[k] = rep.rng.pick(&["x", "12a", "-1", "1.5", " 3"]).to_string();
                std::fs::write(&path, json!(s).to_string()).unwrap();
                let g = guard(|| i.wtns_file(&path));
                rep.check("json-witness-bad", g.is_err(), || format!("{}: {s:?} was read as {g:?}", i.name()));
            }
        }
    }
}

fn r04(mut rep: Report) -> ! {
    let dir = scratch();
    let widths: Vec<(BigUint, usize)> = vec![(Prime::Bn254.modulus(), 8), (Prime::Gl.modulus(), 2), (Prime::Bls381.modulus(), 8)];
    let mut n = 0;
    let most = if common::thorough() { 20000 } else { 1500 };
    while n < most && rep.more_time(0.8) {
        n += 1;
        let (p, n32) = rep.rng.pick(&widths).clone();
        let many = rep.rng.chance(1, 10);
        let sigs: Vec<(String, u32)> = (0..if many { rep.rng.range(6, 60) } else { rep.rng.range(1, 5) })
            .map(|i| {
                let len = match rep.rng.below(8) {
                    0..=3 => 1,
                    4..=6 => rep.rng.range(2, 20) as u32,
                    _ if many => 2,
                    _ => rep.rng.range(21, 400) as u32,
                };
                (format!("in{i}"), len)
            })
            .collect();
        let total: u32 = sigs.iter().map(|s| s.1).sum();
        rep.observe("numbers of input values", &total);
        let code = *rep.rng.pick(&[4i64, 4, 4, 3, 5, 6, 17]);
        let forbid = (0..rep.rng.range(0, 3)).map(|_| (rep.rng.below(total as u64) as u32, 0xdead_0000u32 | rep.rng.below(3) as u32)).collect::<Vec<_>>();
        let rules = echo::Rules { sizes: !rep.rng.chance(1, 4), forbid, trap: rep.rng.chance(1, 4), code, unknown: *rep.rng.pick(&[0, -1]) };
        let path = format!("{dir}/r.wasm");
        std::fs::write(&path, echo::runtime(&words_of(&[bi(&p)], n32), &sigs, &rules)).unwrap();
        for k in 0..2 {
            let mut c = Either::new(k, &path);
            let mut last = "first";
            for step in 0..6 {
                let mut vals: Vec<(String, Vec<BigInt>)> = sigs
                    .iter()
                    .map(|(nm, len)| {
                        let v = (0..*len)
                            .map(|_| {
                                let x = BigUint::from_bytes_le(&rep.rng.bytes(n32 * 4 + 4)) % &p;
                                // never by accident what an assertion refuses
                                bi(&if x.iter_u32_digits().next().unwrap_or(0) >> 16 == 0xdead { BigUint::one() } else { x })
                            })
                            .collect();
                        (nm.clone(), v)
                    })
                    .collect();
                let honest: Vec<BigInt> = vals.iter().flat_map(|x| x.1.clone()).collect();
                let exp: Vec<BigInt> = [BigInt::one()].into_iter().chain(honest.clone()).chain(honest).collect();
                let mut ways: Vec<&str> = vec!["accepted", "accepted", "unknown name besides"];
                if !rules.forbid.is_empty() {
                    ways.extend(["assertion", "assertion", "assertion"]);
                }
                if rules.sizes {
                    ways.extend(["input missing", "value missing", "value too many", "name misspelt"]);
                }
                ways.push("value too wide");
                let way = *rep.rng.pick(&ways);
                let at = rep.rng.below(vals.len() as u64) as usize;
                match way {
                    "unknown name besides" => vals.push(((*rep.rng.pick(&["rootC", "in", "in00", ""])).to_string(), vec![BigInt::one(); rep.rng.range(1, 5)])),
                    "assertion" => {
                        let (i, w) = *rep.rng.pick(&rules.forbid);
                        let mut i = i as usize;
                        for v in vals.iter_mut() {
                            if i < v.1.len() {
                                v.1[i] = BigInt::from(w) + (if n32 > 2 { BigInt::from(rep.rng.below(1 << 30)) << 32usize } else { BigInt::zero() });
                                break;
                            }
                            i -= v.1.len();
                        }
                    }
                    "input missing" => {
                        vals.remove(at);
                    }
                    "value missing" => {
                        vals[at].1.pop();
                    }
                    "value too many" => {
                        let v = vals[at].1[0].clone();
                        vals[at].1.push(v);
                    }
                    "name misspelt" => vals[at].0.push('x'),
                    "value too wide" => {
                        let j = rep.rng.below(vals[at].1.len() as u64) as usize;
                        let by = 32 * n32 + rep.rng.range(0, 40);
                        vals[at].1[j] += BigInt::one() << by;
                    }
                    _ => {}
                }
                let good = matches!(way, "accepted" | "unknown name besides");
                let m: HashMap<String, Vec<BigInt>> = vals.into_iter().collect();
                rep.case(&(k, n, step, way, &p), true);
                rep.count(&format!("runs: {way}"), 1);
                rep.observe("one run after another", &(last, way));
                let sanity = rep.rng.chance(1, 2);
                let asked = rep.rng.chance(1, 2);
                let got = guard(|| if asked { c.big(&m, sanity).map(|w| words_of(&w, n32)) } else { c.words(&m, sanity) });
                let what = || format!("{} (run {step}, after: {last}): {way}; {sigs:?}, {rules:?}, inputs {m:?}", c_name(k));
                match (&got, good) {
                    (Ok(Ok(w)), true) => {
                        rep.check("witness", *w == words_of(&exp, n32), || format!("{}: witness words {w:?}", what()));
                    }
                    (Ok(Ok(w)), false) => rep.violation(&format!("witness-{}", way.replace(' ', "-")), format!("{}: the witness {w:?} was returned", what())),
                    (e, true) => rep.violation("refused", format!("{}: {e:?}", what())),
                    (_, false) => rep.count("refused", 1),
                }
                if got.is_err() {
                    // a panic inside the calculator: it is not used any further
                    c = Either::new(k, &path);
                    last = "first";
                } else {
                    last = way;
                }
                if rep.wants_sample() && !good && n % 20 == 3 {
                    rep.sample(json!({"way": way, "signals": format!("{sigs:?}"), "rules": format!("{rules:?}")}));
                }
            }
        }
    }
    // circuits as circom generated them
    for path in ["/repo/algebraic/test-vectors/mycircuit.wasm", "/repo/algebraic-gpu/test-vectors/mycircuit.wasm", "/repo/test/multiplier.wasm", "/repo/groth16/test-vectors/mycircuit_bls12381.wasm"] {
        for k in 0..2 {
            let mut c = Either::new(k, path);
            for round in 0..20 {
                let (a, b) = (BigInt::from(rep.rng.u64()), BigInt::from(rep.rng.u64()));
                let s = |x: &str| x.to_string();
                let (way, m): (&str, HashMap<String, Vec<BigInt>>) = match round % 6 {
                    0 => ("accepted", HashMap::from([(s("a"), vec![a.clone()]), (s("b"), vec![b.clone()])])),
                    1 => ("input missing", HashMap::from([(s("a"), vec![a.clone()])])),
                    2 => ("name misspelt", HashMap::from([(s("a"), vec![a.clone()]), (s("B"), vec![b.clone()])])),
                    3 => ("unknown name besides", HashMap::from([(s("a"), vec![a.clone()]), (s("b"), vec![b.clone()]), (s("rootC"), vec![b.clone()])])),
                    4 => ("value too many", HashMap::from([(s("a"), vec![a.clone(), b.clone()]), (s("b"), vec![b.clone()])])),
                    _ => ("input missing", HashMap::new()),
                };
                let good = matches!(way, "accepted" | "unknown name besides");
                rep.case(&(path, k, round), true);
                rep.count(&format!("runs: {way}"), 1);
                let got = guard(|| c.big(&m, true));
                let e = vec![BigInt::one(), &a * &b, a.clone(), b.clone()];
                match (&got, good) {
                    (Ok(Ok(w)), true) => {
                        rep.check("witness", *w == e, || format!("{} {path}: {way}: {m:?}: witness {w:?}", c_name(k)));
                    }
                    (Ok(Ok(w)), false) => rep.violation(&format!("witness-{}", way.replace(' ', "-")), format!("{} {path}: {way}: {m:?}: the witness {w:?} was returned", c_name(k))),
                    (e, true) => rep.violation("refused", format!("{} {path}: {m:?}: {e:?}", c_name(k))),
                    _ => rep.count("refused", 1),
                }
            }
        }
    }
    rep.assume("the circuit's generated runtime reports what it does not accept the way circom 2's does (exceptionHandler codes, getInputSize, getInputSignalSize); names that are not inputs of the circuit are ignored, which the recursion steps rely on");
    rep.finish()
}
fn c_name(k: usize) -> &'static str {
    ["algebraic", "algebraic-gpu"][k]
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    if prop == "R04" {
        r04(Report::new(
            "R04",
            "(circuit, rules, inputs, place in a sequence of runs) given to a witness calculator",
            (25, 600),
        ));
    }
    assert_eq!(prop, "R02");
    let mut rep = Report::new(
        "R02",
        "(circuit, inputs) run through a witness calculator and its file round trip, or a malformed witness file given to a reader",
        (60, 900),
    );
    let imps = all();
    let dir = scratch();
    multiplier(&mut rep, &imps, &dir);
    echo_circuits(&mut rep, &imps, &dir);
    json_witness(&mut rep, &imps, &dir);
    long(&mut rep, &imps, &dir);
    malformed(&mut rep, &imps);
    rep.assume("input values are given as integers in 0..p; others are outside the calculator's contract");
    rep.finish()
}
