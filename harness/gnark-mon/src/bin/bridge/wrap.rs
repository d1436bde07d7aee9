//! K02: wrapping a BN254 proof, through the Rust binding and the Go code, over a stand-in for gnark.
//!
//! The stand-in (harness/standin) hands out the outer key and proof of a scenario and logs what it was asked to
//! compile, prove and verify; its inner proofs hold when their first number is the hash of everything else. Each
//! call runs in a process of its own.
use super::*;
use common::scratch;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const FILES: [&str; 3] = ["proof_bls12381.json", "groth16_vk_bls12381.json", "public_inputs_bls12381.json"];

fn bn_fp() -> BigUint {
    "21888242871839275222246405745257275088696311157297823662689037894645226208583".parse().unwrap()
}
fn bn_fr() -> BigUint {
    "21888242871839275222246405745257275088548364400416034343698204186575808495617".parse().unwrap()
}
fn below(r: &mut Rng, m: &BigUint) -> BigUint {
    match r.below(8) {
        0 => BigUint::from(r.below(3)),
        1 => m - BigUint::from(1 + r.below(3)),
        2 => BigUint::from(r.u64()),
        3 => BigUint::from(1u8) << r.range(0, 253),
        _ => BigUint::from_bytes_le(&r.bytes(40)) % m,
    }
}
fn be(x: &BigUint) -> [u8; 32] {
    let mut b = [0; 32];
    let v = x.to_bytes_be();
    b[32 - v.len()..].copy_from_slice(&v);
    b
}
fn fnv(parts: &[&[BigUint]]) -> u64 {
    parts.iter().flat_map(|p| p.iter()).flat_map(be).fold(0xcbf29ce484222325, |h: u64, x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}
fn some_g1(r: &mut Rng, infinity: bool) -> G1Affine {
    if infinity && r.chance(1, 3) { G1Affine::zero() } else { (G1Projective::generator() * fr_nz(r)).into_affine() }
}

#[derive(Clone)]
struct Inner {
    vk: Vec<BigUint>, // 14 coordinates, then those of the points of K
    proof: Vec<BigUint>,
    pubs: Vec<BigUint>,
}
impl Inner {
    fn new(r: &mut Rng) -> Self {
        let n = if r.chance(1, 30) { r.range(20, 70) } else { r.range(0, 6) };
        let p = bn_fp();
        let mut i = Inner {
            vk: (0..14 + 2 * (n + 1)).map(|_| below(r, &p)).collect(),
            proof: (0..8).map(|_| below(r, &p)).collect(),
            pubs: (0..n).map(|_| below(r, &bn_fr())).collect(),
        };
        i.proof[0] = i.sum().into();
        i
    }
    fn sum(&self) -> u64 {
        fnv(&[&self.vk, &self.proof[1..], &self.pubs])
    }
    fn holds(&self) -> bool {
        self.vk.len() == 16 + 2 * self.pubs.len() && self.proof[0] == self.sum().into()
    }
    fn vk_file(&self) -> Vec<u8> {
        let mut b: Vec<u8> = self.vk[..14].iter().flat_map(be).collect();
        b.extend(((self.vk.len() as u32 - 14) / 2).to_be_bytes());
        b.extend(self.vk[14..].iter().flat_map(be));
        b
    }
    fn proof_hex(&self, upper: bool) -> String {
        let s: String = self.proof.iter().flat_map(be).map(|b| format!("{b:02x}")).collect();
        if upper { s.to_uppercase() } else { s }
    }
}
fn numeral(r: &mut Rng, x: &BigUint) -> String {
    match r.below(4) {
        0 => format!("0x{}", x.to_str_radix(16)),
        1 => format!("0x{}", x.to_str_radix(16).to_uppercase()),
        2 if r.chance(1, 4) => format!("0x00{}", x.to_str_radix(16)),
        _ => x.to_str_radix(10),
    }
}
/// the public inputs of the outer statement: four 64-bit limbs of each inner input
fn limbs(pubs: &[BigUint]) -> Vec<Fr> {
    pubs.iter().flat_map(|x| { let b = be(x); (0..4).map(move |k| Fr::from(u64::from_be_bytes(b[24 - 8 * k..32 - 8 * k].try_into().unwrap()))) }).collect()
}
/// the coordinates gnark holds for a point: infinity is (0, 0)
fn c1(p: &G1Affine) -> Value {
    p.xy().map_or(json!(["0", "0"]), |(x, y)| json!([dec(&x), dec(&y)]))
}
fn c2(p: &G2Affine) -> Value {
    p.xy().map_or(json!([["0", "0"], ["0", "0"]]), |(x, y)| json!([[dec(&x.c0), dec(&x.c1)], [dec(&y.c0), dec(&y.c1)]]))
}

struct Outcome {
    ok: bool,
    text: String,
    log: Vec<Value>,
}
struct Call<'a> {
    dir: &'a Path,
    vk: &'a Path,
    out: &'a Path,
    proof: &'a str,
    inputs: &'a str,
}
fn call(c: &Call, outer: &Instance, fail: &str) -> Outcome {
    let log = c.dir.join("log");
    let _ = std::fs::remove_file(&log);
    let sc = json!({
        "fail": fail, "log": log.to_str().unwrap(),
        "Alpha": c1(&outer.vk.alpha_1), "Beta": c2(&outer.vk.beta_2), "Gamma": c2(&outer.vk.gamma_2), "Delta": c2(&outer.vk.delta_2),
        "K": outer.vk.ic.iter().map(c1).collect::<Vec<_>>(), "Gt": jt(&outer.vk.alpha_beta_gt),
        "Ar": c1(&outer.proof.pi_a), "Bs": c2(&outer.proof.pi_b), "Krs": c1(&outer.proof.pi_c),
    });
    std::fs::write(c.dir.join("scenario"), sc.to_string()).unwrap();
    let exe = std::env::current_exe().unwrap().with_file_name("wrap-call");
    let o = Command::new("timeout")
        .arg("120")
        .arg(exe)
        .args([c.vk.as_os_str(), c.out.as_os_str(), c.proof.as_ref(), c.inputs.as_ref()])
        .env("GNARK_STANDIN", c.dir.join("scenario"))
        .env("GOMAXPROCS", "2")
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let text = String::from_utf8_lossy(&o.stderr);
    let log = std::fs::read_to_string(log).unwrap_or_default();
    Outcome {
        ok: o.status.success(),
        text: format!("{}: {}", o.status, text.lines().find(|l| !l.trim().is_empty()).unwrap_or("")),
        log: log.lines().filter_map(|l| serde_json::from_str(l).ok()).collect(),
    }
}
fn files(d: &Path) -> Vec<(PathBuf, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).map(|p| (p.clone(), std::fs::read(&p).unwrap_or_default())).collect();
    v.sort();
    v
}
/// what an output directory holds beforehand
fn prepare(r: &mut Rng, out: &Path) {
    let _ = std::fs::remove_dir_all(out);
    std::fs::create_dir_all(out).unwrap();
    std::fs::write(out.join("other.json"), r.bytes(20)).unwrap();
    for f in FILES {
        if r.chance(1, 2) {
            let n = if r.chance(1, 2) { 5 } else { 20000 };
            std::fs::write(out.join(f), vec![*r.pick(b"}]x7 "); n]).unwrap();
        }
    }
}
/// every now and then some points of the outer key and proof are at infinity
fn outer(r: &mut Rng, pubs: &[BigUint]) -> (Instance, bool) {
    let mut o = instance_of(r, limbs(pubs));
    let strange = r.chance(1, 5);
    if strange {
        // not a statement that holds, but it crosses alike
        o.vk.ic.iter_mut().for_each(|p| *p = some_g1(r, true));
        o.proof.pi_a = some_g1(r, true);
        o.proof.pi_c = some_g1(r, true);
        if r.chance(1, 3) {
            o.proof.pi_b = G2Affine::zero();
        }
        o.vk.alpha_beta_gt = gt(r);
    }
    if !pubs.is_empty() && r.chance(1, 5) {
        o.vk.ic.push(some_g1(r, false)); // as for a committed wire
        return (o, false);
    }
    (o, !strange)
}

fn honest(rep: &mut Report, r: &mut Rng, dir: &Path) {
    let i = Inner::new(r);
    let (o, stands) = outer(r, &i.pubs);
    let (vk, out) = (dir.join("inner key"), dir.join("out"));
    std::fs::write(&vk, i.vk_file()).unwrap();
    prepare(r, &out);
    let before = files(&out);
    let texts: Vec<String> = i.pubs.iter().map(|x| numeral(r, x)).collect();
    let inputs = if r.chance(1, 2) { serde_json::to_string(&texts).unwrap() } else { format!(" {}\n", serde_json::to_string_pretty(&texts).unwrap()) };
    let upper = r.chance(1, 3);
    let proof = i.proof_hex(upper);
    let what = || format!("inner key {:?} proof {:?} inputs {inputs}; outer key {} proof {}", i.vk, i.proof, jvk(&o.vk), jproof(&o.proof));
    rep.case(&(&i.vk, &i.proof, &inputs, jvk(&o.vk).to_string()), true);
    rep.observe("inner inputs", &i.pubs.len());
    let c = Call { dir, vk: &vk, out: &out, proof: &proof, inputs: &inputs };
    let res = call(&c, &o, "");
    if !rep.check("honest/refused", res.ok, || format!("{}; {}", res.text, what())) {
        return;
    }
    rep.count("proofs wrapped", 1);
    // what was proved
    let want = json!({"vk": strs(&i.vk), "proof": strs(&i.proof), "publics": strs(&i.pubs)});
    let proved: Vec<&Value> = res.log.iter().filter(|e| e["event"] == "prove").collect();
    let field: BigUint = Fr::MODULUS.into();
    let right = !proved.is_empty()
        && proved.iter().all(|e| e["field"] == json!(field.to_string()) && e["asserted"].as_array().is_some_and(|a| !a.is_empty() && a.iter().all(|x| *x == want)));
    rep.check("honest/statement", right, || format!("proved {proved:?} for {}", what()));
    rep.count("events of the stand-in", res.log.len() as u64);
    // what was written
    let after = files(&out);
    let names: Vec<_> = after.iter().map(|f| f.0.file_name().unwrap().to_string_lossy().to_string()).collect();
    let mut all: Vec<String> = FILES.iter().map(|s| s.to_string()).chain(["other.json".into()]).collect();
    all.sort();
    let other = |v: &[(PathBuf, Vec<u8>)]| v.iter().find(|f| f.0.ends_with("other.json")).map(|f| f.1.clone());
    if !rep.check("honest/files", names == all && other(&after) == other(&before), || format!("the output directory holds {names:?}; {}", what())) {
        return;
    }
    let read = |f: &str| std::fs::read_to_string(out.join(f)).unwrap_or_default();
    let (tp, tk, tx) = (read(FILES[0]), read(FILES[1]), read(FILES[2]));
    let shown = || format!("proof {tp} key {tk} inputs {tx} for {}", what());
    let back = rep.must("honest/read", shown, || {
        (serde_json::from_str::<Prf>(&tp).unwrap(), serde_json::from_str::<Vk>(&tk).unwrap(), serde_json::from_str::<Pubs>(&tx).unwrap())
    });
    let Some((p, k, x)) = back else { return };
    rep.check("honest/proof", p.pi_a == o.proof.pi_a && p.pi_b == o.proof.pi_b && p.pi_c == o.proof.pi_c && p.protocol == "groth16" && p.curve == "bls12381", shown);
    rep.check(
        "honest/key",
        k.alpha_1 == o.vk.alpha_1 && k.beta_2 == o.vk.beta_2 && k.gamma_2 == o.vk.gamma_2 && k.delta_2 == o.vk.delta_2 && k.ic == o.vk.ic && k.protocol == "groth16",
        shown,
    );
    rep.check("honest/pairing", k.alpha_beta_gt == o.vk.alpha_beta_gt, shown);
    let all = limbs(&i.pubs);
    rep.check("honest/inputs", x.values == all && k.n_public == all.len(), shown);
    if stands {
        rep.check("honest/native", native(&k, &p, &x.values) == Some(true), shown);
        rep.count("outer proofs verified natively", 1);
    } else {
        rep.count("outer objects with points at infinity or a committed wire", 1);
    }
    if rep.wants_sample() {
        rep.sample(json!({"inner inputs": i.pubs.len(), "inputs": inputs, "written key": tk.len(), "events": res.log.len()}));
    }
}
fn strs(v: &[BigUint]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

fn refused(rep: &mut Report, r: &mut Rng, dir: &Path) {
    let mut i = Inner::new(r);
    let (o, _) = outer(r, &i.pubs);
    let (mut vk, out) = (dir.join("inner key"), dir.join("out"));
    prepare(r, &out);
    let mut fail = "";
    let kind = r.below(11);
    let mut proof = None;
    let mut texts = None;
    let mut inputs = None;
    let mut file = None;
    let p = bn_fp();
    let other = |r: &mut Rng, x: &BigUint, m: &BigUint| (x + 1u8 + BigUint::from(r.u64() >> r.below(64))) % m;
    match kind {
        0 => {
            let at = r.range(0, 7);
            i.proof[at] = other(r, &i.proof[at], &p);
        }
        1 if !i.pubs.is_empty() => {
            let at = r.range(0, i.pubs.len() - 1);
            i.pubs[at] = other(r, &i.pubs[at], &bn_fr());
        }
        2 => match r.below(2) {
            0 => i.pubs.push(below(r, &bn_fr())),
            _ => drop(i.pubs.pop()),
        },
        3 => {
            let at = r.range(0, i.vk.len() - 1);
            i.vk[at] = other(r, &i.vk[at], &p);
        }
        4 => {
            // the proof is not the hexadecimal form of a proof
            let s = i.proof_hex(false);
            proof = Some(match r.below(5) {
                0 => String::new(),
                1 => s[..2 * r.range(1, 255)].to_string(),
                2 => s[1..].to_string(),
                3 => { let at = r.range(0, 511); format!("{}{}{}", &s[..at], r.pick(&["g", " ", "-", "é"]), &s[at + 1..]) }
                _ => format!("0x{s}"),
            });
        }
        5 => {
            let b = i.vk_file();
            // what is missing is not all zeros: it might be taken as read
            let last = b.iter().rposition(|x| *x != 0).unwrap_or(0);
            file = Some(b[..r.range(0, last)].to_vec());
        }
        6 => {
            vk = match r.below(3) {
                0 => dir.join("no such key"),
                1 => dir.to_path_buf(),
                _ => PathBuf::new(),
            }
        }
        7 => {
            let mut t = strs(&i.pubs);
            let bad = r.pick(&["", "x", "12z", "0x", "0xg1", "1.5", "1e3", "0b1", " 7", "7 ", "ten"]).to_string();
            let at = r.range(0, t.len());
            if at < t.len() { t[at] = bad } else { t.push(bad) }
            texts = Some(t);
        }
        8 => {
            let s = serde_json::to_string(&strs(&i.pubs)).unwrap();
            inputs = Some(match r.below(6) {
                0 => String::new(),
                1 => s[..s.len() - 1].to_string(),
                2 => format!("{s} x"),
                3 => format!("{{\"publics\":{s}}}"),
                4 => "[1,2]".into(),
                _ => format!("[{s}]"),
            });
        }
        9 => fail = *r.pick(&["solve", "compile", "setup", "witness", "public", "prove", "verify", "pair"]),
        _ => {
            // two public inputs exchanged, or two points of K
            if i.pubs.len() > 1 && r.chance(1, 2) {
                let at = r.range(1, i.pubs.len() - 1);
                i.pubs.swap(at - 1, at);
            } else {
                i.vk.swap(10, 12);
            }
        }
    }
    let spoilt = proof.is_some() || texts.is_some() || inputs.is_some() || file.is_some() || kind == 6 || kind == 9;
    if !spoilt && i.holds() {
        return;
    }
    std::fs::write(dir.join("inner key"), file.unwrap_or_else(|| i.vk_file())).unwrap();
    let inputs = inputs.unwrap_or_else(|| serde_json::to_string(&texts.unwrap_or_else(|| strs(&i.pubs))).unwrap());
    let proof = proof.unwrap_or_else(|| i.proof_hex(false));
    let before = files(&out);
    let c = Call { dir, vk: &vk, out: &out, proof: &proof, inputs: &inputs };
    let res = call(&c, &o, fail);
    let what = || format!("kind {kind} {fail}: key {:?} {} proof {proof} inputs {inputs}; {}", vk.file_name(), i.vk.len(), res.text);
    rep.case(&(kind, fail, &i.vk, &proof, &inputs), true);
    rep.observe("kinds of refusal", &(kind, fail));
    rep.check("refused/success", !res.ok, what);
    rep.check("refused/written", files(&out) == before, what);
    rep.count("bad calls", 1);
}

/// places that cannot be written
fn unwritable(rep: &mut Report, r: &mut Rng, dir: &Path) {
    let i = Inner::new(r);
    let (o, _) = outer(r, &i.pubs);
    let (vk, mut out) = (dir.join("inner key"), dir.join("out"));
    std::fs::write(&vk, i.vk_file()).unwrap();
    prepare(r, &out);
    let f = *r.pick(&FILES);
    if r.chance(1, 4) {
        out = dir.join("no such directory");
    } else {
        let _ = std::fs::remove_file(out.join(f));
        std::fs::create_dir_all(out.join(f)).unwrap();
    }
    let inputs = serde_json::to_string(&strs(&i.pubs)).unwrap();
    let proof = i.proof_hex(false);
    let res = call(&Call { dir, vk: &vk, out: &out, proof: &proof, inputs: &inputs }, &o, "");
    rep.case(&(&i.vk, f), true);
    rep.check("unwritable", !res.ok, || format!("{f} cannot be written in {out:?} and the call succeeds: {}", res.text));
    rep.count("unwritable outputs", 1);
}

pub fn main() {
    let mut rep = Report::new(
        "K02",
        "one wrapped proof over a stand-in for gnark (inner statement, scenario and output directory generated): what was compiled and proved, from the stand-in's log, and what was written, read back by the native reader; or one call with something wrong; distinct = distinct calls",
        (25, 300),
    );
    rep.assume("gnark and gnark-crypto are replaced by a stand-in (harness/standin): circuits, outer proofs and pairings are played, the repository's Go and Rust code is real");
    rep.workers(8, |rep| {
        let s = scratch();
        let dir = Path::new(&s).join("wrap");
        std::fs::create_dir_all(&dir).unwrap();
        while rep.more_time(1.0) {
            let mut r = rep.rng.fork();
            match r.below(16) {
                0..=7 => honest(rep, &mut r, &dir),
                8..=14 => refused(rep, &mut r, &dir),
                _ => unwritable(rep, &mut r, &dir),
            }
        }
    });
    rep.finish();
}
