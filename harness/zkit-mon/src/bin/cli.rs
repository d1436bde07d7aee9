//! Z01: the command line does what it names, on the files it names, and its exit status says how it went.
//! Z02: compiling hands the circom compiler what the user asked for, and reports its failures.
use common::{guard, Report, Rng};
use groth_mon::{accepts, circuit, inputs, program, variants, Bls, Bn, Cv, Dir, Setting};
use r1cs_mon::echo;
use serde_json::{json, Value};
use starky_mon::backend::{Backend, Bls as SBls, Bn as SBn, Gl};
use starky_mon::{pilgen, starks};
use std::collections::{BTreeMap, BTreeSet};
use zkit_mon::{name, Ended, Line, Place};

/// one run of the program: only `outputs` may change, and the exit status must be `want`
fn step(rep: &mut Report, p: &Place, args: &[String], outputs: &[&str], want: Option<bool>) -> Option<Ended> {
    let command = args[0].clone();
    let line = args.join(" ");
    rep.beat(&line);
    let before = p.files();
    let e = p.run(args, &[]);
    let after = p.files();
    rep.count("runs", 1);
    rep.observe("exit status", &(&command, e.code));
    if rep.wants_sample() {
        rep.sample(json!({"line": line, "exit status": e.code}));
    }
    let outputs: BTreeSet<&str> = outputs.iter().map(|s| s.trim_start_matches("./")).collect();
    let touched: Vec<&String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k) && !outputs.contains(k.as_str())).collect();
    rep.check(&format!("{command}: only the named outputs change"), touched.is_empty(), || format!("{line}: {touched:?}: {}", e.said));
    if let Some(want) = want {
        let say = if want { "a run that succeeds exits with 0" } else { "a run that fails does not exit with 0" };
        if !rep.check(&format!("{command}: {say}"), e.ok() == want, || format!("{line}: {:?}: {}", e.code, e.said)) {
            return None;
        }
        rep.count(if want { "successes" } else { "failures reported" }, 1);
        if want {
            let missing: Vec<&&str> = outputs.iter().filter(|o| !after.contains_key(**o)).collect();
            if !rep.check(&format!("{command}: the named outputs are there"), missing.is_empty(), || format!("{line}: no {missing:?}: {}", e.said)) {
                return None;
            }
        }
    }
    Some(e)
}
/// the value to give an option, or its default when the option is left out
fn choose(r: &mut Rng, l: &mut Line, used: &mut Vec<String>, spellings: &[&str], default: &str) -> String {
    if !default.is_empty() && r.chance(1, 6) && !used.iter().any(|u| u == default) {
        used.push(default.into());
        return default.into();
    }
    let n = name(r, used);
    l.opt(r, spellings, &n);
    n
}
fn same(rep: &mut Report, command: &str, what: &str, line: &[String], got: Option<Vec<u8>>, want: Option<Vec<u8>>) {
    let n = |x: &Option<Vec<u8>>| x.as_ref().map(|b| b.len());
    rep.check(&format!("{command}: {what} is what the operation produces"), got.is_some() && got == want, || {
        format!("{}: {:?} bytes, {:?} expected; first {:?} against {:?}", line.join(" "), n(&got), n(&want), head(&got), head(&want))
    });
    rep.count("outputs compared", 1);
}
fn head(x: &Option<Vec<u8>>) -> String {
    x.as_ref().map(|b| String::from_utf8_lossy(&b[..b.len().min(120)]).into_owned()).unwrap_or_default()
}
/// what the operation of the same name in the library does; what it says is nobody's business here
fn done<T>(r: Result<anyhow::Result<T>, String>) -> bool {
    matches!(r, Ok(Ok(_)))
}
/// outputs of an earlier run, longer than those to come
fn leftovers(r: &mut Rng, p: &Place, outs: &[&str], big: usize) {
    for o in outs {
        let d = p.dir.join(o);
        std::fs::create_dir_all(d.parent().unwrap()).unwrap();
        if r.chance(1, 3) {
            p.put(o, vec![b'7'; big]);
        }
    }
}
/// a missing input, or an output that cannot be written
fn spoil(r: &mut Rng, p: &Place, args: &[String], ins: &[&str], outs: &[&str]) -> (Vec<String>, String) {
    let mut a = args.to_vec();
    let all: Vec<&&str> = ins.iter().chain(outs.iter()).collect();
    let victim = **r.pick(&all);
    if ins.contains(&victim) {
        let _ = std::fs::remove_file(p.dir.join(victim));
        (a, format!("without {victim}"))
    } else {
        let mut hit = false;
        for x in a.iter_mut().skip(1) {
            if x.ends_with(victim) && !hit {
                *x = x.replace(victim, "no/such/folder/file");
                hit = true;
            }
        }
        if !hit {
            // the option was left to its default
            let _ = std::fs::remove_file(p.dir.join(victim));
            let _ = std::fs::create_dir(p.dir.join(victim));
        }
        (a, format!("cannot write {victim}"))
    }
}

fn row_major(cols: &[Vec<u64>]) -> Vec<u8> {
    (0..cols.first().map_or(0, |c| c.len())).flat_map(|i| cols.iter().flat_map(move |c| c[i].to_le_bytes())).collect()
}
fn stark<B: Backend>(rep: &mut Report, rng: &mut Rng, p: &Place) {
    const C: &str = "stark_prove";
    p.clear();
    let mut sh = starks::sound_shape::<B>(rng);
    sh.nbits = sh.nbits.clamp(2, 5);
    sh.ext = 1.max(sh.ext);
    sh.parts = sh.parts.min(5);
    sh.queries = rng.range(2, 8);
    sh.min_last = sh.ext.min(sh.nbits);
    let agg = B::ARITY == 2 && rng.chance(1, 4);
    let (norm, skip) = if agg { (true, false) } else { (rng.chance(1, 2), rng.chance(1, 2)) };
    if agg {
        sh.only = vec!["public", "public", "public"];
        sh.parts = 7;
    }
    let prog = pilgen::program(rng, &sh);
    let mut l = Line::default();
    let mut u = vec![];
    let ss = choose(rng, &mut l, &mut u, &["-s", "--stark_stuct"], "stark_struct.json");
    let pil = choose(rng, &mut l, &mut u, &["-p", "--piljson"], "pil.json");
    let con = choose(rng, &mut l, &mut u, &["--o"], "pols.const");
    let cm = choose(rng, &mut l, &mut u, &["--m"], "pols.cm");
    let circom = choose(rng, &mut l, &mut u, &["-c", "--circom"], "stark_verfier.circom");
    let zkin = choose(rng, &mut l, &mut u, &["--i"], "zkin.json");
    let default = "273030697313060285579891744179749754319274977764";
    let addr = if rng.chance(1, 3) { default.to_string() } else { (num_bigint::BigUint::from(rng.u64()) << rng.range(0, 96)).to_string() };
    if addr != default || rng.chance(1, 2) {
        l.opt(rng, &["--prover_addr"], &addr);
    }
    if norm {
        l.flag(rng, &["-n", "--norm_stage"]);
    }
    if skip {
        l.flag(rng, &["--skip_main"]);
    }
    if agg {
        l.flag(rng, &["-a", "--agg_stage"]);
    }
    p.put(&pil, serde_json::to_string(&prog.pil).unwrap());
    p.put(&ss, serde_json::to_string(&prog.ss).unwrap());
    p.put(&con, row_major(&prog.consts));
    p.put(&cm, row_major(&prog.cms));
    leftovers(rng, p, &[&circom, &zkin], 2 << 20);
    let args = l.args(rng, C, false);
    rep.case(&args, true);
    p.put("want/x", b"");
    let api = |cm: &str| guard(|| starky::prove::stark_prove(&p.at(&ss), &p.at(&pil), norm, skip, agg, &p.at(&con), &p.at(cm), &p.at("want/circom"), &p.at("want/zkin"), &addr));
    if !done(api(&cm)) {
        return rep.count("operations that fail on honest input (other properties)", 1);
    }
    if step(rep, p, &args, &[&circom, &zkin], Some(true)).is_none() {
        return;
    }
    rep.observe("options", &(C, B::NAME, norm, skip, agg));
    same(rep, C, "the circuit", &args, p.get(&circom), p.get("want/circom"));
    same(rep, C, "the proof", &args, p.get(&zkin), p.get("want/zkin"));
    // a trace that is not of the program
    let (cms, what) = starks::corrupt(rng, &prog);
    p.put(&cm, row_major(&cms));
    if !done(api(&cm)) {
        rep.beat(&what);
        step(rep, p, &args, &[&circom, &zkin], Some(false));
    }
    p.put(&cm, row_major(&prog.cms));
    let (args, what) = spoil(rng, p, &args, &[&ss, &pil, &con, &cm], &[&circom, &zkin]);
    rep.beat(&what);
    step(rep, p, &args, &[&circom, &zkin], Some(false));
}

fn compress(rep: &mut Report, rng: &mut Rng, p: &Place) {
    p.clear();
    let o = rec_mon::Opts { constraints: rng.range(1, 25), gates: rng.chance(1, 3), uses: 1, max_terms: 6, palette: false };
    let (c, w) = rec_mon::random(rng, &o);
    let (mut l, mut u) = (Line::default(), vec![]);
    let r1cs = choose(rng, &mut l, &mut u, &["--r"], "mycircuit.verifier.r1cs");
    let con = choose(rng, &mut l, &mut u, &["--c"], "mycircuit.c12.const");
    let pil = choose(rng, &mut l, &mut u, &["--p"], "mycircuit.c12.pil");
    let exec = choose(rng, &mut l, &mut u, &["--e"], "mycircuit.c12.exec");
    let bits = if rng.chance(1, 2) { 0 } else { rng.range(5, 12) };
    if bits > 0 || rng.chance(1, 3) {
        l.opt(rng, &["--force-n-bits"], &bits.to_string());
    }
    p.put(&r1cs, c.file());
    p.put("want/x", b"");
    leftovers(rng, p, &[&con, &pil, &exec], 1 << 20);
    const C: &str = "compressor12_setup";
    let args = l.args(rng, C, false);
    rep.case(&args, true);
    rep.beat(&args.join(" "));
    let able = done(guard(|| recursion::compressor12_setup::setup(&p.at(&r1cs), &p.at("want/pil"), &p.at("want/const"), &p.at("want/exec"), bits)));
    if step(rep, p, &args, &[&con, &pil, &exec], Some(able)).is_none() || !able {
        return;
    }
    rep.observe("options", &(C, bits));
    same(rep, C, "the PIL", &args, p.get(&pil), p.get("want/pil"));
    same(rep, C, "the constants", &args, p.get(&con), p.get("want/const"));
    same(rep, C, "the table", &args, p.get(&exec), p.get("want/exec"));
    if rng.chance(1, 3) {
        let (bad, what) = spoil(rng, p, &args, &[&r1cs], &[&con, &pil, &exec]);
        rep.beat(&what);
        step(rep, p, &bad, &[&con, &pil, &exec], Some(false));
        return;
    }
    // and the execution
    const X: &str = "compressor12_exec";
    let mut l = Line::default();
    let input = choose(rng, &mut l, &mut u, &["--i"], "mycircuit.proof.zkin.json");
    let wasm = choose(rng, &mut l, &mut u, &["--w"], "mycircuit.verifier.wasm");
    let cm = choose(rng, &mut l, &mut u, &["--m"], "mycircuit.c12.cm");
    if pil != "mycircuit.c12.pil" {
        l.opt(rng, &["--p"], &pil);
    }
    if exec != "mycircuit.c12.exec" {
        l.opt(rng, &["--e"], &exec);
    }
    p.put(&wasm, echo::module(&[1u32, 0xffffffff], &[("w".to_string(), (c.n_wires - 1) as u32)], 2));
    p.put(&input, json!({"w": w[1..].iter().map(|x| x.to_string()).collect::<Vec<_>>()}).to_string());
    leftovers(rng, p, &[&cm], 1 << 20);
    let args = l.args(rng, X, false);
    rep.case(&args, true);
    rep.beat(&args.join(" "));
    if !done(guard(|| recursion::compressor12_exec::exec(&p.at(&input), &p.at(&wasm), &p.at("want/pil"), &p.at("want/exec"), &p.at("want/cm")))) {
        return rep.count("operations that fail on honest input (other properties)", 1);
    }
    let compiled = format!("{pil}.json");
    if step(rep, p, &args, &[&cm, &compiled], Some(true)).is_none() {
        return;
    }
    same(rep, X, "the trace", &args, p.get(&cm), p.get("want/cm"));
    let (bad, what) = spoil(rng, p, &args, &[&input, &wasm, &pil, &exec], &[&cm]);
    rep.beat(&what);
    step(rep, p, &bad, &[&cm, &compiled], Some(false));
}

fn join(rep: &mut Report, rng: &mut Rng, p: &Place) {
    const C: &str = "join_zkin";
    p.clear();
    let (mut l, mut u) = (Line::default(), vec![]);
    let a = choose(rng, &mut l, &mut u, &["--zkin1"], "input1.zkin.json");
    let b = choose(rng, &mut l, &mut u, &["--zkin2"], "input2.zkin.json");
    let out = choose(rng, &mut l, &mut u, &["--zkinout"], "out.zkin.json");
    let mut make = |tag: u64| {
        let mut m = serde_json::Map::new();
        for k in ["root1", "root2", "s0_vals1", "evals", "rootC", "finalPol"] {
            if rng.chance(4, 5) {
                m.insert(k.into(), json!([tag.to_string(), rng.u64().to_string()]));
            }
        }
        m.insert("publics".into(), (0..rng.range(4, 12)).map(|_| json!(rng.u64().to_string())).collect::<Vec<_>>().into());
        Value::Object(m)
    };
    let (x, y) = (make(1), make(2));
    p.put(&a, x.to_string());
    p.put(&b, y.to_string());
    leftovers(rng, p, &[&out], 1 << 16);
    let args = l.args(rng, C, false);
    rep.case(&(&args, x.to_string()), true);
    if step(rep, p, &args, &[&out], Some(true)).is_none() {
        return;
    }
    let got: Value = serde_json::from_slice(&p.get(&out).unwrap_or_default()).unwrap_or(Value::Null);
    let bad = [("a", &x), ("b", &y)].iter().flat_map(|(s, m)| m.as_object().unwrap().iter().map(move |(k, v)| (format!("{s}_{k}"), v.clone()))).find(|(k, v)| got.get(k) != Some(v));
    rep.check(&format!("{C}: the first input comes first"), bad.is_none(), || format!("{}: {bad:?} in {got}", args.join(" ")));
    p.put("want/x", b"");
    let _ = guard(|| starky::zkin_join::join_zkin(&p.at(&a), &p.at(&b), &p.at("want/out")));
    same(rep, C, "the joined input", &args, p.get(&out), p.get("want/out"));
    if rng.chance(1, 2) {
        p.put(if rng.chance(1, 2) { &a } else { &b }, *rng.pick(&["", "{", "[1]", "\"x\"", "{\"publics\": }"]));
        step(rep, p, &args, &[&out], Some(false));
        return;
    }
    let (bad, _) = spoil(rng, p, &args, &[&a, &b], &[&out]);
    step(rep, p, &bad, &[&out], Some(false));
}

fn groth<K: Cv>(rep: &mut Report, rng: &mut Rng, p: &Place) {
    p.clear();
    let d = Dir(p.at("."));
    let c = program(rng, K::PRIME, false);
    circuit(&d, &c, "c");
    let ins: Vec<_> = c.inputs().map(|_| K::PRIME.elem(rng)).collect();
    let w = c.witness(&ins);
    inputs(&d, &w);
    let mut u: Vec<String> = ["c.r1cs", "c.wasm", "w.json"].iter().map(|s| s.to_string()).collect();
    let rename = |rng: &mut Rng, u: &mut Vec<String>, from: &str| {
        // what a circuit file is goes by its name
        let n = format!("{}{}", name(rng, u), if from == "c.r1cs" { ".r1cs" } else { "" });
        u.push(n.trim_start_matches("./").to_string());
        let b = p.get(from).unwrap();
        p.put(&n, b);
        std::fs::remove_file(p.dir.join(from)).unwrap();
        n
    };
    let (r1cs, wasm, input) = (rename(rng, &mut u, "c.r1cs"), rename(rng, &mut u, "c.wasm"), rename(rng, &mut u, "w.json"));
    let (pk, vk, public, proof, sol) = (name(rng, &mut u), name(rng, &mut u), name(rng, &mut u), name(rng, &mut u), name(rng, &mut u));
    let hex = rng.chance(1, 2);
    leftovers(rng, p, &[&pk, &vk, &public, &proof, &sol], 1 << 18);
    let hex_key = rng.chance(1, 2);
    let setup_line = |rng: &mut Rng, curve: &str, r1cs: &str| {
        let mut l = Line::default();
        l.opt(rng, &["-c"], curve);
        l.opt(rng, &["--r1cs"], r1cs);
        l.opt(rng, &["-p"], &pk);
        l.opt(rng, &["-v"], &vk);
        if hex_key {
            l.flag(rng, &["-t"]);
        }
        l.args(rng, "groth16_setup", false)
    };
    let args = setup_line(rng, K::NAME, &r1cs);
    rep.case(&args, true);
    if step(rep, p, &args, &[&pk, &vk], Some(true)).is_none() {
        return;
    }
    let prove_line = |rng: &mut Rng, curve: &str, r1cs: &str| {
        let mut l = Line::default();
        l.opt(rng, &["-c"], curve);
        l.opt(rng, &["--r1cs"], r1cs);
        l.opt(rng, &["-w"], &wasm);
        l.opt(rng, &["-p"], &pk);
        l.opt(rng, &["-i"], &input);
        l.opt(rng, &["--public-input"], &public);
        l.opt(rng, &["--proof"], &proof);
        if hex {
            l.flag(rng, &["-t"]);
        }
        l.args(rng, "groth16_prove", false)
    };
    let args = prove_line(rng, K::NAME, &r1cs);
    rep.case(&args, true);
    if step(rep, p, &args, &[&public, &proof], Some(true)).is_none() {
        return;
    }
    let json = |n: &str| -> Value { serde_json::from_slice(&p.get(n).unwrap_or_default()).unwrap_or(Value::Null) };
    let (jv, jx, jp) = (json(&vk), json(&public), json(&proof));
    let want: Vec<Value> = w[1..1 + c.n_pub()].iter().map(|x| json!(x.to_string())).collect();
    rep.check("groth16_prove: the public inputs are those of the witness", jx == Value::Array(want.clone()), || format!("{}: {jx} for {want:?}", args.join(" ")));
    let good = accepts::<K>(&jv, &jx, &jp);
    rep.check("groth16_prove: the proof satisfies the pairing equation", good, || format!("{}: vk {jv} publics {jx} proof {jp}", args.join(" ")));
    for (n, v, hex) in [("key", &jv["vk_alpha_1"]["x"], hex_key), ("proof", &jp["pi_a"]["x"], hex)] {
        rep.check("groth16: numbers are written in the base asked for", v.as_str().map(|s| s.starts_with("0x")) == Some(hex), || format!("{n} {v}: hex {hex}"));
    }
    rep.observe("options", &("groth16", K::NAME, hex_key, hex));
    let verify_line = |rng: &mut Rng, curve: &str| {
        let mut l = Line::default();
        l.opt(rng, &["-c"], curve);
        l.opt(rng, &["-v"], &vk);
        l.opt(rng, &["--public-input"], &public);
        l.opt(rng, &["--proof"], &proof);
        l.args(rng, "groth16_verify", false)
    };
    let args = verify_line(rng, K::NAME);
    step(rep, p, &args, &[], Some(good));
    let n = (groth_mon::q::<K>().bits() as usize).div_ceil(8);
    let s = Setting { vk: jv.clone(), x: jx.clone(), proof: jp.clone(), hex: hex.then_some(2 * n), what: String::new() };
    let mut all = variants::<K>(rng, &s, &[]);
    rng.shuffle(&mut all);
    for (what, v, x, q) in all.into_iter().take(6) {
        let good = accepts::<K>(&v, &x, &q);
        p.put(&vk, v.to_string());
        p.put(&public, x.to_string());
        p.put(&proof, q.to_string());
        rep.case(&(&args, v.to_string(), x.to_string(), q.to_string()), true);
        rep.observe("verified after", &what.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
        step(rep, p, &args, &[], Some(good));
    }
    p.put(&vk, jv.to_string());
    p.put(&public, jx.to_string());
    p.put(&proof, jp.to_string());
    // the contract
    if K::NAME == "BN128" {
        let mut l = Line::default();
        let kept = vk.clone();
        let (mut vk, mut sol) = (vk.clone(), sol.clone());
        if rng.chance(1, 4) && !u.iter().any(|n| n == "vk.bin") {
            std::fs::rename(p.dir.join(&vk), p.dir.join("vk.bin")).unwrap();
            vk = "vk.bin".into();
        } else {
            l.opt(rng, &["-v"], &vk);
        }
        if rng.chance(1, 4) && !u.iter().any(|n| n == "verifier.sol") {
            sol = "verifier.sol".into();
        } else {
            l.opt(rng, &["-s"], &sol);
        }
        if rng.chance(1, 2) {
            l.opt(rng, &["-p"], "groth16");
        }
        let args = l.args(rng, "generate_verifier", false);
        p.put("want/x", b"");
        let able = done(guard(|| groth16::api::generate_verifier(&p.at(&vk), &p.at("want/sol"))));
        if step(rep, p, &args, &[&sol], Some(able)).is_some() && able {
            same(rep, "generate_verifier", "the contract", &args, p.get(&sol), p.get("want/sol"));
        }
        let args: Vec<String> = vec!["generate_verifier".into(), "-v".into(), vk.clone(), "-p".into(), rng.pick(&["plonk", "Groth16", ""]).to_string(), "-s".into(), sol.clone()];
        step(rep, p, &args, &[&sol], Some(false));
        let _ = std::fs::rename(p.dir.join("vk.bin"), p.dir.join(&kept));
    }
    // what must fail
    match rng.below(6) {
        0 => {
            let other = *rng.pick(&[if K::NAME == "BN128" { "BLS12381" } else { "BN128" }, "bn128", "Goldilocks"]);
            let args = verify_line(rng, other);
            step(rep, p, &args, &[], Some(false));
        }
        1 => {
            let args = prove_line(rng, K::NAME, "missing.r1cs");
            step(rep, p, &args, &[&public, &proof], Some(false));
        }
        2 => {
            let curve = *rng.pick(&["bn128", "BN254", "GL"]);
            let args = setup_line(rng, curve, &r1cs);
            step(rep, p, &args, &[&pk, &vk], Some(false));
        }
        3 => {
            let args = prove_line(rng, K::NAME, &r1cs);
            let (bad, _) = spoil(rng, p, &args, &[&pk, &r1cs, &wasm, &input], &[&public, &proof, &public, &proof]);
            step(rep, p, &bad, &[&public, &proof], Some(false));
        }
        4 => {
            let args = setup_line(rng, K::NAME, &r1cs);
            let (bad, _) = spoil(rng, p, &args, &[&r1cs], &[&pk, &vk]);
            step(rep, p, &bad, &[&pk, &vk], Some(false));
        }
        _ => {
            let args = verify_line(rng, K::NAME);
            let (bad, _) = spoil(rng, p, &args, &[&vk, &public, &proof], &[]);
            step(rep, p, &bad, &[], Some(false));
        }
    }
}

/// command lines that name no operation, or not all it needs
fn wrong(rep: &mut Report, rng: &mut Rng, p: &Place) {
    p.clear();
    p.put("pil.json", b"{}");
    let lines: [&[&str]; 12] = [
        &["verify_everything"],
        &["stark_prove", "--no_such_option"],
        &["stark_prove", "unexpected"],
        &["groth16_setup"],
        &["groth16_setup", "-c", "BN128", "-p", "pk", "-v", "vk"],
        &["groth16_prove", "-c", "BN128"],
        &["groth16_verify", "--proof"],
        &["compressor12_setup", "--force-n-bits", "many"],
        &["compressor12_setup", "--force-n-bits", "-1"],
        &["join_zkin", "--zkin1"],
        &["compile", "-i", "x.circom"],
        &["compile", "-o", "out"],
    ];
    let l: Vec<String> = rng.pick(&lines).iter().map(|s| s.to_string()).collect();
    rep.case(&l, true);
    step(rep, p, &l, &[], Some(false));
    let l = vec![rng.pick(&["stark_prove", "compressor12_setup", "compressor12_exec", "join_zkin", "groth16_setup", "groth16_prove", "groth16_verify", "generate_verifier", "compile"]).to_string(), "--help".into()];
    step(rep, p, &l, &[], Some(true));
}

fn z01(rep: &mut Report) {
    rep.assume("the crates that are not available offline are replaced as for C02 and G01");
    rep.workers(7, |rep| {
        let mut rng = rep.rng.fork();
        let place = Place::new(&format!("{}/cli", common::scratch()));
        let p = &place;
        while rep.more_time(1.0) && !rep.full() {
            match rng.below(14) {
                0..=3 => stark::<Gl>(rep, &mut rng, p),
                4 => if rng.chance(1, 2) { stark::<SBn>(rep, &mut rng, p) } else { stark::<SBls>(rep, &mut rng, p) },
                5..=7 => compress(rep, &mut rng, p),
                8 => join(rep, &mut rng, p),
                9 | 10 => groth::<Bn>(rep, &mut rng, p),
                11 => groth::<Bls>(rep, &mut rng, p),
                _ => wrong(rep, &mut rng, p),
            }
        }
    });
}

// ---------------------------------------------------------------- Z02
type Events = Vec<Vec<String>>;
fn events(path: &str) -> Events {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    t.lines().map(|l| l.split('\t').map(unescape).collect()).collect()
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match i.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('u') => {
                let h: String = i.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
struct Asked {
    input: String,
    out: String,
    links: Vec<String>,
    prime: String,
    o0: bool,
    o1: bool,
    rounds: Option<usize>,
}
fn z02_case(rep: &mut Report, rng: &mut Rng, p: &Place) {
    p.clear();
    let stem = *rng.pick(&["circuit", "c", "fibonacci.verifier", "a.b.c", "my circuit", "é", "r1cs", "x.circom", "_js", "UP"]);
    let ext = *rng.pick(&[".circom", ".circom", ".circom", ".txt"]);
    let folder = *rng.pick(&["", "", "src/", "./", "a/b/"]);
    let file = format!("{folder}{stem}{ext}");
    let mut source = format!("template T{}() {{\n\tsignal input a;\n}} // \\n \"é\"", rng.u64());
    if rng.chance(1, 40) {
        // a witness program of some size
        for _ in 0..rng.range(100, 20000) {
            source.push_str(&format!("\n // {}", rng.u64()));
        }
    }
    let mut l = Line::default();
    l.opt(rng, &["-i"], &file);
    let out = rng.pick(&["out", ".", "o/p", "my out", "out.d", "out/"]).to_string();
    l.opt(rng, &["-o"], &out);
    std::fs::create_dir_all(p.dir.join(&out)).unwrap();
    let mut a = Asked { input: file.clone(), out: out.clone(), links: vec![], prime: "bn128".into(), o0: false, o1: false, rounds: Some(usize::MAX) };
    for _ in 0..if rng.chance(1, 3) { 0 } else { rng.range(1, 5) } {
        let n = rng.pick(&["lib", "../x", "/usr/lib", "a b", "lib/circuits.gl", "."]).to_string();
        l.opt(rng, &["-l"], &n);
        a.links.push(n);
    }
    if rng.chance(3, 4) {
        let n = *rng.pick(&["BN128", "bn128", "goldilocks", "GOLDILOCKS", "Goldilocks", "bls12381", "BLS12381"]);
        l.opt(rng, &["-p"], n);
        a.prime = n.to_lowercase();
    }
    if rng.chance(1, 4) {
        l.flag(rng, &["--O0"]);
        a.o0 = true;
    }
    if rng.chance(1, 4) {
        l.flag(rng, &["--O1"]);
        a.o1 = true;
    }
    if rng.chance(1, 2) {
        let n = match rng.below(6) {
            0 => "full".to_string(),
            1 => "some".to_string(),
            2 => "1.5".to_string(),
            3 => (rng.u64() >> rng.below(64)).to_string(),
            _ => rng.range(1, 100).to_string(),
        };
        l.opt(rng, &["--O2"], &n);
        a.rounds = if n == "full" { Some(usize::MAX) } else { n.parse().ok() };
    }
    let args = l.args(rng, "compile", true);
    let line = args.join(" ");
    rep.beat(&line);
    p.put(&file, &source);
    let (r1cs, sym) = (join_path(&a.out, &format!("{stem}.r1cs")), join_path(&a.out, &format!("{stem}.sym")));
    let js = join_path(&a.out, &format!("{stem}_js"));
    let (wasm, wat) = (format!("{js}/{stem}.wasm"), format!("{js}/{stem}.wat"));
    // what may be there from before
    let mut stale = BTreeMap::new();
    if rng.chance(1, 2) {
        for (f, odds) in [(&r1cs, 2), (&sym, 2), (&wasm, 2), (&wat, 2)] {
            if rng.chance(1, odds) {
                p.put(f, b"(module ;; of another program\n)");
                stale.insert(f.clone(), ());
            }
        }
    }
    // what goes wrong
    let record = format!("{}.record", p.dir.display());
    let _ = std::fs::remove_file(&record);
    let mut env = vec![("CIRCOM_RECORD", record.clone())];
    let module = format!("(module ;; {source}\n)\n");
    let mut fault = String::new();
    if rng.chance(2, 5) {
        match rng.below(5) {
            0 => {
                let w = *rng.pick(&["(module unlexable)", "(module unencodable)", "(nothing)", ""]);
                env.push(("CIRCOM_WAT", w.into()));
                fault = format!("module {w:?}");
            }
            1 => {
                std::fs::remove_file(p.dir.join(&file)).unwrap();
                fault = "no source".into();
            }
            _ => {
                let s = *rng.pick(&["parse", "types", "build", "r1cs", "sym", "compile", "wasm"]);
                env.push(("CIRCOM_FAIL", s.into()));
                fault = s.into();
            }
        }
    }
    let usable = a.o0 || a.o1 || a.rounds.is_some();
    let before = p.files();
    let e = p.run(&args, &env);
    let after = p.files();
    let ev = events(&record);
    rep.count("runs", 1);
    rep.count("requests to the compiler recorded", ev.len() as u64);
    rep.case(&(&args, &fault, stale.keys().collect::<Vec<_>>(), &source), true);
    rep.observe("fault", &(&fault, usable, e.code));
    let ev_text = || format!("{ev:?}").chars().take(3000).collect::<String>();
    let tell = |what: &str| format!("{line}: fault {fault:?}, left from before {:?}: {what}; status {:?}; requests {}; {}", stale.keys().collect::<Vec<_>>(), e.code, ev_text(), e.said);
    let want = usable && fault.is_empty();
    let said = if want { "a program that compiles exits with 0" } else if !usable { "an unusable option is refused" } else { "a failing step fails the command" };
    if !rep.check(said, e.ok() == want, || tell("status")) {
        return;
    }
    rep.count(if want { "programs compiled" } else { "failures reported" }, 1);
    let own: BTreeSet<String> = [&r1cs, &sym, &wasm, &wat, &format!("{js}/generate_witness.js")].iter().map(|s| plain(s)).collect();
    let touched: Vec<&String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k) && !own.contains(*k)).collect();
    rep.check("only the outputs of the program change", touched.is_empty(), || tell(&format!("{touched:?}")));
    // what the compiler was asked to do, step by step
    let of = |k: &str| ev.iter().filter(|e| e[0] == k).collect::<Vec<_>>();
    let pos = |k: &str| ev.iter().position(|e| e[0] == k);
    if !usable {
        rep.check("an unusable option stops the command", pos("build").is_none(), || tell("built"));
        return;
    }
    for x in of("parse") {
        let mut q: Vec<String> = vec!["parse".into(), a.input.clone(), x[2].clone()];
        q.extend(a.links.iter().cloned());
        rep.check("the parser gets the source file and the libraries", **x == q, || tell(&format!("{x:?} for {q:?}")));
    }
    for x in of("types").into_iter().chain(of("build")).chain(of("compile")) {
        rep.check("every step gets this program", x[1] == source, || tell(&format!("{x:?}")));
    }
    for x in of("build") {
        let style = if a.o0 { (false, true) } else if a.o1 { (true, false) } else { (false, false) };
        rep.check("the simplification asked for is the one done", x[3] == format!("s={}", style.0) && x[4] == format!("f={}", style.1) && (a.o0 || x[2].parse().ok() == if a.o1 { Some(0) } else { a.rounds }), || tell(&format!("{x:?}")));
        rep.check("the constraints are over the field asked for", x[5] == a.prime, || tell(&format!("{x:?}")));
        rep.observe("asked for", &(&x[2..]));
    }
    for x in of("compile") {
        rep.check("the witness program is over the field asked for", x[2] == a.prime, || tell(&format!("{x:?}")));
    }
    rep.check("nothing is built of a program that fails its checks", pos("build").is_none() || (pos("parse") < pos("types") && pos("types") < pos("build") && fault != "parse" && fault != "types"), || tell("order"));
    for k in ["parse", "types", "build", "r1cs", "sym", "compile", "wasm"] {
        rep.check("no step runs twice", of(k).len() <= 1, || tell(k));
        if want {
            rep.check("every step runs", of(k).len() == 1, || tell(k));
        }
    }
    if !want {
        // nothing that passes for the product of this program
        let made = format!("\0asm\u{1}\0\0\0{module}").into_bytes();
        let suspicious = p.get(&wasm).map_or(false, |b| b != made && before.get(&plain(&wasm)) != after.get(&plain(&wasm)));
        rep.check("a failed compilation leaves no other program's module", !suspicious, || tell("module"));
        return;
    }
    for (f, k) in [(&r1cs, "r1cs"), (&sym, "sym")] {
        rep.check("the constraints and symbols are where they belong", p.get(f) == Some(format!("{k} of {source}").into_bytes()), || tell(f));
    }
    let made = [b"\0asm\x01\0\0\0".as_slice(), module.as_bytes()].concat();
    rep.check("the witness program is the compiled module", p.get(&wasm) == Some(made), || tell(&format!("{:?}", head(&p.get(&wasm)))));
    rep.check("the text of the module is not left behind", p.get(&wat).is_none(), || tell("wat"));
    for x in of("wasm") {
        rep.check("the helper scripts carry the program's name", x[2] == stem, || tell(&format!("{x:?}")));
    }
    if rep.wants_sample() {
        rep.sample(json!({"line": line, "requests": ev_text()}));
    }
}
fn join_path(a: &str, b: &str) -> String {
    format!("{}/{b}", a.trim_end_matches('/'))
}
fn plain(s: &str) -> String {
    s.trim_start_matches("./").to_string()
}
fn z02(rep: &mut Report) {
    rep.assume("the circom crates and wast are replaced by stand-ins that record what they are asked to do and, on demand, fail at one step");
    rep.workers(7, |rep| {
        let mut rng = rep.rng.fork();
        let p = Place::new(&format!("{}/cli", common::scratch()));
        while rep.more_time(1.0) && !rep.full() {
            z02_case(rep, &mut rng, &p);
        }
    });
}

fn main() {
    let prop = std::env::args().nth(1).unwrap();
    match prop.as_str() {
        "Z01" => {
            let mut r = Report::new("Z01", "one case is one command line (or one verification) run as a process in a folder of its own, with what it leaves and how it exits", (35, 600));
            z01(&mut r);
            r.finish()
        }
        "Z02" => {
            let mut r = Report::new("Z02", "one case is one run of the compile command (options, names, leftovers, one failing step) with the requests it makes of the compiler", (15, 200));
            z02(&mut r);
            r.finish()
        }
        _ => panic!("Z01 or Z02"),
    }
}
