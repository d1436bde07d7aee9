//! J01: the trace generators of starkjs, run by node over stand-ins for their packages (harness/starkjs).
//!
//! The stand-in compiles the PIL the generators ship with, records every column saved and evaluates each identity on
//! it; what the columns should be beyond that is worked out here.
use common::{gl, gl_val, scratch, Report, Rng, P};
use serde_json::{json, Value};
use starky_mon::refhash::gl_permute;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

const HOOK: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../starkjs/hook.js");
const TABLE: usize = 256;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Fibonacci,
    Plookup,
    Permutation,
    Connection,
    Poseidon,
}
use Kind::*;
impl Kind {
    fn script(self) -> &'static str {
        match self {
            Fibonacci => "fibonacci/fibonacci.js",
            Plookup => "plookup/plookup.js",
            Permutation => "permutation/permutation.js",
            Connection => "connection/connection.js",
            Poseidon => "poseidon/main_poseidon.js",
        }
    }
}

type Cols = BTreeMap<String, Vec<u64>>;
struct Run {
    ok: bool,
    text: String,
    log: Value,
    cols: Cols,
}
struct Spec {
    kind: Kind,
    rows: usize,
    option: String,
    pil: &'static str,
    input: Value,
    spoil: Value,
    cached: bool,
    log2: Vec<u64>,
}
const CACHED: &str = "{\"marker\":\"a program kept from before\"}";

fn run(dir: &str, s: &Spec) -> Run {
    let cache = format!("{dir}/kept");
    let w = format!("{dir}/w");
    let args: Value = match s.kind {
        Fibonacci | Poseidon => json!({"w": w, "workspace": w, "i": s.option, "input": s.option, "p": s.pil, "pil": s.pil, "pc": cache, "pilCache": cache}),
        _ => json!({"w": w, "workspace": w}),
    };
    let files = format!("{dir}/files");
    let _ = std::fs::remove_dir_all(&files);
    std::fs::create_dir_all(&files).unwrap();
    let at = match s.kind {
        Fibonacci | Poseidon => cache,
        Plookup => "/tmp/plookup".into(),
        Permutation => "/tmp/pe".into(),
        Connection => "/tmp/connection".into(),
    };
    if s.cached {
        std::fs::write(format!("{files}/{}", at.replace('/', "_")), CACHED).unwrap();
    }
    let (spec, out) = (format!("{dir}/spec"), format!("{dir}/out"));
    let _ = std::fs::remove_file(&out);
    std::fs::write(&spec, json!({"argv": args, "rows": s.rows, "input": s.input, "spoil": s.spoil, "dir": files, "out": out, "logs": s.log2}).to_string()).unwrap();
    let o = Command::new("timeout")
        .args(["100", "node", "-r", HOOK])
        .arg(format!("/repo/starkjs/{}", s.kind.script()))
        .env("J_SPEC", &spec)
        .env_remove("NODE_OPTIONS")
        .stdin(Stdio::null())
        .output()
        .expect("node");
    let log: Value = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
    let mut cols = Cols::new();
    if let Some(saved) = log["saved"].as_object() {
        for f in saved.values() {
            for (n, c) in f["cols"].as_object().unwrap() {
                cols.insert(n.clone(), c.as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap_or(u64::MAX)).collect());
            }
        }
    }
    let e = String::from_utf8_lossy(&o.stderr);
    let text = format!("{}; {}", o.status, e.lines().filter(|l| l.contains("rror")).take(2).collect::<Vec<_>>().join(" / "));
    Run { ok: o.status.success(), text, log, cols }
}

/// inputs of a Poseidon trace: states, what they hash to, which result flag is set
fn hashes(r: &mut Rng, n: usize, wrong: bool) -> (Vec<([u64; 12], [u64; 12], u64)>, Value) {
    let mut v = vec![];
    let mut j = vec![];
    let spoilt = wrong.then(|| r.range(0, n - 1));
    for k in 0..n {
        let small = r.chance(1, 3);
        let s: [u64; 12] = std::array::from_fn(|_| if small { r.below(20) } else { gl_val(r) });
        let mut t = s;
        gl_permute(&mut t);
        let mut claim = t;
        if spoilt == Some(k) {
            let at = r.range(0, 3);
            claim[at] = gl::add(claim[at], 1 + r.below(P - 1));
        }
        let flag = r.below(5);
        // numbers the script writes plainly may be plain here
        let mut row: Vec<Value> = s.iter().map(|x| if *x < 1 << 50 && r.chance(1, 2) { json!(x) } else { json!(x.to_string()) }).collect();
        row.extend(claim[..4].iter().map(|x| json!(x.to_string())));
        if flag > 0 {
            row.push(json!(flag));
        }
        v.push((s, t, flag));
        j.push(json!(row));
    }
    (v, json!(j))
}

fn find(p: &mut Vec<usize>, x: usize) -> usize {
    let mut x = x;
    while p[x] != x {
        p[x] = p[p[x]];
        x = p[x];
    }
    x
}
fn classes(n: usize, links: impl Iterator<Item = (usize, usize)>) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for (a, b) in links {
        let (a, b) = (find(&mut p, a), find(&mut p, b));
        // the smallest member stands for the class
        p[a.max(b)] = a.min(b);
    }
    (0..n).map(|x| find(&mut p, x)).collect()
}

fn one(rep: &mut Report, r: &mut Rng, dir: &str) {
    let kind = *r.pick(&[Fibonacci, Fibonacci, Plookup, Permutation, Connection, Poseidon, Poseidon, Poseidon]);
    let rows = 1usize
        << match kind {
            Plookup => r.range(8, 12),
            Poseidon => r.range(5, 11),
            _ => r.range(2, 12),
        };
    let slots = rows / 31;
    let mut s = Spec { kind, rows, option: r.below(5).to_string(), pil: *r.pick(&["fibonacci.pil", "fibonacci_old.pil"]), input: Value::Null, spoil: Value::Null, cached: r.chance(1, 6), log2: (0..32).map(|k| 1 << k).collect() };
    let mut hs = vec![];
    let mut fib = match s.option.as_str() {
        "0" => [1, 2],
        "1" => [3, 4],
        "2" => [5, 6],
        _ => [7, 8],
    };
    let mut refused = "";
    match kind {
        Fibonacci if r.chance(3, 4) => {
            fib = [gl_val(r), gl_val(r)];
            s.input = json!(fib.map(|x| x.to_string()));
        }
        Poseidon if r.chance(7, 8) => {
            let many = r.chance(1, 10);
            let wrong = !many && r.chance(1, 6);
            let n = if many { slots + r.range(1, 3) } else if r.chance(1, 4) { slots } else { r.range(if wrong { 1 } else { 0 }, slots) };
            (hs, s.input) = hashes(r, n, wrong);
            refused = if many { "more inputs than there is room for" } else if wrong { "a digest that is not the input's" } else { "" };
        }
        Poseidon => {
            let v = if s.option == "0" { [0; 12] } else { std::array::from_fn(|i| i as u64) };
            let mut t = v;
            gl_permute(&mut t);
            hs = vec![(v, t, 0)];
        }
        _ => {}
    }
    if refused.is_empty() && r.chance(1, 5) {
        let (column, by) = match kind {
            Fibonacci => (*r.pick(&["Fibonacci.l1", "Fibonacci.l2"]), 1),
            Plookup => (*r.pick(&["Plookup.a", "Plookup.b", "Plookup.sel", "Plookup.cc"]), 1 + r.below(1 << 40)),
            Permutation => (*r.pick(&["Permutation.a", "Permutation.b", "Permutation.c", "Permutation.d"]), 1 + r.below(1 << 40)),
            Connection => (*r.pick(&["Connection.a", "Connection.b", "Connection.c"]), 1 + r.below(1 << 40)),
            Poseidon => (*r.pick(&["PoseidonG.in0", "PoseidonG.in7", "PoseidonG.hashType", "PoseidonG.cap3", "PoseidonG.hash0", "PoseidonG.hash3", "PoseidonG.result2"]), 1 + r.below(5)),
        };
        s.spoil = json!({"column": column, "row": r.below(rows as u64), "by": by.to_string()});
    }
    let what = format!("{kind:?} on {rows} rows, option {} input {} spoilt {} kept program {}", s.option, s.input.to_string().chars().take(700).collect::<String>(), s.spoil, s.cached);
    let o = run(dir, &s);
    rep.case(&(kind, rows, s.input.to_string(), s.spoil.to_string(), &s.option), true);
    rep.observe("kinds and rows", &(kind, rows));
    if !rep.check("ran", !o.log.is_null() && o.log["generated"] == json!(1), || format!("{what}: {}", o.text)) {
        return;
    }
    rep.check("log2", o.log["answers"]["log2"] == json!((0..32).collect::<Vec<_>>()), || format!("log2 of the powers of two: {}", o.log["answers"]["log2"]));
    if refused != "" {
        rep.check("refused", !o.ok, || format!("{refused}: the run succeeds; {what}"));
        rep.count("runs that had to fail", 1);
        return;
    }
    let problems = o.log["verified"].as_array().map(|v| v.len());
    if !s.spoil.is_null() {
        rep.check("unverified", problems.is_some() && o.ok == (problems == Some(0)), || format!("the program is broken ({}) and the run ends with {}; {what}", o.log["verified"], o.text));
        rep.count(if problems == Some(0) { "altered traces that hold" } else { "altered traces refused" }, 1);
        return;
    }
    if !rep.check("accepted", o.ok && problems == Some(0) && o.log["wrong"] == json!([]), || format!("{what}: {} {} {}", o.text, o.log["verified"], o.log["wrong"])) {
        return;
    }
    rep.count("traces that satisfy their program", 1);
    rep.count("cells checked", o.cols.values().map(|c| c.len() as u64).sum());
    // what was written
    let cache = o.log["cache"].as_str().unwrap_or("").to_string();
    let saved: BTreeMap<String, String> = o.log["saved"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v["kind"].as_str().unwrap().to_string())).collect();
    let want = BTreeMap::from([(format!("{cache}.const"), "constant".to_string()), (format!("{cache}.cm"), "commit".to_string())]);
    rep.check("files", saved == want, || format!("saved {saved:?}; {what}"));
    let doc: Option<Value> = o.log["written"][format!("{cache}.pil.json")].as_str().and_then(|s| serde_json::from_str(s).ok());
    if s.cached {
        rep.check("kept-program", o.log["compiled"] == json!([]) && o.log["document"].to_string() == CACHED && doc.is_none(), || format!("compiled {} verified against {}; {what}", o.log["compiled"], o.log["document"]));
        rep.count("runs with a program kept from before", 1);
    } else {
        let dir = kind.script().split('/').next().unwrap();
        let main = match kind {
            Fibonacci => s.pil.to_string(),
            Poseidon => "poseidong.pil".into(),
            _ => format!("{dir}_main.pil"),
        };
        rep.check("program", o.log["compiled"] == json!([format!("/repo/starkjs/{dir}/{main}")]) && doc.as_ref() == Some(&o.log["document"]), || format!("compiled {}, wrote {doc:?}, verified {}; {what}", o.log["compiled"], o.log["document"]));
    }
    // what the columns hold
    let col = |n: &str| o.cols.get(n).cloned().unwrap_or_default();
    let flags = |f: &dyn Fn(usize) -> bool| (0..rows).map(|i| f(i) as u64).collect::<Vec<_>>();
    let constant = |rep: &mut Report, n: &str, want: Vec<u64>| {
        let got = col(n);
        rep.check("constants", got == want, || format!("{n}: {:?}; {what}", got.iter().zip(&want).enumerate().find(|(_, (a, b))| a != b)));
    };
    match kind {
        Fibonacci => {
            constant(rep, "Fibonacci.L1", flags(&|i| i == 0));
            constant(rep, "Fibonacci.LLAST", flags(&|i| i == rows - 1));
            let (mut l2, mut l1) = (fib[0], fib[1]);
            let first = (col("Fibonacci.l2")[0], col("Fibonacci.l1")[0]);
            rep.check("fibonacci-input", first == (l2, l1), || format!("the first row is {first:?}; {what}"));
            for _ in 1..rows {
                (l2, l1) = (l1, gl::add(gl::mul(l1, l1), gl::mul(l2, l2)));
            }
            rep.check("fibonacci-output", *col("Fibonacci.l1").last().unwrap() == l1 && o.log["returned"] == json!(l1.to_string()), || format!("returns {}, expected {l1}; {what}", o.log["returned"]));
        }
        Plookup => {
            constant(rep, "Global.L1", flags(&|i| i == 0));
            let t = |f: &dyn Fn(u64) -> u64| (0..rows).map(|i| if i < TABLE { f(i as u64) } else { 0 }).collect::<Vec<_>>();
            constant(rep, "Plookup.A", t(&|i| i / 16));
            constant(rep, "Plookup.B", t(&|i| i % 16));
            constant(rep, "Plookup.SEL", t(&|_| 1));
            let cc = col("Plookup.cc");
            rep.check("table", (0..TABLE).all(|i| cc[i] == (i / 16 * (i % 16)) as u64), || format!("the table is not that of products: {:?}; {what}", &cc[..TABLE]));
            rep.check("vacuous", col("Plookup.sel").iter().any(|x| *x != 0), || format!("nothing is looked up; {what}"));
        }
        Permutation => {
            constant(rep, "Global.L1", flags(&|i| i == 0));
            let (a, c, sel) = (col("Permutation.a"), col("Permutation.c"), col("Permutation.selC"));
            rep.check("vacuous", a.iter().any(|x| *x != a[0]) && (0..rows).any(|i| sel[i] != 0 && c[i] != 0), || format!("nothing is permuted; {what}"));
        }
        Connection => {
            constant(rep, "Global.L1", flags(&|i| i == 0));
            let cell: Vec<usize> = serde_json::from_value(o.log["connected"].clone()).unwrap_or_default();
            let (a, b, c) = (0, rows, 2 * rows);
            // a and b, b and c: even rows fill the lower half, odd rows the upper
            let to = |i: usize| i / 2 + if i % 2 == 1 { rows / 2 } else { 0 };
            let want = classes(3 * rows, (0..rows).flat_map(|i| [(a + i, b + to(i)), (b + i, c + to(i))]));
            let got = if cell.len() == 3 * rows { classes(3 * rows, cell.iter().enumerate().map(|(i, j)| (i, *j))) } else { vec![] };
            rep.check("connections", got == want, || format!("cells linked otherwise: {:?}; {what}", got.iter().zip(&want).enumerate().find(|(_, (a, b))| a != b)));
            rep.check("vacuous", { let a = col("Connection.a"); a.iter().any(|x| *x != a[0]) }, || format!("all values alike; {what}"));
        }
        Poseidon => {
            let last = |i: usize| i % 31 == 30;
            constant(rep, "PoseidonG.LAST", flags(&|i| last(i) || i == rows - 1));
            constant(rep, "PoseidonG.LASTBLOCK", flags(&last));
            constant(rep, "PoseidonG.LATCH", flags(&|i| i % 31 == 0 && i / 31 < slots));
            constant(rep, "PoseidonG.PARTIAL", flags(&|i| (4..26).contains(&(i % 31))));
            constant(rep, "PoseidonG.LINPUT", flags(&|i| i == 0));
            constant(rep, "PoseidonG.LOUTPUT", flags(&|i| i == rows - 1));
            const STATE: [&str; 12] = ["in0", "in1", "in2", "in3", "in4", "in5", "in6", "in7", "hashType", "cap1", "cap2", "cap3"];
            let state: Vec<Vec<u64>> = STATE.iter().map(|n| col(&format!("PoseidonG.{n}"))).collect();
            let digest: Vec<Vec<u64>> = (0..4).map(|k| col(&format!("PoseidonG.hash{k}"))).collect();
            let res: Vec<Vec<u64>> = (1..4).map(|k| col(&format!("PoseidonG.result{k}"))).collect();
            let mut zero = [0u64; 12];
            gl_permute(&mut zero);
            for b in 0..rows.div_ceil(31) {
                let (s, t, flag) = hs.get(b).copied().unwrap_or(([0; 12], zero, 0));
                let row = |i: usize| state.iter().map(|c| c[i]).collect::<Vec<_>>();
                let i = 31 * b;
                rep.check("poseidon-input", row(i) == s, || format!("block {b} starts with {:?}, the input is {s:?}; {what}", row(i)));
                if i + 30 < rows {
                    rep.check("poseidon-state", row(i + 30) == t, || format!("block {b} ends with {:?}, expected {t:?}; {what}", row(i + 30)));
                }
                let d: Vec<u64> = digest.iter().map(|c| c[i]).collect();
                rep.check("poseidon-digest", d == t[..4], || format!("block {b} has digest {d:?}, expected {t:?}; {what}"));
                let f: Vec<u64> = res.iter().map(|c| c[i]).collect();
                let want: Vec<u64> = (1..4).map(|k| (k == flag) as u64).collect();
                rep.check("poseidon-result", f == want, || format!("block {b} has flags {f:?}, expected {want:?}; {what}"));
                rep.count("Poseidon blocks", 1);
            }
            let end: Vec<String> = digest.iter().map(|c| c[rows - 1].to_string()).collect();
            rep.check("poseidon-returned", o.log["returned"] == json!(end), || format!("returns {}, the last row holds {end:?}; {what}", o.log["returned"]));
        }
    }
    if rep.wants_sample() {
        rep.sample(json!({"generator": format!("{kind:?}"), "rows": rows, "input": s.input, "columns": o.cols.len()}));
    }
}

fn main() {
    let mut rep = Report::new(
        "J01",
        "one run of a shipped generator by node (input, number of rows, kept program and a spoilt cell drawn): every identity of the program evaluated on every saved row, constants and results against independent values; distinct by generator, rows, input and what was spoilt",
        (20, 300),
    );
    rep.assume("pil-stark and pilcom are replaced by stand-ins (harness/starkjs): a field, the PIL reader and its evaluator; the repository's generators and pil_verifier are real");
    rep.assume("simple_vm is left out: its program does not parse, as shipped");
    rep.workers(8, |rep| {
        let dir = scratch();
        while rep.more_time(1.0) {
            let mut r = rep.rng.fork();
            one(rep, &mut r, &dir);
        }
    });
    rep.finish();
}
