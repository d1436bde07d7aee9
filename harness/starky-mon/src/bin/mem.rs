//! U01: runs `memwork` under sanitizers and Miri and reads what they report.
//! `mem U01 <target root>`: the sanitized builds are found under it.
use common::{hash64, Report};
use serde_json::{json, Value};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Job {
    tool: &'static str,
    kind: &'static str,
    borrows: bool,
}
struct Done {
    tool: &'static str,
    kind: &'static str,
    seed: u64,
    code: Option<i32>,
    signal: Option<i32>,
    timeout: bool,
    out: String,
    err: String,
}

fn exe(root: &str, tool: &str) -> String {
    format!("{root}/target-{tool}/x86_64-unknown-linux-gnu/release/memwork")
}

fn run(root: &str, j: &Job, seed: u64, secs: f64, limit: f64) -> Done {
    let mut c = if j.tool == "miri" {
        let mut c = Command::new("cargo");
        c.args(["miri", "run", "--offline", "-q", "-p", "starky-mon", "--bin", "memwork", "--"]);
        c.current_dir(format!("{root}/../harness"));
        let b = if j.borrows { "" } else { " -Zmiri-disable-stacked-borrows" };
        c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-num-cpus=3 -Zmiri-seed={}{b}", seed % 10_000));
        c.env("RUSTUP_TOOLCHAIN", "nightly").env("CARGO_NET_OFFLINE", "true").env("CARGO_TARGET_DIR", format!("{root}/target-miri"));
        c.env("RUSTFLAGS", "--cfg verif_hooks -Awarnings").env("RAYON_NUM_THREADS", "2");
        c
    } else {
        let mut c = Command::new(exe(root, j.tool));
        c.env("ASAN_OPTIONS", "exitcode=66:detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1");
        c.env("TSAN_OPTIONS", format!("exitcode=66:halt_on_error=0:second_deadlock_stack=1:suppressions={root}/../harness/tsan.supp"));
        c.env("MSAN_OPTIONS", "exitcode=66:halt_on_error=1");
        c
    };
    let cases = if j.tool == "miri" { 4 } else { u32::MAX as u64 };
    c.args([j.kind, &seed.to_string(), &secs.to_string(), &cases.to_string()]);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = c.spawn().unwrap_or_else(|e| panic!("{}: {e}", exe(root, j.tool)));
    let (mut so, mut se) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let mut timeout = false;
    let st = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs_f64(limit) {
            timeout = true;
            let _ = Command::new("pkill").args(["-KILL", "-P", &p.id().to_string()]).status();
            let _ = p.kill();
            break p.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    use std::os::unix::process::ExitStatusExt;
    let s = |v: Vec<u8>| String::from_utf8_lossy(&v).to_string();
    let (out, err) = if timeout { (String::new(), String::new()) } else { (s(a.join().unwrap()), s(b.join().unwrap())) };
    Done { tool: j.tool, kind: j.kind, seed, code: st.code(), signal: st.signal(), timeout, out, err }
}

/// the line naming what a tool found, and the part of its report to keep
fn finding(d: &Done) -> Option<(String, String)> {
    let marks = [
        ("address", "ERROR: AddressSanitizer"),
        ("race", "WARNING: ThreadSanitizer: data race"),
        ("race", "ERROR: ThreadSanitizer"),
        ("thread", "WARNING: ThreadSanitizer"),
        ("uninitialised", "WARNING: MemorySanitizer"),
        ("undefined", "error: Undefined Behavior"),
        ("precondition", "unsafe precondition(s) violated"),
        ("alignment", "misaligned pointer dereference"),
        ("null", "null pointer dereference occurred"),
    ];
    for (k, m) in marks {
        if let Some(p) = d.err.find(m) {
            let t: String = d.err[p..].chars().take(3500).collect();
            // the innermost frame of the code under test
            let at = t.lines().find(|l| l.contains("/repo/")).unwrap_or("").trim();
            let at = at.rsplit("/repo/").next().unwrap_or("").split(|c: char| c == ':' || c == ' ').next().unwrap_or("").to_string();
            return Some((format!("{k}-{at}"), t));
        }
    }
    if let Some(s) = d.signal {
        if [4, 5, 6, 7, 8, 11].contains(&s) {
            return Some((format!("signal-{s}"), d.err.chars().rev().take(1500).collect::<String>().chars().rev().collect()));
        }
    }
    None
}

fn main() {
    let root = std::env::args().nth(2).expect("the directory of the builds");
    let mut rep = Report::new("U01", "one run of generated work under one sanitizer; distinct (tool, kind, shape of work) seen count", (55, 1800));
    rep.assume("accesses inside crossbeam-deque (stolen slots, re-read when the owner overwrote them) are exempt; otherwise reports are trusted to the tools: AddressSanitizer with library precondition checks, ThreadSanitizer and MemorySanitizer with an instrumented standard library, Miri with its data-race detector");
    rep.assume("results are not judged here beyond crashes; the functional properties judge them");
    let j = |tool, kind| Job { tool, kind, borrows: false };
    let jobs = [
        j("tsan", "storm"),
        j("asan", "storm"),
        j("msan", "transforms"),
        j("tsan", "transforms"),
        j("asan", "proofs"),
        Job { tool: "miri", kind: "elements", borrows: true },
        j("asan", "trace"),
        j("tsan", "trees"),
        j("asan", "packed"),
        j("asan512", "packed"),
        j("miri", "storm"),
        j("asan", "transforms"),
        j("tsan", "proofs"),
        j("msan", "proofs"),
        j("asan", "trees"),
        j("miri", "trace"),
        j("asan", "elements"),
        j("msan", "trees"),
        j("tsan", "storm"),
        j("msan", "trace"),
        j("miri", "transforms"),
        j("msan", "storm"),
    ];
    let secs = if common::thorough() { 40.0 } else { 7.0 };
    let avx512 = std::arch::is_x86_feature_detected!("avx512f");
    let mut round = 0;
    while (round == 0 || rep.more_time(1.0)) && !rep.full() {
        round += 1;
        let seeds: Vec<u64> = jobs.iter().map(|_| rep.rng.u64() >> 1).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let done = std::sync::Mutex::new(vec![]);
        rep.beat(&format!("round {round}"));
        std::thread::scope(|s| {
            for _ in 0..5 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= jobs.len() {
                        break;
                    }
                    if jobs[i].tool == "asan512" && !avx512 {
                        continue;
                    }
                    let d = run(&root, &jobs[i], seeds[i], secs, secs * 10.0 + 90.0);
                    done.lock().unwrap().push(d);
                });
            }
            // keeps the watchdog informed while jobs run; each has a limit of its own
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let n = done.lock().unwrap().len();
                rep.beat(&format!("round {round}, {n} jobs done"));
                let want = if avx512 { jobs.len() } else { jobs.len() - jobs.iter().filter(|j| j.tool == "asan512").count() };
                if n >= want {
                    break;
                }
            }
        });
        for d in done.into_inner().unwrap() {
            let name = format!("{} {}", d.tool, d.kind);
            rep.count(&format!("runs: {name}"), 1);
            if let Some((k, t)) = finding(&d) {
                rep.violation(&k, format!("{name}, seed {}: {t}", d.seed));
                continue;
            }
            if d.timeout {
                rep.count(&format!("over time: {name}"), 1);
                continue;
            }
            let Some(v) = d.out.lines().rev().find_map(|l| serde_json::from_str::<Value>(l).ok()) else {
                // neither a finding nor an answer: stack exhaustion, unsupported operation of an interpreter, ...
                rep.count(&format!("no answer: {name}"), 1);
                rep.note("no answer", json!(format!("{name}, seed {}: code {:?} signal {:?} {}", d.seed, d.code, d.signal, d.err.chars().rev().take(600).collect::<String>().chars().rev().collect::<String>())));
                continue;
            };
            for (k, n) in v["counts"].as_object().unwrap() {
                rep.count(&format!("{}: {k}", d.tool), n.as_u64().unwrap());
            }
            if v["wrong"].as_array().unwrap().len() > 0 {
                rep.count("results that differ from what was asked (judged by other properties)", v["wrong"].as_array().unwrap().len() as u64);
                rep.note("differing result", v["wrong"][0].clone());
            }
            for s in v["shapes"].as_array().unwrap() {
                rep.case(&(d.tool, hash64(&s.to_string())), true);
                if rep.wants_sample() {
                    rep.sample(json!({"tool": d.tool, "kind": d.kind, "seed": d.seed, "work": s}));
                }
            }
            rep.count("cases under a sanitizer", v["cases"].as_u64().unwrap());
        }
    }
    rep.note("rounds", json!(round));
    rep.finish()
}
