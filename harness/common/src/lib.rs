//! Shared pieces of the monitors: seeded randomness, the event/violation recorder, the evidence
//! writer, a watchdog, and panic capture.
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness
/// xoshiro256**, seeded by splitmix64: the monitors' only source of randomness.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9e3779b97f4a7c15);
        let mut s = [0; 4];
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            let mut y = z;
            y = (y ^ (y >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            y = (y ^ (y >> 27)).wrapping_mul(0x94d049bb133111eb);
            *x = y ^ (y >> 31);
        }
        Rng { s }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// Goldilocks modulus
pub const P: u64 = 0xffff_ffff_0000_0001;

/// reference arithmetic in the Goldilocks field, on canonical integers
pub mod gl {
    use super::P;
    pub fn add(a: u64, b: u64) -> u64 {
        ((a as u128 + b as u128) % P as u128) as u64
    }
    pub fn sub(a: u64, b: u64) -> u64 {
        ((a as u128 + P as u128 - b as u128) % P as u128) as u64
    }
    pub fn neg(a: u64) -> u64 {
        sub(0, a)
    }
    pub fn mul(a: u64, b: u64) -> u64 {
        ((a as u128 * b as u128) % P as u128) as u64
    }
    pub fn pow(a: u64, mut e: u64) -> u64 {
        let mut r = 1;
        let mut b = a;
        while e > 0 {
            if e & 1 == 1 {
                r = mul(r, b);
            }
            b = mul(b, b);
            e >>= 1;
        }
        r
    }
    pub fn inv(a: u64) -> u64 {
        pow(a, P - 2)
    }
    /// the generator 7^((p-1)/2^n): the primitive 2^n-th root of unity the protocol uses
    pub fn root(n: usize) -> u64 {
        let mut w = pow(7, (P - 1) >> 32);
        for _ in n..32 {
            w = mul(w, w);
        }
        w
    }
}

/// canonical Goldilocks values, weighted towards the places where carries happen
pub fn gl_val(r: &mut Rng) -> u64 {
    const EDGE: [u64; 22] = [
        0, 1, 2, 3, 7, P - 1, P - 2, P - 3, 0xffff_ffff, 0x1_0000_0000, 0xffff_fffe, 0x1_0000_0001,
        0xffff_ffff_0000_0000, 0xffff_fffe_ffff_ffff, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000,
        0x7fff_ffff_8000_0000, 0x7fff_ffff_8000_0001, 0xffff_fffe_0000_0002, 0x8000_0000, 0xfffe_ffff_0000_0001,
        0x5555_5555_5555_5555,
    ];
    match r.below(8) {
        0 | 1 => *r.pick(&EDGE),
        2 => {
            let e = *r.pick(&EDGE);
            let d = r.below(5);
            if r.chance(1, 2) {
                gl::add(e, d)
            } else {
                gl::sub(e, d)
            }
        }
        3 => gl::sub(0, r.below(1 << 33)),
        4 => {
            let k = r.range(1, 63);
            r.below(1 << k)
        }
        5 => (1u64 << r.below(64)).wrapping_sub(r.below(3)) % P,
        _ => r.below(P),
    }
}

// ---------------------------------------------------------------- recorder
pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
/// a scratch directory for this process, removed by Report::finish
pub fn scratch() -> String {
    let d = format!("{}/build/scratch/{}", root(), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct Known {
    property: String,
    key: String,
    what: String,
}
fn load_known() -> Vec<Known> {
    let p = format!("{}/known_findings.json", root());
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    v["findings"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| Known {
            property: f["property"].as_str().unwrap().into(),
            key: f["key"].as_str().unwrap().into(),
            what: f["what"].as_str().unwrap().into(),
        })
        .collect()
}

static LAST_BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
static SHARED_BEAT: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Report {
    pub prop: String,
    pub rng: Rng,
    pub seed: u64,
    rule: String,
    start: Instant,
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    seen: BTreeMap<String, HashSet<u64>>,
    notes: Map<String, Value>,
    assumptions: Vec<String>,
    known: Vec<Known>,
    known_hit: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    budget: Duration,
}

/// Ends the process with a violation verdict from any thread.
fn die(prop: &str, key: &str, detail: &str) -> ! {
    let path = write_replay(prop, key, detail);
    println!("VIOLATION property={prop} replay={path}");
    println!("  {key}: {}", detail.chars().take(2000).collect::<String>());
    std::process::exit(1);
}
fn write_replay(prop: &str, key: &str, detail: &str) -> String {
    let dir = format!("{}/evidence/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{:016x}.json", hash64(&(key, detail)));
    let v = json!({"property": prop, "key": key, "detail": detail, "seed": env_seed(),
        "tier": if thorough() {"thorough"} else {"quick"},
        "rerun": format!("VERIF_SEED={} VERIF_TIER={} python3 tools/check.py {prop}", env_seed(), if thorough() {"thorough"} else {"quick"})});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

/// whether the panic came from a place in the repository (not from a monitor or from a dependency)
fn of_the_code_under_test(m: &str) -> bool {
    m.rsplit_once(" at ").is_some_and(|(_, l)| l.starts_with("/repo/"))
}
extern "C" {
    fn on_exit(f: extern "C" fn(i32, *mut libc::c_void), arg: *mut libc::c_void) -> i32;
}
/// A panic that leaves `main` (status 101) and came from the code under test is a violation: monitors call
/// unguarded only what has to give a result.
extern "C" fn at_exit(status: i32, prop: *mut libc::c_void) {
    if status != 101 {
        return;
    }
    let m = LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default();
    if !of_the_code_under_test(&m) {
        eprintln!("monitor panicked: {m}");
        return;
    }
    let prop = unsafe { &*(prop as *const String) };
    let c = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
    let detail = format!("the code under test panicked where it has to give a result: {m}, in case: {c}");
    let path = write_replay(prop, "panic", &detail);
    println!("VIOLATION property={prop} replay={path}");
    println!("  panic: {}", detail.chars().take(2000).collect::<String>());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

fn watch(p: String, start: Instant, hang: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let now = start.elapsed().as_secs();
        if now.saturating_sub(LAST_BEAT.load(Ordering::Relaxed)) > hang {
            let c = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
            die(&p, "hang", &format!("no progress for {hang} s in case: {c}"));
        }
    });
}
fn hang_s() -> u64 {
    std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(180u64)
}

impl Report {
    /// Runs `f` in `n` forked copies of this process, each with randomness of its own, and adds up what they saw.
    /// Call it before anything starts threads. A copy that dies is a violation naming its last case.
    pub fn workers(&mut self, n: usize, f: impl Fn(&mut Report)) {
        const BEAT: usize = 1 << 20;
        let dir = scratch();
        let mut kids = vec![];
        for i in 0..n {
            let seed = self.rng.u64();
            unsafe {
                let page = libc::mmap(std::ptr::null_mut(), BEAT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
                assert!(page != libc::MAP_FAILED);
                let pid = libc::fork();
                assert!(pid >= 0);
                if pid == 0 {
                    // two pool threads each: the copies share the machine
                    std::env::set_var("RAYON_NUM_THREADS", if i == 0 { "8" } else { "2" });
                    SHARED_BEAT.store(page as u64, Ordering::Relaxed);
                    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &core);
                    watch(self.prop.clone(), self.start, hang_s());
                    let mut r = Report {
                        prop: self.prop.clone(),
                        rng: Rng::new(seed),
                        seed: self.seed,
                        rule: String::new(),
                        start: self.start,
                        evaluations: 0,
                        distinct: HashSet::new(),
                        samples: vec![],
                        counters: BTreeMap::new(),
                        seen: BTreeMap::new(),
                        notes: Map::new(),
                        assumptions: vec![],
                        known: load_known(),
                        known_hit: BTreeMap::new(),
                        violations: vec![],
                        budget: self.budget,
                    };
                    let ended = catch_unwind(AssertUnwindSafe(|| f(&mut r)));
                    if ended.is_err() {
                        let m = LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default();
                        if !of_the_code_under_test(&m) {
                            eprintln!("monitor panicked: {m}");
                            libc::_exit(78);
                        }
                        let c = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
                        r.violation("panic", format!("the code under test panicked where it has to give a result: {m}, in case: {c}"));
                    }
                    let v = json!({"evaluations": r.evaluations, "distinct": r.distinct, "samples": r.samples, "counters": r.counters,
                        "seen": r.seen, "notes": r.notes, "assumptions": r.assumptions, "known_hit": r.known_hit, "violations": r.violations});
                    let _ = std::fs::remove_dir_all(format!("{}/build/scratch/{}", root(), std::process::id()));
                    std::fs::write(format!("{dir}/worker-{i}.json"), serde_json::to_vec(&v).unwrap()).unwrap();
                    use std::io::Write;
                    let _ = std::io::stdout().flush();
                    libc::_exit(0);
                }
                kids.push((i, pid, page as *const u8));
            }
        }
        let mut left = kids;
        while !left.is_empty() {
            LAST_BEAT.store(self.start.elapsed().as_secs(), Ordering::Relaxed); // each copy has a watchdog of its own
            std::thread::sleep(Duration::from_millis(20));
            let mut still = vec![];
            for (i, pid, page) in left {
                let mut st = 0;
                if unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) } == 0 {
                    still.push((i, pid, page));
                    continue;
                }
                let _ = std::fs::remove_dir_all(format!("{}/build/scratch/{pid}", root()));
                let text: Vec<u8> = unsafe { std::slice::from_raw_parts(page, BEAT) }.iter().copied().take_while(|b| *b != 0).collect();
                let case = String::from_utf8_lossy(&text).to_string();
                unsafe { libc::munmap(page as *mut _, BEAT) };
                let file = format!("{dir}/worker-{i}.json");
                let v: Option<Value> = std::fs::read(&file).ok().and_then(|b| serde_json::from_slice(&b).ok());
                let _ = std::fs::remove_file(&file);
                match v {
                    Some(v) => self.add_up(&v),
                    None if libc::WIFSIGNALED(st) => {
                        let s = libc::WTERMSIG(st);
                        if s == libc::SIGKILL {
                            eprintln!("a worker was killed (out of memory?) in case: {case}");
                            std::process::exit(3);
                        }
                        self.violation("crash", format!("killed by signal {s} in case: {case}"))
                    }
                    // its watchdog has printed the violation
                    None if libc::WEXITSTATUS(st) == 1 => self.violation("hang", format!("no progress in case: {case}")),
                    None => {
                        eprintln!("a worker ended with status {} in case: {case}", libc::WEXITSTATUS(st));
                        std::process::exit(3);
                    }
                }
            }
            left = still;
        }
    }
    fn add_up(&mut self, v: &Value) {
        let set = |v: &Value| -> Vec<u64> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect() };
        self.evaluations += v["evaluations"].as_u64().unwrap();
        self.distinct.extend(set(&v["distinct"]));
        for s in v["samples"].as_array().unwrap() {
            self.sample(s.clone());
        }
        for (k, n) in v["counters"].as_object().unwrap() {
            self.count(k, n.as_u64().unwrap());
        }
        for (k, s) in v["seen"].as_object().unwrap() {
            self.seen.entry(k.clone()).or_default().extend(set(s));
        }
        for (k, n) in v["notes"].as_object().unwrap() {
            self.notes.insert(k.clone(), n.clone());
        }
        for a in v["assumptions"].as_array().unwrap() {
            let a = a.as_str().unwrap().to_string();
            if !self.assumptions.contains(&a) {
                self.assumptions.push(a);
            }
        }
        for (k, n) in v["known_hit"].as_object().unwrap() {
            *self.known_hit.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
        for x in v["violations"].as_array().unwrap() {
            self.violation(x[0].as_str().unwrap(), x[1].as_str().unwrap());
        }
    }
    /// `budget_s` = (quick, thorough) seconds that `more_time` allows
    pub fn new(prop: &str, rule: &str, budget_s: (u64, u64)) -> Self {
        let seed = env_seed();
        let start = Instant::now();
        let scale: f64 = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let b = if thorough() { budget_s.1 } else { budget_s.0 } as f64 * scale;
        let hang = hang_s();
        let p = prop.to_string();
        std::panic::set_hook(Box::new(|i| {
            let m = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if let Ok(mut g) = LAST_PANIC.lock() {
                *g = format!("{m} at {loc}");
            }
            if std::env::var("VERIF_PANICS").is_ok() {
                eprintln!("panic: {m} at {loc}");
            }
        }));
        unsafe { on_exit(at_exit, Box::into_raw(Box::new(p.clone())) as *mut libc::c_void) };
        watch(p, start, hang);
        Report {
            prop: prop.into(),
            rng: Rng::new(seed ^ hash64(&prop)),
            seed,
            rule: rule.into(),
            start,
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            seen: BTreeMap::new(),
            notes: Map::new(),
            assumptions: vec![],
            known: load_known(),
            known_hit: BTreeMap::new(),
            violations: vec![],
            budget: Duration::from_secs_f64(b),
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// whether the time budget (times `frac`) still has room; stops early after many violations
    pub fn more_time(&self, frac: f64) -> bool {
        LAST_BEAT.store(self.start.elapsed().as_secs(), Ordering::Relaxed);
        self.violations.len() < 20 && self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * frac
    }
    pub fn full(&self) -> bool {
        self.violations.len() >= 20
    }
    /// names the case being run, for the watchdog and crash reports
    pub fn beat(&self, case: &str) {
        LAST_BEAT.store(self.start.elapsed().as_secs(), Ordering::Relaxed);
        if let Ok(mut c) = CURRENT.lock() {
            c.clear();
            c.push_str(case);
        }
        let page = SHARED_BEAT.load(Ordering::Relaxed) as *mut u8;
        if !page.is_null() {
            let b = &case.as_bytes()[..case.len().min(1 << 19)];
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), page, b.len());
                *page.add(b.len()) = 0;
            }
        }
        if let Ok(f) = std::env::var("VERIF_BEAT_FILE") {
            let _ = std::fs::write(f, case);
        }
    }
    /// counts one evaluated case; `id` is hashed for distinctness
    pub fn case<T: Hash>(&mut self, id: &T, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 3_000_000 {
            self.distinct.insert(hash64(id));
        }
        if self.evaluations < 0x1000 || self.evaluations & 0xff == 0 {
            LAST_BEAT.store(self.start.elapsed().as_secs(), Ordering::Relaxed);
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// records a distinct observation of a class (e.g. a state, a shape, an ordering)
    pub fn observe<T: Hash>(&mut self, class: &str, v: &T) {
        let h = hash64(v);
        if let Some(s) = self.seen.get_mut(class) {
            if s.len() < 1_000_000 {
                s.insert(h);
            }
        } else {
            self.seen.insert(class.to_string(), HashSet::from([h]));
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 12 {
            self.samples.push(v);
        }
    }
    pub fn wants_sample(&self) -> bool {
        self.samples.len() < 12
    }
    pub fn note(&mut self, k: &str, v: Value) {
        self.notes.insert(k.into(), v);
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn violations(&self) -> usize {
        self.violations.len()
    }
    /// reports that the property failed; `key` names the failing thing (matched with the known findings)
    pub fn violation(&mut self, key: &str, detail: impl AsRef<str>) {
        let detail = detail.as_ref();
        if self.known.iter().any(|k| k.property == self.prop && k.key == key) {
            *self.known_hit.entry(key.to_string()).or_default() += 1;
            return;
        }
        if self.violations.iter().filter(|v| v.0 == key).count() >= 2 {
            return;
        }
        let mut d: String = detail.chars().take(100_000).collect();
        if d.len() < detail.len() {
            d.push_str(" ... (cut)");
        }
        self.violations.push((key.to_string(), d));
    }
    pub fn check(&mut self, key: &str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.violation(key, d);
        }
        ok
    }
    /// runs `f`; a panic in it becomes Err(message)
    pub fn guard<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        guard(f)
    }
    /// runs `f` on the code under test where a panic breaks the property
    pub fn must<T>(&mut self, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(t) => Some(t),
            Err(e) => {
                self.violation(key, format!("{}: panicked: {e}", what()));
                None
            }
        }
    }
    pub fn finish(mut self) -> ! {
        let _ = std::fs::remove_dir_all(format!("{}/build/scratch/{}", root(), std::process::id()));
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        if self.samples.is_empty() {
            self.samples.push(json!("(no sample recorded)"));
        }
        cov.insert("samples".into(), json!(self.samples));
        cov.insert("monitor_events".into(), json!(self.counters));
        let d: BTreeMap<_, _> = self.seen.iter().map(|(k, v)| (k.clone(), v.len())).collect();
        cov.insert("distinct_observed".into(), json!(d));
        if !self.known_hit.is_empty() {
            cov.insert("known_findings_hit".into(), json!(self.known_hit));
        }
        for (k, v) in &self.notes {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.prop, "tier": if thorough() {"thorough"} else {"quick"}, "seed": self.seed,
            "level": "exploration", "coverage": cov, "assumptions": self.assumptions,
            "wall_s": (self.elapsed() * 1000.0).round() / 1000.0, "violations": self.violations.len(),
        });
        // a check made of several runs gives each its own part; tools/check.py merges them
        let part = std::env::var("VERIF_PART").unwrap_or_default();
        let dir = if part.is_empty() { format!("{}/evidence", root()) } else { format!("{}/build/parts", root()) };
        std::fs::create_dir_all(&dir).unwrap();
        let name = if part.is_empty() { format!("{}.json", self.prop) } else { format!("{}.{part}.json", self.prop) };
        std::fs::write(format!("{dir}/{name}"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        for k in self.known.iter().filter(|k| self.known_hit.contains_key(&k.key) && k.property == self.prop) {
            println!("KNOWN-FINDING: property={} {}", self.prop, k.what);
        }
        for (key, detail) in &self.violations {
            let path = write_replay(&self.prop, key, detail);
            println!("VIOLATION property={} replay={path}", self.prop);
            println!("  {key}: {}", detail.chars().take(1500).collect::<String>());
        }
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {:.1} s",
            self.prop, self.evaluations, self.distinct.len(), self.violations.len(), self.elapsed()
        );
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default())
}

/// Err(..) or a panic: the code under test refused
pub fn refused<T, E>(f: impl FnOnce() -> Result<T, E>) -> bool {
    !matches!(guard(f), Ok(Ok(_)))
}

/// Runs `f` in a forked child with an address-space limit and a time limit.
/// Returns how it ended and the bytes `f` returned. The parent must not hold locks other threads need.
#[derive(Debug, Clone, PartialEq)]
pub enum Ended {
    Returned(Vec<u8>),
    Panicked,
    Signal(i32),
    Timeout,
}
pub fn in_child(limit_mb: u64, timeout_s: u64, f: impl FnOnce() -> Vec<u8>) -> Ended {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: limit_mb << 20, rlim_max: limit_mb << 20 };
            if limit_mb > 0 {
                libc::setrlimit(libc::RLIMIT_AS, &lim);
            }
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(timeout_s as u32);
            let r = catch_unwind(AssertUnwindSafe(f));
            let (code, data) = match r {
                Ok(d) => (0, d),
                Err(_) => (77, vec![]),
            };
            let mut off = 0;
            while off < data.len() {
                let n = libc::write(fds[1], data[off..].as_ptr() as *const _, data.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGALRM {
                Ended::Timeout
            } else {
                Ended::Signal(s)
            }
        } else if libc::WEXITSTATUS(st) == 0 {
            Ended::Returned(out)
        } else {
            Ended::Panicked
        }
    }
}

/// Runs `f` on a new thread that (with every thread it starts) may use only the first `n` CPUs,
/// so the code under test sees a machine with `n` CPUs.
pub fn with_cpus<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        s.spawn(|| {
            unsafe {
                let mut cur: libc::cpu_set_t = std::mem::zeroed();
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let sz = std::mem::size_of::<libc::cpu_set_t>();
                libc::sched_getaffinity(0, sz, &mut cur);
                let mut k = 0;
                for c in 0..libc::CPU_SETSIZE as usize {
                    if libc::CPU_ISSET(c, &cur) && k < n {
                        libc::CPU_SET(c, &mut set);
                        k += 1;
                    }
                }
                libc::sched_setaffinity(0, sz, &set);
            }
            f()
        })
        .join()
    })
    .unwrap_or_else(|e| std::panic::resume_unwind(e))
}
