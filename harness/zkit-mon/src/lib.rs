//! Running the command-line program in a folder of its own, and looking at what it leaves.
use common::Rng;
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ended {
    /// exit status; none: killed by a signal, or not ended in time
    pub code: Option<i32>,
    pub said: String,
}
impl Ended {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
}

pub struct Place {
    pub dir: PathBuf,
    exe: PathBuf,
}
impl Place {
    pub fn new(dir: &str) -> Place {
        let exe = std::env::current_exe().unwrap().parent().unwrap().join("eigen-zkit");
        Place { dir: PathBuf::from(dir), exe }
    }
    /// an empty folder
    pub fn clear(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(&self.dir).unwrap();
    }
    pub fn at(&self, n: &str) -> String {
        self.dir.join(n).to_str().unwrap().to_string()
    }
    pub fn put(&self, n: &str, b: impl AsRef<[u8]>) {
        let p = self.dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
    pub fn get(&self, n: &str) -> Option<Vec<u8>> {
        std::fs::read(self.dir.join(n)).ok()
    }
    pub fn files(&self) -> BTreeMap<String, u64> {
        fn walk(base: &Path, d: &Path, o: &mut BTreeMap<String, u64>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(base, &p, o);
                } else {
                    let n = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                    o.insert(n, common::hash64(&std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
        let mut o = BTreeMap::new();
        walk(&self.dir, &self.dir, &mut o);
        o
    }
    pub fn run(&self, args: &[String], env: &[(&str, String)]) -> Ended {
        let said = self.dir.with_extension("said");
        let f = std::fs::File::create(&said).unwrap();
        let mut c = Command::new(&self.exe);
        c.args(args).current_dir(&self.dir).stdin(Stdio::null()).stdout(f.try_clone().unwrap()).stderr(f);
        c.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").env_remove("CIRCOM_RECORD").env_remove("CIRCOM_FAIL").env_remove("CIRCOM_WAT");
        for (k, v) in env {
            c.env(k, v);
        }
        // a runaway allocation ends the program, not the machine
        unsafe {
            c.pre_exec(|| {
                let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &none);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("the program starts");
        let from = Instant::now();
        let code = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break s.code();
            }
            if from.elapsed() > Duration::from_secs(150) {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        let b = std::fs::read(&said).unwrap_or_default();
        let said = String::from_utf8_lossy(&b[..b.len().min(1500)]).into_owned();
        Ended { code, said }
    }
}

/// names a user may choose
pub fn name(r: &mut Rng, used: &mut Vec<String>) -> String {
    loop {
        let stem = *r.pick(&["a", "proof", "my file", "x.y.z", "é", "0", "zkin.json", "pil", "verifier_js", "out", "UPPER", "a=b", "%s", "q'q"]);
        let ext = *r.pick(&["", ".json", ".bin", ".const", ".cm", ".r1cs", ".circom", ".wtns"]);
        let folder = *r.pick(&["", "", "", "d/", "d/e/", "./", "my folder/"]);
        let n = format!("{folder}{stem}{}{ext}", if r.chance(1, 3) { r.below(1000).to_string() } else { String::new() });
        let plain = n.trim_start_matches("./").to_string();
        // no two alike, and none a folder of another
        if used.iter().all(|u| *u != plain) && !["d", "d/e", "my folder"].contains(&plain.as_str()) {
            used.push(plain);
            return n;
        }
    }
}

/// a command line under construction: each option in one of its spellings, in any order
#[derive(Default)]
pub struct Line {
    opts: Vec<Vec<String>>,
}
impl Line {
    pub fn opt(&mut self, r: &mut Rng, spellings: &[&str], value: &str) {
        let s = *r.pick(spellings);
        self.opts.push(match (s.starts_with("--"), r.below(3)) {
            (true, 0) | (false, 1) => vec![format!("{s}={value}")],
            (false, 0) => vec![format!("{s}{value}")],
            _ => vec![s.to_string(), value.to_string()],
        });
        // a value that begins with '=' or is empty cannot be written attached to a short option
    }
    pub fn flag(&mut self, r: &mut Rng, spellings: &[&str]) {
        self.opts.push(vec![r.pick(spellings).to_string()]);
    }
    pub fn args(mut self, r: &mut Rng, command: &str, keep_order: bool) -> Vec<String> {
        if !keep_order {
            r.shuffle(&mut self.opts);
        }
        std::iter::once(command.to_string()).chain(self.opts.into_iter().flatten()).collect()
    }
}
