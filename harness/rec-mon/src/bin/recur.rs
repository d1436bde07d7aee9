//! C02: the recursion arithmetization accepts exactly the valid witnesses.
//! C03: execution tables round-trip.
use common::{gl, gl_val, in_child, scratch, Ended, Report};
use fields::field_gl::GL;
use r1cs_mon::echo;
use rec_mon::*;
use recursion::compressor12::{compressor12_exec::exec, compressor12_setup::setup};
use recursion::pilcom::compile_pil_from_path;
use recursion::r1cs2plonk::r1cs2plonk;
use serde_json::json;
use starky::types::PIL;
use starky_mon::pilref::{connections, Trace};
use std::collections::BTreeMap;

struct Paths {
    r1cs: String,
    pil: String,
    consts: String,
    exec: String,
    wasm: String,
    input: String,
    cm: String,
}
fn paths(dir: &str) -> Paths {
    let f = |n: &str| format!("{dir}/{n}");
    Paths { r1cs: f("c.r1cs"), pil: f("c.pil"), consts: f("c.const"), exec: f("c.exec"), wasm: f("c.wasm"), input: f("in.json"), cm: f("c.cm") }
}
/// row-major little-endian columns
fn columns(path: &str, cols: usize) -> Vec<Vec<u64>> {
    let b = std::fs::read(path).unwrap();
    let v: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    (0..cols).map(|c| v.iter().skip(c).step_by(cols).copied().collect()).collect()
}
fn write_wasm(p: &Paths, inputs: usize) {
    let prime = [1u32, 0xffffffff];
    std::fs::write(&p.wasm, echo::module(&prime, &[("w".to_string(), inputs as u32)], 2)).unwrap();
}
fn run_exec(p: &Paths, w: &[u64]) -> Result<(), String> {
    let v: Vec<String> = w[1..].iter().map(|x| x.to_string()).collect();
    std::fs::write(&p.input, json!({ "w": v }).to_string()).unwrap();
    let _ = std::fs::remove_file(&p.cm);
    apart(16384, || exec(&p.input, &p.wasm, &p.pil, &p.exec, &p.cm))
}
fn run_setup(p: &Paths, force: usize) -> Result<(), String> {
    apart(6144, || setup(&p.r1cs, &p.pil, &p.consts, &p.exec, force))
}
/// in a process of its own, so that a runaway allocation is an observation and not the end of the monitor
fn apart<E: std::fmt::Display>(limit_mb: u64, f: impl FnOnce() -> Result<(), E>) -> Result<(), String> {
    let say = |f| match common::guard(f) {
        Ok(Ok(())) => String::new(),
        Ok(Err::<(), E>(e)) => format!("error {e}"),
        Err(e) => format!("panic: {e}"),
    };
    match in_child(limit_mb, 120, || say(f).into_bytes()) {
        Ended::Returned(m) if m.is_empty() => Ok(()),
        Ended::Returned(m) => Err(String::from_utf8_lossy(&m).into()),
        Ended::Panicked => Err("panicked".into()),
        Ended::Signal(n) => Err(format!("died of signal {n} (6: out of the {limit_mb} MB given)")),
        Ended::Timeout => Err("did not end within 120 s".into()),
    }
}
struct Table {
    adds: Vec<[u64; 4]>,
    rows: Vec<[u64; 12]>,
}
fn table(path: &str) -> Option<Table> {
    let v: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(path).ok()?).ok()?;
    let (a, s) = (*v.first()? as usize, *v.get(1)? as usize);
    if v.len() != 2 + 4 * a + 12 * s {
        return None;
    }
    Some(Table {
        adds: v[2..2 + 4 * a].chunks(4).map(|c| c.try_into().unwrap()).collect(),
        rows: v[2 + 4 * a..].chunks(12).map(|c| c.try_into().unwrap()).collect(),
    })
}
/// What a coefficient of 1 in a table stands for, as exec reads it: tables hold coefficients in the
/// field's internal form, which is nobody else's business.
static UNIT: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
fn probe(rep: &mut Report, p: &Paths) {
    std::fs::write(&p.pil, "let N: int = 2**1;\nnamespace Compressor(N);\n    pol commit a[12];\n    a[0] - a[0] = 0;\n").unwrap();
    write_wasm(p, 1);
    std::fs::write(&p.exec, "[1,1,1,1,1,0,2,0,0,0,0,0,0,0,0,0,0,0]").unwrap();
    let unit = match run_exec(p, &[1, 1]) {
        Ok(()) => columns(&p.cm, 12)[0][0],
        Err(e) => {
            rep.violation("exec", format!("the smallest table: {e}"));
            1
        }
    };
    rep.note("coefficient unit", json!(unit));
    UNIT.set(unit).unwrap();
}
fn unmont(x: u64) -> u64 {
    gl::mul(x, *UNIT.get().unwrap())
}
fn mont(x: u64) -> u64 {
    gl::mul(x, gl::inv(*UNIT.get().unwrap()))
}

fn arith(rep: &mut Report) {
    let p = paths(&scratch());
    probe(rep, &p);
    let mut n = 0u64;
    while rep.more_time(1.0) {
        n += 1;
        let m = if n % 17 == 0 { 120 } else { rep.rng.range(0, 14) };
        let gates = rep.rng.chance(2, 3);
        let uses = rep.rng.range(0, 5);
        let o = Opts { constraints: m, gates, uses, max_terms: if n % 30 == 13 { 1 << rep.rng.range(4, 9) } else { rep.rng.range(3, 9) }, palette: rep.rng.chance(1, 2) };
        let (mut c, mut w) = random(&mut rep.rng, &o);
        if n % 40 == 3 {
            // wires beyond 2^16
            let by = rep.rng.range(65500, 70000);
            spread(&mut rep.rng, &mut c, &mut w, by);
        }
        if n % 20 == 7 {
            scatter(&mut rep.rng, &mut c, &mut w);
        }
        rep.case(&c, true);
        assert!(c.broken(&w).is_empty(), "the generator's circuit");
        std::fs::write(&p.r1cs, c.file()).unwrap();
        write_wasm(&p, c.n_wires - 1);
        let force = if rep.rng.chance(1, 6) { 10 } else { 0 };
        match run_setup(&p, force) {
            Ok(()) => {}
            x => {
                rep.violation("setup", format!("setup of a well-formed circuit: {x:?}; {c:?}"));
                continue;
            }
        }
        let Some(pil) = rep.must("pil", || "the generated PIL".into(), || compile_pil_from_path(&p.pil)) else { continue };
        let k = columns(&p.consts, pil.nConstants);
        let rows = k[0].len();
        rep.observe("size", &(rows, c.publics(), c.uses.len()));
        let Some(t) = table(&p.exec) else {
            rep.violation("table", "the execution table's length is not what its header says");
            continue;
        };
        structure(rep, &c, &pil, &k, &t);
        let mut todo = vec![w.clone()];
        for _ in 0..3 {
            todo.push(altered(&mut rep.rng, &w));
        }
        if let Some((_, sig)) = c.uses.last() {
            // one signal of a custom gate
            let mut v = w.clone();
            let i = *rep.rng.pick(sig);
            v[i] = gl::add(v[i], 1);
            todo.push(v);
        }
        for (i, v) in todo.iter().enumerate() {
            match run_exec(&p, v) {
                Ok(()) => {}
                x => {
                    rep.violation("exec", format!("{x:?}; {c:?}"));
                    break;
                }
            }
            let cm = columns(&p.cm, pil.nCommitments);
            let mut tr = Trace::new(&pil, &k, &cm, &[]);
            let pubs = tr.selected_publics();
            rep.check("publics", pubs == v[1..=c.publics()], || format!("the PIL exposes {pubs:?}, the public signals are {:?}", &v[1..=c.publics()]));
            let broken = Trace::new(&pil, &k, &cm, &pubs).broken();
            let want = c.broken(v);
            rep.count(if want.is_empty() { "satisfying traces" } else { "violating traces" }, 1);
            rep.observe("broken", &want);
            let key = if i == 0 { "complete" } else { "iff" };
            rep.check(key, want.is_empty() == broken.is_empty(), || format!("the witness breaks {want:?}, its trace breaks {broken:?}; {c:?} {v:?}"));
            if !want.is_empty() || !broken.is_empty() || t.rows.is_empty() {
                continue;
            }
            // a satisfying trace with one wire's cells changed consistently, additions included
            for _ in 0..3 {
                let row = rep.rng.range(0, t.rows.len() - 1);
                let wire = t.rows[row][rep.rng.below(12) as usize] as usize;
                if wire == 0 {
                    continue;
                }
                let mut ext = v.clone();
                for a in &t.adds {
                    ext.push(gl::add(gl::mul(ext[a[0] as usize], unmont(a[2])), gl::mul(ext[a[1] as usize], unmont(a[3]))));
                }
                let new = gl::add(ext[wire], 1 + rep.rng.below(99));
                ext[wire] = new;
                let mut cm2 = cm.clone();
                for (i, r) in t.rows.iter().enumerate() {
                    for j in 0..12 {
                        if r[j] as usize == wire {
                            cm2[j][i] = new;
                        }
                    }
                }
                let adds_ok = t.adds.iter().enumerate().all(|(i, a)| {
                    ext[c.n_wires + i] == gl::add(gl::mul(ext[a[0] as usize], unmont(a[2])), gl::mul(ext[a[1] as usize], unmont(a[3])))
                });
                let want = c.broken(&ext[..c.n_wires]).is_empty() && adds_ok;
                let pubs2 = Trace::new(&pil, &k, &cm2, &[]).selected_publics();
                let got = Trace::new(&pil, &k, &cm2, &pubs2).broken();
                rep.count("altered wires", 1);
                rep.check("wire", want == got.is_empty(), || format!("wire {wire} of the trace altered: expected satisfied = {want}, broken {got:?}; {c:?}"));
                // and with one cell only: a copy constraint, unless it is the wire's only cell
                let mut cm3 = cm.clone();
                let (i, j) = (row, t.rows[row].iter().position(|x| *x as usize == wire).unwrap());
                cm3[j][i] = new;
                let cells = t.rows.iter().flatten().filter(|x| **x as usize == wire).count();
                if cells > 1 {
                    let pubs3 = Trace::new(&pil, &k, &cm3, &[]).selected_publics();
                    let got = Trace::new(&pil, &k, &cm3, &pubs3).broken();
                    rep.count("altered cells", 1);
                    rep.check("cell", !got.is_empty(), || format!("cell ({i},{j}) of wire {wire} altered alone and nothing broken; {c:?}"));
                }
            }
        }
        if rep.wants_sample() && n % 5 == 0 {
            rep.sample(json!({"constraints": c.constraints.len(), "gates": c.gates, "uses": c.uses.len(), "publics": c.publics(), "rows": rows, "used": t.rows.len()}));
        }
    }
}

/// the copy constraints tie exactly the cells of one wire together
fn structure(rep: &mut Report, c: &Circ, pil: &PIL, k: &[Vec<u64>], t: &Table) {
    let id = pil.references["Compressor.S"].id;
    let n = k[0].len();
    let Some(to) = connections(&k[id..id + 12]) else {
        rep.violation("sigma", format!("the copy constraints are no permutation of the cells; {c:?}"));
        return;
    };
    let mut wire = vec![0u64; 12 * n];
    for (i, r) in t.rows.iter().enumerate() {
        for j in 0..12 {
            wire[j * n + i] = r[j];
        }
    }
    // cycle of each cell
    let mut cycle = vec![usize::MAX; 12 * n];
    for s in 0..12 * n {
        let mut x = s;
        while cycle[x] == usize::MAX {
            cycle[x] = s;
            x = to[x];
        }
    }
    let mut of_wire: BTreeMap<u64, usize> = BTreeMap::new();
    let mut of_cycle: BTreeMap<usize, u64> = BTreeMap::new();
    let mut ok = true;
    for s in 0..12 * n {
        if wire[s] == 0 {
            ok &= to[s] == s;
        } else {
            ok &= *of_wire.entry(wire[s]).or_insert(cycle[s]) == cycle[s];
            ok &= *of_cycle.entry(cycle[s]).or_insert(wire[s]) == wire[s];
        }
    }
    rep.count("wires with copies", of_wire.len() as u64);
    rep.check("sigma", ok, || format!("the copy constraints do not tie exactly the cells of each wire; {c:?}"));
}

fn tables(rep: &mut Report) {
    let p = paths(&scratch());
    probe(rep, &p);
    let mut n = 0u64;
    while rep.more_time(1.0) {
        n += 1;
        if n % 2 == 0 {
            written(rep, &p, n);
        } else {
            read_back(rep, &p, n);
        }
    }
}
/// the table setup writes holds the additions of the conversion and is the one exec uses
fn written(rep: &mut Report, p: &Paths, n: u64) {
    let m = if n % 20 == 0 { 600 } else { rep.rng.range(0, 20) };
    let o = Opts { constraints: m, gates: false, uses: 0, max_terms: 12, palette: false };
    let (mut c, mut w) = random(&mut rep.rng, &o);
    if n % 60 == 10 {
        // wires beyond 2^16
        let by = rep.rng.range(65500, 70000);
        spread(&mut rep.rng, &mut c, &mut w, by);
    }
    rep.case(&c, true);
    std::fs::write(&p.r1cs, c.file()).unwrap();
    write_wasm(p, c.n_wires - 1);
    if let Err(e) = run_setup(p, 0) {
        rep.violation("setup", format!("setup of a well-formed circuit: {e}; {c:?}"));
        return;
    }
    let Some(t) = table(&p.exec) else {
        rep.violation("table", "the execution table's length is not what its header says");
        return;
    };
    let (r1cs, _) = algebraic::reader::load_r1cs_from_bin::<_, GL>(std::io::Cursor::new(c.file()));
    let (gates, adds) = r1cs2plonk(&r1cs);
    let want: Vec<[u64; 4]> = adds.iter().map(|a| [a.0 as u64, a.1 as u64, mont(starky_mon::val(&a.2)), mont(starky_mon::val(&a.3))]).collect();
    rep.count("additions written", adds.len() as u64);
    rep.check("additions", t.adds == want, || format!("{:?} written, {want:?} expected", t.adds));
    // every gate of the conversion has its three wires side by side somewhere
    let have: std::collections::HashSet<[u64; 3]> =
        t.rows.iter().flat_map(|r| (0..4).map(|k| [r[3 * k], r[3 * k + 1], r[3 * k + 2]])).collect();
    let missing = gates.iter().find(|g| !have.contains(&[g.0 as u64, g.1 as u64, g.2 as u64]));
    rep.count("gates written", gates.len() as u64);
    rep.check("map", missing.is_none(), || format!("gate {missing:?} has no place in the signal map"));
    match run_exec(p, &w) {
        Ok(()) => compare(rep, p, &t, &w),
        x => rep.violation("exec", format!("{x:?}; {c:?}")),
    }
}
fn compare(rep: &mut Report, p: &Paths, t: &Table, w: &[u64]) {
    let mut ext = w.to_vec();
    for a in &t.adds {
        ext.push(gl::add(gl::mul(ext[a[0] as usize], unmont(a[2])), gl::mul(ext[a[1] as usize], unmont(a[3]))));
    }
    let cm = columns(&p.cm, 12);
    let bad = (0..cm[0].len()).flat_map(|i| (0..12).map(move |j| (i, j))).find(|(i, j)| {
        let want = t.rows.get(*i).map_or(0, |r| if r[*j] == 0 { 0 } else { ext[r[*j] as usize] });
        cm[*j][*i] != want
    });
    rep.count("cells compared", cm[0].len() as u64 * 12);
    rep.check("read", bad.is_none(), || format!("cell {bad:?} is not the one the table ({} additions, {} rows) prescribes", t.adds.len(), t.rows.len()));
}
/// any table is read back as it stands; a shortened one is refused
fn read_back(rep: &mut Report, p: &Paths, n: u64) {
    let r = &mut rep.rng;
    let bits = r.range(1, if n % 15 == 0 { 11 } else { 6 });
    let rows = match r.below(4) {
        0 => 0,
        1 => 1 << bits,
        _ => r.range(0, 1 << bits),
    };
    let n_w = if n % 50 == 7 { r.range(65530, 66000) } else { r.range(2, 40) };
    let mut w = vec![1];
    w.extend((1..n_w).map(|_| gl_val(r)));
    let n_adds = if r.chance(1, 4) { 0 } else { r.range(1, 60) };
    let adds: Vec<[u64; 4]> =
        (0..n_adds).map(|i| [r.below((n_w + i) as u64), r.below((n_w + i) as u64), gl_val(r), gl_val(r)]).collect();
    let t = Table { adds, rows: (0..rows).map(|_| std::array::from_fn(|_| if r.chance(1, 4) { 0 } else { r.below((n_w + n_adds) as u64) })).collect() };
    let pil = format!("let N: int = 2**{bits};\nnamespace Compressor(N);\n    pol commit a[12];\n    a[0] - a[0] = 0;\n");
    std::fs::write(&p.pil, pil).unwrap();
    write_wasm(p, n_w - 1);
    let mut v = vec![t.adds.len() as u64, t.rows.len() as u64];
    v.extend(t.adds.iter().flatten());
    v.extend(t.rows.iter().flatten());
    let text = serde_json::to_string(&v).unwrap();
    std::fs::write(&p.exec, &text).unwrap();
    rep.case(&v, true);
    rep.observe("table size", &(n_adds, rows));
    match run_exec(p, &w) {
        Ok(()) => compare(rep, p, &t, &w),
        x => rep.violation("exec", format!("a well-formed table was refused: {x:?}")),
    }
    // cut short: anywhere in the text, or after whole entries
    for k in 0..6 {
        let cut = if k < 3 {
            text[..rep.rng.below(text.len() as u64) as usize].to_string()
        } else {
            let keep = if k == 3 { v.len() - 1 } else { rep.rng.below(v.len() as u64) as usize };
            serde_json::to_string(&v[..keep]).unwrap()
        };
        std::fs::write(&p.exec, &cut).unwrap();
        rep.count("truncated tables", 1);
        rep.check("truncated", run_exec(p, &w).is_err(), || format!("a table cut from {} to {} bytes was used: {}", text.len(), cut.len(), &cut[..cut.len().min(200)]));
    }
    if rep.wants_sample() && n % 5 == 0 {
        rep.sample(json!({"additions": n_adds, "rows": rows, "of": 1 << bits}));
    }
}

fn main() {
    let prop = std::env::args().nth(1).unwrap();
    if prop == "C02" {
        let mut rep = Report::new(
            "C02",
            "setup and exec are run on generated circuits (with and without custom gates) and echo witnesses; the committed trace is evaluated row by row against the generated PIL and constants, and compared with the circuit and its gates evaluated directly; copy constraints are compared with the signal map cell by cell; traces with altered wires and cells",
            (35, 500),
        );
        rep.assume("the PIL text is analysed by the stand-in for powdr in /verif/shims, and exported by /repo's own exporter");
        arith(&mut rep);
        rep.finish()
    }
    let mut rep = Report::new(
        "C03",
        "execution tables written by setup are decoded and compared with the conversion; generated tables of every shape are given to exec and the committed cells compared with those the table prescribes; shortened tables must be refused",
        (20, 300),
    );
    tables(&mut rep);
    rep.finish()
}
