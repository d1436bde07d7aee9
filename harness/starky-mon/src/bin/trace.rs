//! P01: polynomial sets keep every column, row and name through files, and damaged files are refused.
//! The oracle is the layout itself: row after row, each value eight bytes, little end first.
use common::{gl_val, guard, in_child, Ended, Report, Rng, P};
use serde_json::json;
use starky::f3g::F3G;
use starky::polsarray::{PolKind, PolsArray};
use starky::types::PIL;
use starky_mon::ext::Coeffs;
use starky_mon::*;
use std::collections::BTreeMap;
use std::io::Write;

#[derive(Clone, Debug)]
struct Decl {
    ns: String,
    name: String,
    id: usize,
    len: Option<usize>,
}
struct Set {
    pil: PIL,
    decls: Vec<Decl>,
    commit: bool,
    width: usize,
    rows: usize,
    cols: Vec<Vec<u64>>,
}
const NS: [&str; 6] = ["Main", "Global", "Compressor", "A", "a", "Rom_0"];
fn kind(commit: bool) -> PolKind {
    if commit { PolKind::Commit } else { PolKind::Constant }
}
fn set(rng: &mut Rng, rows: usize, width: usize) -> Set {
    let commit = rng.chance(1, 2);
    let mut decls: Vec<Decl> = vec![];
    let mut id = 0;
    let spaces = rng.range(1, NS.len());
    while id < width {
        let len = if rng.chance(1, 3) { Some(rng.range(1, (width - id).min(12))) } else { None };
        let ns = NS[rng.range(0, spaces - 1)].to_string();
        // the same short names in several namespaces, names that are prefixes of others
        let name = match rng.below(3) {
            0 => format!("p{}", decls.len()),
            1 => format!("p{}_", decls.len()),
            _ => ["a", "b", "S", "C", "clk", "L1"][rng.range(0, 5)].to_string(),
        };
        if decls.iter().any(|d| d.ns == ns && d.name == name) {
            continue;
        }
        decls.push(Decl { ns, name, id, len });
        id += len.unwrap_or(1);
    }
    let mut refs = serde_json::Map::new();
    for d in &decls {
        let mut v = json!({"type": if commit {"cmP"} else {"constP"}, "id": d.id, "polDeg": rows, "isArray": d.len.is_some()});
        if let Some(l) = d.len {
            v["len"] = json!(l);
        }
        refs.insert(format!("{}.{}", d.ns, d.name), v);
    }
    // references of other kinds, with ids of their own
    let others = rng.range(0, 3);
    for k in 0..others {
        let t = if commit { "constP" } else { "cmP" };
        refs.insert(format!("Other.q{k}"), json!({"type": t, "id": k, "polDeg": rows, "isArray": false}));
    }
    if rng.chance(1, 3) {
        refs.insert("Main.im".into(), json!({"type": "imP", "id": 0, "polDeg": rows, "isArray": false}));
    }
    let (nc, nk) = if commit { (width, others) } else { (others, width) };
    let pil: PIL = serde_json::from_value(json!({"nCommitments": nc, "nConstants": nk, "nQ": 0, "nIm": 0, "publics": [], "references": refs, "expressions": [],
        "polIdentities": [], "plookupIdentities": [], "permutationIdentities": [], "connectionIdentities": []}))
    .unwrap();
    let cols = (0..width).map(|_| (0..rows).map(|_| gl_val(rng)).collect()).collect();
    Set { pil, decls, commit, width, rows, cols }
}
fn bytes(s: &Set) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.rows * s.width * 8);
    for i in 0..s.rows {
        for c in &s.cols {
            v.extend(c[i].to_le_bytes());
        }
    }
    v
}
fn filled(s: &Set) -> PolsArray {
    let mut a = PolsArray::new(&s.pil, kind(s.commit));
    for (c, v) in s.cols.iter().enumerate() {
        a.array[c] = fes(v);
    }
    a
}
fn same(a: &PolsArray, s: &Set) -> Result<(), String> {
    if a.array.len() != s.width || a.nPols != s.width || a.n != s.rows {
        return Err(format!("{} columns of {} rows", a.array.len(), a.n));
    }
    for (c, want) in s.cols.iter().enumerate() {
        let got = vals(&a.array[c]);
        if got != *want {
            let at = got.iter().zip(want).position(|(x, y)| x != y);
            return Err(format!("column {c} has {} rows, first difference at {at:?}", got.len()));
        }
    }
    Ok(())
}
/// takes a few bytes at a time, or fails after so many
struct Dribble {
    out: Vec<u8>,
    step: usize,
    room: usize,
}
impl Write for Dribble {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.room - self.out.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::other("full"));
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn shape(rng: &mut Rng) -> (usize, usize) {
    let mut rows = 1usize << match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => rng.range(9, 13),
        _ => rng.range(2, 8),
    };
    // the file format and the loader know no restriction on the number of rows
    if rng.chance(1, 3) {
        rows += rng.range(0, rows - 1);
    }
    if rng.chance(1, 60) {
        rows = (1usize << rng.range(14, 17)) + if rng.chance(1, 3) { 0 } else { rng.range(0, 20000) };
        return (rows, rng.range(1, 5));
    }
    let width = match rng.below(6) {
        0 => 1,
        1 => rng.range(12, 80),
        _ => rng.range(1, 12),
    };
    (rows, width)
}
fn describe(s: &Set) -> String {
    format!("{} columns of {} rows, declared {:?}", s.width, s.rows, s.decls)
}
fn names(r: &mut Report, rng: &mut Rng, s: &Set) {
    let mut a = filled(s);
    let mut want: BTreeMap<String, BTreeMap<String, Vec<usize>>> = BTreeMap::new();
    for d in &s.decls {
        let ids = (d.id..d.id + d.len.unwrap_or(1)).collect();
        want.entry(d.ns.clone()).or_default().insert(d.name.clone(), ids);
    }
    let got: BTreeMap<String, BTreeMap<String, Vec<usize>>> =
        a.def.iter().map(|(k, v)| (k.clone(), v.iter().map(|(k, v)| (k.clone(), v.clone())).collect())).collect();
    r.check("names", got == want, || format!("defined {got:?}; {}", describe(s)));
    for d in &s.decls {
        for k in 0..d.len.unwrap_or(1) {
            let p = &a.defArray[d.id + k];
            let full = format!("{}.{}", d.ns, d.name);
            let ok = p.name == full && p.id == d.id + k && p.polDeg == s.rows && p.idx == d.len.map(|_| k);
            r.check("definition", ok, || format!("column {} is {p:?}, declared {d:?}", d.id + k));
            let j = rng.range(0, s.rows - 1);
            r.check("id", a.get_pol_id(&s.pil, &d.ns, &d.name, k) == d.id + k, || format!("{d:?} {k}; {}", describe(s)));
            r.check("get", val(&a.get(&s.pil, &d.ns, &d.name, k, j)) == s.cols[d.id + k][j], || format!("{d:?} {k} row {j}; {}", describe(s)));
            let x = gl_val(rng);
            a.set_matrix(&s.pil, &d.ns, &d.name, k, j, fe(x));
            let mut t = s.cols[d.id + k].clone();
            t[j] = x;
            r.check("set", vals(&a.array[d.id + k]) == t, || format!("{d:?} {k} row {j}; {}", describe(s)));
            a.array[d.id + k][j] = fe(s.cols[d.id + k][j]);
            r.count("cells addressed by name", 1);
        }
    }
    let whole = same(&a, s);
    r.check("set", whole.is_ok(), || format!("another cell changed: {}; {}", whole.clone().unwrap_err(), describe(s)));
    let flat: Vec<F3G> = a.write_buff();
    let want: Vec<u64> = (0..s.rows).flat_map(|i| s.cols.iter().map(move |c| c[i])).collect();
    r.check("rows", flat.iter().map(|x| x.coeffs()[0]).eq(want) && flat.iter().all(|x| x.coeffs()[1..] == [0, 0]), || describe(s));
}
fn case(r: &mut Report, rng: &mut Rng, s: &Set) {
    r.beat(&describe(s));
    let dir = common::scratch();
    let path = format!("{dir}/trace");
    r.observe("shapes", &(s.width, s.rows));
    let want = bytes(s);
    // writing
    let a = filled(s);
    let f = std::fs::File::create(&path).unwrap();
    let ok = guard(|| a.save(f).map_err(|e| e.to_string()));
    r.check("save", ok == Ok(Ok(())), || format!("{ok:?}; {}", describe(s)));
    let got = std::fs::read(&path).unwrap();
    r.check("layout", got == want, || {
        format!("{} bytes written instead of {}, first difference at {:?}; {}", got.len(), want.len(), got.iter().zip(&want).position(|(x, y)| x != y), describe(s))
    });
    if want.len() < 1 << 20 {
        let mut w = Dribble { out: vec![], step: rng.range(1, 29), room: usize::MAX };
        let ok = guard(|| a.save(&mut w).map_err(|e| e.to_string()));
        r.check("save", ok == Ok(Ok(())) && w.out == want, || format!("slow writer: {ok:?}; {}", describe(s)));
        let room = rng.range(0, want.len() - 1);
        let mut w = Dribble { out: vec![], step: 4096, room };
        let ok = guard(|| a.save(&mut w).map_err(|e| e.to_string()));
        r.check("full-disk", !matches!(ok, Ok(Ok(()))), || format!("reported success with room for {room} of {} bytes; {}", want.len(), describe(s)));
        r.count("failing writers", 1);
    }
    // reading
    std::fs::write(&path, &want).unwrap();
    let mut b = PolsArray::new(&s.pil, kind(s.commit));
    let ok = guard(|| b.load(&path).map_err(|e| e.to_string()));
    r.check("load", ok == Ok(Ok(())), || format!("{ok:?}; {}", describe(s)));
    let x = same(&b, s);
    r.check("contents", x.is_ok(), || format!("{}; {}", x.clone().unwrap_err(), describe(s)));
    r.count("sets written and read", 1);
    if want.len() < 1 << 24 {
        names(r, rng, s);
    }
    if want.len() < 1 << 22 {
        pipe(r, rng, s, &want);
        damaged(r, rng, s, &want, &path);
    }
    r.case(&(s.width, s.rows, hash(&want)), true);
    if r.wants_sample() {
        r.sample(json!({"columns": s.width, "rows": s.rows, "declarations": s.decls.len(), "commit": s.commit}));
    }
}
fn hash(v: &[u8]) -> u64 {
    common::hash64(&v)
}
/// a file that gives what it has in small pieces
fn pipe(r: &mut Report, rng: &mut Rng, s: &Set, want: &[u8]) {
    if want.len() > 1 << 15 {
        return;
    }
    let path = format!("{}/fifo", common::scratch());
    let c = std::ffi::CString::new(path.clone()).unwrap();
    let _ = std::fs::remove_file(&path);
    assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
    // whole, or cut off
    let cut = if rng.chance(1, 2) { want.len() } else { rng.range(0, want.len() - 1) };
    let steps: Vec<usize> = (0..400).map(|_| rng.range(1, 40.max(want.len() / 60))).collect();
    let (p2, data) = (path.clone(), want[..cut].to_vec());
    let writer = std::thread::spawn(move || {
        let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&p2) else { return };
        let mut at = 0;
        for s in steps.iter().cycle() {
            if at >= data.len() {
                break;
            }
            let to = (at + s).min(data.len());
            if f.write_all(&data[at..to]).is_err() {
                break;
            }
            at = to;
            std::thread::yield_now();
        }
    });
    let ended = in_child(0, 20, || {
        let mut b = PolsArray::new(&s.pil, kind(s.commit));
        match guard(|| b.load(&path).map_err(|e| e.to_string())) {
            Ok(Ok(())) => match same(&b, s) {
                Ok(()) => b"same".to_vec(),
                Err(e) => e.into_bytes(),
            },
            _ => b"refused".to_vec(),
        }
    });
    let _ = writer.join();
    let _ = std::fs::remove_file(&path);
    if cut == want.len() {
        r.check("pieces", ended == Ended::Returned(b"same".to_vec()), || format!("a file read in pieces: {}; {}", show(&ended), describe(s)));
        r.count("files read in pieces", 1);
    } else {
        let ok = ended == Ended::Returned(b"refused".to_vec()) || ended == Ended::Panicked;
        r.check("pieces-cut", ok, || format!("{cut} of {} bytes, in pieces: {}; {}", want.len(), show(&ended), describe(s)));
        r.count("cut files read in pieces", 1);
    }
}
fn show(e: &Ended) -> String {
    match e {
        Ended::Returned(b) => String::from_utf8_lossy(b).to_string(),
        Ended::Timeout => "still reading after 20 s".into(),
        e => format!("{e:?}"),
    }
}
fn damaged(r: &mut Report, rng: &mut Rng, s: &Set, want: &[u8], path: &str) {
    let cuts: Vec<usize> = if want.len() <= 64 { (0..want.len()).collect() } else { vec![0, want.len() - 1, want.len() - 8, 8, rng.range(0, want.len() - 1), rng.range(0, want.len() / 8 - 1) * 8] };
    for cut in cuts {
        std::fs::write(path, &want[..cut]).unwrap();
        let ended = in_child(0, 20, || {
            let mut b = PolsArray::new(&s.pil, kind(s.commit));
            match guard(|| b.load(path).map_err(|e| e.to_string())) {
                Ok(Ok(())) => b"loaded".to_vec(),
                _ => b"refused".to_vec(),
            }
        });
        let ok = ended == Ended::Returned(b"refused".to_vec()) || ended == Ended::Panicked;
        r.check("truncated", ok, || format!("{cut} of {} bytes: {}; {}", want.len(), show(&ended), describe(s)));
        r.count("truncated files", 1);
        r.observe("bytes after the last whole value", &(cut % 8));
    }
    // a value that is not a field element
    let mut bad = want.to_vec();
    let k = rng.range(0, want.len() / 8 - 1);
    let x = match rng.below(3) {
        0 => P,
        1 => u64::MAX,
        _ => P + rng.below(u64::MAX - P),
    };
    bad[8 * k..8 * k + 8].copy_from_slice(&x.to_le_bytes());
    std::fs::write(path, &bad).unwrap();
    let mut b = PolsArray::new(&s.pil, kind(s.commit));
    let ok = guard(|| b.load(path).map_err(|e| e.to_string()));
    r.check("value", !matches!(ok, Ok(Ok(()))), || format!("value {x} at {k} loaded; {}", describe(s)));
    r.count("files with a value that is no field element", 1);
    let _ = std::fs::remove_file(path);
    let ok = guard(|| b.load(path).map_err(|e| e.to_string()));
    r.check("missing", !matches!(ok, Ok(Ok(()))), || "a missing file was loaded".to_string());
}
/// more than one buffer of 2^25 values
fn large(r: &mut Report, rng: &mut Rng, rows: usize, width: usize) {
    let mut s = set(rng, 2, width);
    s.rows = rows;
    let mut v = serde_json::to_value(&s.pil).unwrap();
    for x in v["references"].as_object_mut().unwrap().values_mut() {
        x["polDeg"] = json!(rows);
    }
    s.pil = serde_json::from_value(v).unwrap();
    s.cols = (0..width).map(|_| (0..rows).map(|_| rng.u64() >> 1).collect()).collect();
    case(r, rng, &s);
    r.count("sets larger than the buffer", 1);
}
fn run(r: &mut Report) {
    let mut rng = r.rng.fork();
    while r.more_time(1.0) {
        let (rows, width) = shape(&mut rng);
        let s = set(&mut rng, rows, width);
        case(r, &mut rng, &s);
    }
}
fn main() {
    let rule = "a case is a set of polynomials, its declarations and its file; distinct by shape and contents";
    let mut r = Report::new("P01", rule, (12, 300));
    r.assume("all columns of a program have the same number of rows");
    r.workers(6, run);
    let mut rng = r.rng.fork();
    // sizes around the 2^25 values of the buffer
    large(&mut r, &mut rng, 1 << 22, 9);
    large(&mut r, &mut rng, (1 << 18) + 1, 3);
    large(&mut r, &mut rng, (1 << 20) - 1, 2);
    if common::thorough() {
        for w in [8, 7, 16, 17, 25] {
            large(&mut r, &mut rng, 1 << 22, w);
        }
        large(&mut r, &mut rng, 1 << 25, 1);
        large(&mut r, &mut rng, (1 << 23) + 3, 5);
        large(&mut r, &mut rng, (1 << 22) + 1, 16);
        large(&mut r, &mut rng, 1 << 20, 33);
    }
    r.finish()
}
