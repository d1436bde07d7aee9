//! D03: programs, parameters and setups that are stored and read back.
use common::{guard, Report, Rng, P};
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use serde_json::{json, Map, Value};
use starky::traits::MerkleTree;
use starky::types::{load_json, parse_pil_number, read_json, StarkStruct, PIL};
use starky_mon::backend::*;
use starky_mon::pilgen::{brief, program, Prog};
use starky_mon::starks::*;

/// absent and null mean the same; a map kept as a list of pairs has no order
fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), norm(v))).collect()),
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(norm).collect();
            if a.iter().all(|e| matches!(e, Value::Array(p) if p.len() == 2 && p[0].is_array() && p[1].is_u64())) {
                a.sort_by_key(|e| e.to_string());
            }
            Value::Array(a)
        }
        v => v.clone(),
    }
}
fn place(name: &str) -> String {
    format!("{}/{name}", common::scratch())
}

// ---- numbers in programs

fn numbers(r: &mut Report, rng: &mut Rng) {
    let p = BigInt::from(P);
    let base = match rng.below(6) {
        0 => BigInt::from(rng.below(20)),
        1 => &p * BigInt::from(rng.below(5)) + BigInt::from(rng.below(5)) - BigInt::from(2),
        2 => BigInt::from(rng.u64()),
        3 => (BigInt::from(1) << rng.below(126)) + BigInt::from(rng.below(3)) - BigInt::from(1),
        4 => (BigInt::from(rng.u64() >> 1) << 64) + BigInt::from(rng.u64()),
        _ => BigInt::from(u64::MAX) + BigInt::from(rng.below(3)) - BigInt::from(1),
    };
    let neg = rng.chance(1, 3);
    let hex = !neg && rng.chance(1, 3) && base >= BigInt::from(0);
    let (v, text) = if neg { (-&base, (-&base).to_string()) } else if hex { (base.clone(), format!("0x{:x}", base)) } else { (base.clone(), base.to_string()) };
    let want = (((&v % &p) + &p) % &p).to_u64().unwrap();
    let got = guard(|| parse_pil_number(&text));
    r.check("number", got == Ok(want), || format!("the number {text} is read as {got:?}, it stands for {want}"));
    r.case(&("number", &text), true);
    r.count(if neg { "negative numbers" } else if hex { "hexadecimal numbers" } else { "numbers" }, 1);
}
fn not_numbers(r: &mut Report) {
    for t in ["", "-", "0x", "1.5", "ten", "1e3", "0xg1", "1 2", "12a", "--1", "0b11"] {
        let got = guard(|| parse_pil_number(t));
        r.check("not-a-number", got.is_err(), || format!("{t:?} is read as the number {got:?}"));
        r.case(&("not a number", t), true);
    }
}

// ---- documents built without the library

const OPS: [&str; 9] = ["add", "sub", "mul", "neg", "cm", "const", "number", "public", "exp"];

fn maybe(rng: &mut Rng, m: &mut Map<String, Value>, k: &str, v: Value) {
    match rng.below(4) {
        0 => {}
        1 => {
            m.insert(k.into(), Value::Null);
        }
        _ => {
            m.insert(k.into(), v);
        }
    }
}
fn small(rng: &mut Rng) -> Value {
    json!(match rng.below(8) {
        0 => u32::MAX as u64 + rng.below(9),
        1 => (1 << 53) + rng.below(9),
        _ => rng.below(70),
    })
}
fn word(rng: &mut Rng) -> String {
    const W: [&str; 12] = ["Main.a", "Main.b", "Arith.x", "é.ü", "\"quoted\"", "a b", "", "Global.L1", "Main.arr", "\\", "\u{1F600}", "line\nbreak"];
    format!("{}{}", rng.pick(&W), rng.below(30))
}
fn expr(rng: &mut Rng, depth: usize) -> Value {
    let mut m = Map::new();
    m.insert("op".into(), json!(*rng.pick(&OPS)));
    m.insert("deg".into(), small(rng));
    let v = small(rng);
    maybe(rng, &mut m, "id", v);
    for k in ["next", "keep", "keep2ns"] {
        let v = json!(rng.chance(1, 2));
        maybe(rng, &mut m, k, v);
    }
    let v = json!(rng.u64().to_string());
    maybe(rng, &mut m, "value", v);
    let v = small(rng);
    maybe(rng, &mut m, "idQ", v);
    let v = json!(rng.u64() as i64);
    maybe(rng, &mut m, "const_", v);
    if depth > 0 {
        let n = rng.below(3);
        let v = Value::Array((0..n).map(|_| expr(rng, depth - 1)).collect());
        maybe(rng, &mut m, "values", v);
    }
    Value::Object(m)
}
fn list(rng: &mut Rng, n: u64, mut f: impl FnMut(&mut Rng) -> Value) -> Value {
    let n = rng.below(n + 1);
    Value::Array((0..n).map(|_| f(rng)).collect())
}
fn document(rng: &mut Rng) -> Value {
    let ids = |rng: &mut Rng| list(rng, 4, small);
    let ident = |rng: &mut Rng, pairs: [&str; 2], sel: bool| {
        let mut m = Map::new();
        for k in pairs {
            let v = ids(rng);
            maybe(rng, &mut m, k, v);
        }
        if sel {
            for k in ["selF", "selT"] {
                let v = small(rng);
                maybe(rng, &mut m, k, v);
            }
        }
        m.insert("fileName".into(), json!(word(rng)));
        m.insert("line".into(), small(rng));
        Value::Object(m)
    };
    let mut d = Map::new();
    for k in ["nCommitments", "nQ", "nIm", "nConstants"] {
        d.insert(k.into(), small(rng));
    }
    let v = list(rng, 4, |r| json!({"polType": "cmP", "polId": small(r), "idx": small(r), "id": small(r), "name": word(r)}));
    d.insert("publics".into(), v);
    let mut refs = Map::new();
    for _ in 0..rng.below(8) {
        let mut m = Map::new();
        let v = json!("x");
        maybe(rng, &mut m, "polType", v);
        m.insert("type".into(), json!(*rng.pick(&["cmP", "constP", "imP"])));
        m.insert("id".into(), small(rng));
        m.insert("polDeg".into(), small(rng));
        m.insert("isArray".into(), json!(rng.chance(1, 2)));
        let v = json!(*rng.pick(&["field", "u8", "s64", "bool"]));
        maybe(rng, &mut m, "elementType", v);
        let v = small(rng);
        maybe(rng, &mut m, "len", v);
        refs.insert(word(rng), Value::Object(m));
    }
    // one polynomial under several names
    for _ in 0..rng.below(3) {
        let at = rng.below(refs.len().max(1) as u64) as usize;
        if let Some(v) = refs.values().nth(at).cloned() {
            refs.insert(word(rng), v);
        }
    }
    d.insert("references".into(), Value::Object(refs));
    let v = list(rng, 6, |r| expr(r, 3));
    d.insert("expressions".into(), v);
    let v = list(rng, 4, |r| json!({"e": small(r), "fileName": word(r), "line": small(r)}));
    d.insert("polIdentities".into(), v);
    let v = list(rng, 3, |r| ident(r, ["f", "t"], true));
    d.insert("plookupIdentities".into(), v);
    let v = list(rng, 3, |r| ident(r, ["f", "t"], true));
    maybe(rng, &mut d, "permutationIdentities", v);
    let v = list(rng, 3, |r| ident(r, ["pols", "connections"], false));
    maybe(rng, &mut d, "connectionIdentities", v);
    Value::Object(d)
}
/// the program as a document again, taken from the public fields one by one
fn walk(p: &PIL) -> Value {
    fn e(x: &starky::types::Expression) -> Value {
        json!({"op": x.op, "deg": x.deg, "id": x.id, "next": x.next, "value": x.value, "keep": x.keep, "keep2ns": x.keep2ns, "idQ": x.idQ, "const_": x.const_,
            "values": x.values.as_ref().map(|v| v.iter().map(e).collect::<Vec<_>>())})
    }
    json!({
        "nCommitments": p.nCommitments, "nQ": p.nQ, "nIm": p.nIm, "nConstants": p.nConstants,
        "publics": p.publics.iter().map(|x| json!({"polType": x.polType, "polId": x.polId, "idx": x.idx, "id": x.id, "name": x.name})).collect::<Vec<_>>(),
        "references": p.references.iter().map(|(k, x)| (k.clone(), json!({"polType": x.polType, "type": x.type_, "id": x.id, "polDeg": x.polDeg, "isArray": x.isArray, "elementType": x.elementType, "len": x.len}))).collect::<Map<_, _>>(),
        "expressions": p.expressions.iter().map(e).collect::<Vec<_>>(),
        "polIdentities": p.polIdentities.iter().map(|x| json!({"e": x.e, "fileName": x.fileName, "line": x.line})).collect::<Vec<_>>(),
        "plookupIdentities": p.plookupIdentities.iter().map(|x| json!({"f": x.f, "t": x.t, "selF": x.selF, "selT": x.selT, "fileName": x.fileName, "line": x.line})).collect::<Vec<_>>(),
        "permutationIdentities": p.permutationIdentities.as_ref().map(|v| v.iter().map(|x| json!({"f": x.f, "t": x.t, "selF": x.selF, "selT": x.selT, "fileName": x.fileName, "line": x.line})).collect::<Vec<_>>()),
        "connectionIdentities": p.connectionIdentities.as_ref().map(|v| v.iter().map(|x| json!({"pols": x.pols, "connections": x.connections, "fileName": x.fileName, "line": x.line})).collect::<Vec<_>>()),
    })
}
fn next_flags(d: &Value, x: &starky::types::Expression, ok: &mut bool) {
    *ok &= x.next() == (d["next"] == json!(true));
    if let (Some(a), Some(b)) = (d["values"].as_array(), &x.values) {
        for (a, b) in a.iter().zip(b) {
            next_flags(a, b, ok);
        }
    }
}
/// the members a program document cannot lack, by the kind of the object that has them
const REQUIRED: [(&str, &[&str]); 7] = [
    ("", &["nCommitments", "nQ", "nIm", "nConstants", "publics", "references", "expressions", "polIdentities", "plookupIdentities"]),
    ("publics", &["polType", "polId", "idx", "id", "name"]),
    ("references", &["type", "id", "polDeg", "isArray"]),
    ("expressions", &["op", "deg"]),
    ("polIdentities", &["e"]),
    ("values", &["op", "deg"]),
    ("connectionIdentities", &[]),
];
fn spoil(rng: &mut Rng, d: &mut Value) -> Option<String> {
    let (kind, keys) = rng.pick(&REQUIRED);
    if keys.is_empty() {
        return None;
    }
    let o = match *kind {
        "" => d,
        "references" => {
            let m = d["references"].as_object_mut()?;
            if m.is_empty() {
                return None;
            }
            let i = rng.below(m.len() as u64) as usize;
            m.values_mut().nth(i)?
        }
        "values" => {
            let a = d["expressions"].as_array_mut()?;
            let e = a.iter_mut().find(|e| e["values"].as_array().is_some_and(|v| !v.is_empty()))?;
            &mut e["values"][0]
        }
        k => {
            let a = d[k].as_array_mut()?;
            if a.is_empty() {
                return None;
            }
            let i = rng.below(a.len() as u64) as usize;
            &mut a[i]
        }
    };
    let k = *rng.pick(keys);
    let m = o.as_object_mut()?;
    let how = rng.below(4);
    let was = m.get(k)?.clone();
    let text = match how {
        0 => {
            m.remove(k);
            "removed"
        }
        1 => {
            m.insert(k.into(), Value::Null);
            "made null"
        }
        2 => {
            m.insert(k.into(), if was.is_u64() { json!(was.to_string()) } else { json!(7) });
            "of another type"
        }
        _ => {
            m.insert(k.into(), if was.is_u64() { json!(-1) } else { json!(1.5) });
            "out of range"
        }
    };
    Some(format!("{kind}.{k} {text}"))
}
fn documents(r: &mut Report, rng: &mut Rng) {
    let d = document(rng);
    let text = if rng.chance(1, 2) { d.to_string() } else { serde_json::to_string_pretty(&d).unwrap() };
    let file = place("program.json");
    std::fs::write(&file, &text).unwrap();
    let read = flat(guard(|| load_json::<PIL>(&file)));
    let pil = match read {
        Ok(p) => p,
        Err(e) => {
            r.violation("program-not-read", &format!("a well-formed program is not read ({e}): {text:.400}"));
            return;
        }
    };
    let want = norm(&d);
    let got = norm(&walk(&pil));
    r.check("program-read", got == want, || format!("a program reads as something else: {} became {}", first_diff(&want, &got), text.len()));
    let mut ok = true;
    for (a, b) in d["expressions"].as_array().unwrap().iter().zip(&pil.expressions) {
        next_flags(a, b, &mut ok);
    }
    r.check("next", ok, || format!("whether an expression looks at the next row is read wrongly: {:.400}", d["expressions"]));
    // writing it again
    let (a, b) = (guard(|| serde_json::to_string(&pil).unwrap()), guard(|| pil.to_string()));
    for (how, t) in [("serialised", &a), ("printed", &b)] {
        let back = t.as_ref().ok().and_then(|t| serde_json::from_str::<Value>(t).ok());
        r.check("program-written", back.as_ref().is_some_and(|b| norm(b) == want), || format!("a program {how} is something else: {}", back.map_or("no JSON at all".into(), |b| first_diff(&want, &norm(&b)))));
    }
    let again = guard(|| serde_json::to_string(&pil.clone()).unwrap());
    r.check("program-text", a == again, || "the same program is written in two ways".into());
    if let Ok(t) = &a {
        let back = flat(guard(|| read_json::<PIL>(t.clone())));
        r.check("program-back", back.as_ref().is_ok_and(|b| norm(&walk(b)) == want), || "a program that was written does not read back".into());
    }
    r.case(&("document", text.clone()), true);
    r.count("program documents", 1);
    // spoilt documents
    for _ in 0..3 {
        let mut x = d.clone();
        if let Some(what) = spoil(rng, &mut x) {
            if serde_json::to_string(&x).unwrap() == d.to_string() {
                continue;
            }
            let got = flat(guard(|| read_json::<PIL>(x.to_string())));
            r.check("spoilt", got.is_err(), || format!("a program with {what} is read"));
            r.count("spoilt documents", 1);
            r.case(&("spoilt", what, text.clone()), true);
        }
    }
    let t = d.to_string();
    let mut cut = rng.below(t.len() as u64) as usize;
    while !t.is_char_boundary(cut) {
        cut -= 1;
    }
    for (what, s) in [("cut short", t[..cut].to_string()), ("followed by more", format!("{t}{}", rng.pick(&["}", "x", "{}", ",", "0"])))] {
        std::fs::write(&file, &s).unwrap();
        let got = flat(guard(|| load_json::<PIL>(&file)));
        r.check("spoilt", got.is_err(), || format!("a program {what} is read: {:.200}", s));
        r.count("spoilt texts", 1);
    }
    std::fs::remove_file(&file).unwrap();
    let got = flat(guard(|| load_json::<PIL>(&file)));
    r.check("missing", got.is_err(), || "a file that is not there is read".into());
}
fn first_diff(a: &Value, b: &Value) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                let (p, q) = (x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null));
                if p != q {
                    return format!("{k}: {}", first_diff(p, q));
                }
            }
            "equal".into()
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            let i = (0..x.len()).find(|&i| x[i] != y[i]);
            i.map_or("equal".into(), |i| format!("[{i}] {}", first_diff(&x[i], &y[i])))
        }
        _ => format!("{:.120} / {:.120}", a.to_string(), b.to_string()),
    }
}
fn params(r: &mut Report, rng: &mut Rng) {
    let n = rng.below(7);
    let d = json!({"nBits": small(rng), "nBitsExt": small(rng), "nQueries": small(rng), "verificationHashType": word(rng),
        "steps": (0..n).map(|_| json!({"nBits": small(rng)})).collect::<Vec<_>>()});
    let got = flat(guard(|| read_json::<StarkStruct>(d.to_string())));
    let w = got.as_ref().ok().map(|s| json!({"nBits": s.nBits, "nBitsExt": s.nBitsExt, "nQueries": s.nQueries, "verificationHashType": s.verificationHashType, "steps": s.steps.iter().map(|x| json!({"nBits": x.nBits})).collect::<Vec<_>>()}));
    r.check("parameters", w.as_ref() == Some(&d), || format!("parameters {d} are read as {w:?}"));
    if let Ok(s) = got {
        let t = serde_json::to_value(&s).unwrap();
        r.check("parameters-written", t == d, || format!("parameters {d} are written as {t}"));
    }
    let k = *rng.pick(&["nBits", "nBitsExt", "nQueries", "verificationHashType", "steps"]);
    let mut x = d.clone();
    x.as_object_mut().unwrap().remove(k);
    let got = flat(guard(|| read_json::<StarkStruct>(x.to_string())));
    r.check("parameters-lacking", got.is_err(), || format!("parameters without {k} are read: {x}"));
    r.case(&("parameters", d.to_string()), true);
    r.count("parameter documents", 1);
}

// ---- setups

/// everything a value holds, whatever the order of its maps
fn shown(x: &impl std::fmt::Debug) -> Vec<String> {
    let mut l: Vec<String> = format!("{x:#?}").lines().map(|l| l.to_string()).collect();
    l.sort();
    l
}
fn proof_text<B: Backend>(p: &Proof<B>) -> Result<String, String> {
    guard(|| serde_json::to_string(p).unwrap())
}
fn stored<B: Backend>(r: &mut Report, rng: &mut Rng) {
    let s = shape::<B>(rng);
    let p: Prog = program(rng, &s);
    let a = match setup::<B>(&p) {
        Ok(a) => a,
        Err(_) => return, // S01 decides whether a setup may fail
    };
    let text = match guard(|| serde_json::to_string(&a).unwrap()) {
        Ok(t) => t,
        Err(e) => {
            r.violation("setup-not-stored", &format!("{}: a setup is not stored: {e}", B::NAME));
            return;
        }
    };
    let file = place("setup.json");
    std::fs::write(&file, &text).unwrap();
    let back = if rng.chance(1, 2) { flat(guard(|| load_json::<Setup<B>>(&file))) } else { flat(guard(|| Ok(serde_json::from_value::<Setup<B>>(serde_json::from_str(&text)?)?))) };
    std::fs::remove_file(&file).unwrap();
    let b = match back {
        Ok(b) => b,
        Err(e) => {
            r.violation("setup-not-read", &format!("{}: a stored setup is not read: {e:.300}", B::NAME));
            return;
        }
    };
    let v1: Value = serde_json::from_str(&text).unwrap();
    let v2 = guard(|| serde_json::to_value(&b).unwrap()).unwrap_or(Value::Null);
    let (n1, n2) = (norm(&v1), norm(&v2));
    r.check("setup-contents", n1 == n2, || format!("{}: a setup read back has other contents: {:.300}", B::NAME, first_diff(&n1, &n2)));
    r.check("setup-internals", shown(&a.starkinfo) == shown(&b.starkinfo) && shown(&a.program) == shown(&b.program), || format!("{}: what a setup holds in memory differs after it was stored ({})", B::NAME, brief(&p)));
    r.check("setup-root", b.const_root == a.const_root && guard(|| b.const_tree.root()).as_ref() == Ok(&a.const_tree.root()), || format!("{}: the constant root of a setup read back differs", B::NAME));
    let rows = 1u64 << p.ss.nBitsExt;
    if !p.consts.is_empty() {
        for _ in 0..4 {
            let i = rng.below(rows) as usize;
            let (x, y) = (flat(guard(|| a.const_tree.get_group_proof(i))), flat(guard(|| b.const_tree.get_group_proof(i))));
            let same = match (&x, &y) {
                (Ok((v, m)), Ok((w, n))) => v == w && m == n,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            r.check("setup-openings", same, || format!("{}: opening {i} of the constant tree differs after it was stored", B::NAME));
        }
    }
    // the same proof is made with it, and both decide alike
    let (x, y) = (prove::<B>(&p, &a, &p.cms), prove::<B>(&p, &b, &p.cms));
    let (x, y) = match (x, y) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), Err(_)) => return, // S01 decides
        (x, y) => {
            r.violation("setup-proves", &format!("{}: proving with the stored setup: {:?}, with the original: {:?}", B::NAME, y.err(), x.err()));
            return;
        }
    };
    r.check("setup-proof", proof_text::<B>(&x) == proof_text::<B>(&y), || format!("{}: the proof made with a stored setup differs ({})", B::NAME, brief(&p)));
    let (va, vb, vc) = (verify::<B>(&p, &a, &x), verify::<B>(&p, &b, &x), verify::<B>(&p, &a, &y));
    r.check("setup-verifies", va == vb && va == vc, || format!("{}: original setup decides {va:?} and {vc:?}, the stored one {vb:?}", B::NAME));
    let mut bad: Proof<B> = serde_json::from_str(&proof_text::<B>(&x).unwrap()).unwrap();
    let i = rng.below(bad.evals.len() as u64) as usize;
    bad.evals[i] = bump_f(rng, &bad.evals[i]);
    let vd = verify::<B>(&p, &b, &bad);
    r.check("setup-rejects", vd != Verdict::Accept, || format!("{}: a stored setup accepts an altered proof", B::NAME));
    // the program and the parameters stored: setting up again gives the same
    let again = flat(guard(|| {
        let mut q = p.clone();
        q.pil = read_json::<PIL>(p.pil.to_string())?;
        q.ss = read_json::<StarkStruct>(serde_json::to_string(&p.ss)?)?;
        setup::<B>(&q).map_err(|e| anyhow::anyhow!(e))
    }));
    match again {
        Ok(c) => {
            let n3 = norm(&guard(|| serde_json::to_value(&c).unwrap()).unwrap_or(Value::Null));
            r.check("setup-again", n3 == n1, || format!("{}: setting up a program that was stored gives another setup: {:.300}", B::NAME, first_diff(&n1, &n3)));
        }
        Err(e) => r.violation("setup-again", &format!("{}: a program that was stored is not set up: {e}", B::NAME)),
    }
    // parts missing, or elements outside the field
    let mut m = v1.clone();
    let k = *rng.pick(&["const_tree", "const_root", "starkinfo", "program"]);
    m.as_object_mut().unwrap().remove(k);
    let got = flat(guard(|| read_json::<Setup<B>>(m.to_string())));
    r.check("setup-lacking", got.is_err(), || format!("{}: a setup without its {k} is read", B::NAME));
    let mut cut = text.len() - 1 - rng.below(text.len() as u64 / 2) as usize;
    while !text.is_char_boundary(cut) {
        cut -= 1;
    }
    let got = flat(guard(|| read_json::<Setup<B>>(text[..cut].to_string())));
    r.check("setup-cut", got.is_err(), || format!("{}: a setup cut short is read", B::NAME));
    r.case(&("setup", B::NAME, text), true);
    r.count(&format!("setups stored ({})", B::NAME), 1);
    for k in &p.kinds {
        r.count(&format!("setups of programs with: {k}"), 1);
    }
    if r.wants_sample() {
        r.sample(brief(&p));
    }
}

fn worker(r: &mut Report) {
    let mut rng = r.rng.fork();
    not_numbers(r);
    let mut k = 0u64;
    while r.more_time(1.0) {
        for _ in 0..40 {
            numbers(r, &mut rng);
            params(r, &mut rng);
        }
        for _ in 0..8 {
            documents(r, &mut rng);
        }
        match k % 4 {
            0 | 2 => stored::<Gl>(r, &mut rng),
            1 => stored::<Bn>(r, &mut rng),
            _ => stored::<Bls>(r, &mut rng),
        }
        k += 1;
        r.beat("round");
    }
}
fn main() {
    let mut r = Report::new("D03", "program documents built without the library, parameters, number texts and whole setups over three hash backends, each read, written and read again, or spoilt; distinct by text", (20, 600));
    r.workers(8, worker);
    r.finish()
}
