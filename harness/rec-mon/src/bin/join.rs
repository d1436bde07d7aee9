//! C04: joining two recursive inputs keeps each proof's data intact.
use common::{refused, scratch, Report, Rng};
use serde_json::{json, Map, Value};
use starky::zkin_join::join_zkin;

fn num(r: &mut Rng) -> Value {
    match r.below(5) {
        0 => json!(common::gl_val(r).to_string()),
        1 => json!(r.u64() >> r.below(64)),
        2 => json!(format!("2188824287183927522224640574525727508854836440041603434369820418657580{}", r.below(10000000))),
        3 => json!("0"),
        _ => json!(r.u64().to_string()),
    }
}
fn value(r: &mut Rng, depth: usize) -> Value {
    if depth == 0 || r.chance(1, 3) {
        return num(r);
    }
    let n = r.below(5);
    Value::Array((0..n).map(|_| value(r, depth - 1)).collect())
}
fn zkin(r: &mut Rng) -> Map<String, Value> {
    let mut m = Map::new();
    let mut keys: Vec<String> =
        ["root1", "root2", "root3", "root4", "evals", "finalPol", "enableInput", "proverAddr"].iter().map(|s| s.to_string()).collect();
    for s in 0..r.range(1, 5) {
        for k in ["root", "vals", "siblings", "vals1", "vals3", "vals4", "valsC", "siblings1", "siblingsC"] {
            keys.push(format!("s{s}_{k}"));
        }
    }
    // names that look like the joined ones
    keys.extend(["a_root1", "b_root1", "a_publics", "b_rootC", "rootc", "public", ""].iter().map(|s| s.to_string()));
    for k in keys {
        if r.chance(4, 5) {
            let v = value(r, 3);
            m.insert(k, v);
        }
    }
    if r.chance(9, 10) {
        let n = match r.below(4) {
            0 => r.range(0, 4),
            1 => 4,
            _ => r.range(4, 50),
        };
        m.insert("publics".into(), Value::Array((0..n).map(|_| num(r)).collect()));
    }
    if r.chance(4, 5) {
        let v = if r.chance(1, 2) { num(r) } else { Value::Array((0..4).map(|_| num(r)).collect()) };
        m.insert("rootC".into(), v);
    }
    m
}

fn main() {
    let mut rep = Report::new(
        "C04",
        "pairs of generated verifier inputs (every field a proof has, nested arrays, names that resemble joined names, 0 to 50 publics, with and without rootC) are joined and the output compared entry by entry; unreadable inputs are refused",
        (10, 120),
    );
    let d = scratch();
    let (f1, f2, o) = (format!("{d}/1.json"), format!("{d}/2.json"), format!("{d}/o.json"));
    let mut n = 0;
    while rep.more_time(1.0) && n < 200000 {
        n += 1;
        let a = zkin(&mut rep.rng);
        let b = zkin(&mut rep.rng);
        let (ta, tb) = (Value::Object(a.clone()).to_string(), Value::Object(b.clone()).to_string());
        rep.case(&(&ta, &tb), a.len() > 3);
        std::fs::write(&f1, &ta).unwrap();
        std::fs::write(&f2, &tb).unwrap();
        let mut want = Map::new();
        for (k, v) in &a {
            want.insert(format!("a_{k}"), v.clone());
        }
        for (k, v) in &b {
            want.insert(format!("b_{k}"), v.clone());
        }
        if let Some(Value::Array(p)) = a.get("publics") {
            // the last four publics of a recursive proof are the verification-key root
            let keep = if p.len() >= 4 { p.len() - 4 } else { p.len() };
            want.insert("publics".into(), Value::Array(p[..keep].to_vec()));
            rep.observe("publics", &p.len());
        }
        if let Some(v) = a.get("rootC") {
            want.insert("rootC".into(), v.clone());
        }
        if n % 40 == 0 {
            let cut = rep.rng.below(ta.len() as u64) as usize;
            std::fs::write(&f1, &ta[..cut]).unwrap();
            rep.count("truncated inputs", 1);
            rep.check("truncated", refused(|| join_zkin(&f1, &f2, &o)), || format!("an input cut to {cut} of {} bytes was joined", ta.len()));
            continue;
        }
        match rep.guard(|| join_zkin(&f1, &f2, &o)) {
            Ok(Ok(())) => {}
            x => {
                rep.violation("join", format!("{x:?} joining {ta} and {tb}"));
                continue;
            }
        }
        let got: Result<Map<String, Value>, _> = serde_json::from_str(&std::fs::read_to_string(&o).unwrap());
        let ok = matches!(&got, Ok(g) if *g == want);
        rep.count("entries compared", want.len() as u64);
        rep.check("joined", ok, || {
            let diff: Vec<String> = match &got {
                Ok(g) => want.keys().chain(g.keys()).filter(|k| g.get(*k) != want.get(*k)).map(|k| format!("{k}: {:?} instead of {:?}", g.get(k), want.get(k))).take(3).collect(),
                Err(e) => vec![e.to_string()],
            };
            format!("{diff:?}")
        });
        if rep.wants_sample() && n % 9 == 0 {
            rep.sample(json!({"first": a.len(), "second": b.len(), "publics": a.get("publics").map(|p| p.as_array().unwrap().len())}));
        }
    }
    rep.finish()
}
