//! C05: a program exported for proving means what its source says.
use common::{gl, guard, Report, Rng};
use powdr::ast::analyzed::*;
use powdr::number::GoldilocksField as G;
use powdr_parser_util::SourceRef;
use serde_json::json;
use starky::types::{Expression, PIL};
use starky_mon::pilref::Trace;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

type Ex = AlgebraicExpression<G>;
type Sel = SelectedExpressions<Ex>;

struct Src {
    a: Analyzed<G>,
    n: usize,
    cms: Vec<Vec<u64>>,
    consts: Vec<Vec<u64>>,
    publics: Vec<u64>,
    /// every polynomial: its declared name, type, first id, length
    polys: Vec<(String, PolynomialType, u64, Option<u64>)>,
    /// definitions of the intermediates by id, each only in terms of earlier ones
    inter: Vec<Ex>,
    text: Arc<str>,
}

fn op(l: Ex, op: AlgebraicBinaryOperator, r: Ex) -> Ex {
    Ex::BinaryOperation(AlgebraicBinaryOperation { left: Box::new(l), op, right: Box::new(r) })
}
fn degree(e: &Ex) -> usize {
    match e {
        Ex::Reference(_) => 1,
        Ex::BinaryOperation(o) => match o.op {
            AlgebraicBinaryOperator::Mul => degree(&o.left) + degree(&o.right),
            _ => degree(&o.left).max(degree(&o.right)),
        },
        Ex::UnaryOperation(o) => degree(&o.expr),
        _ => 0,
    }
}
impl Src {
    fn at(&self, e: &Ex, i: usize) -> u64 {
        match e {
            Ex::Reference(r) => {
                let i = if r.next { (i + 1) % self.n } else { i };
                match r.poly_id.ptype {
                    PolynomialType::Committed => self.cms[r.poly_id.id as usize][i],
                    PolynomialType::Constant => self.consts[r.poly_id.id as usize][i],
                    PolynomialType::Intermediate => self.at(&self.inter[r.poly_id.id as usize], i),
                }
            }
            Ex::PublicReference(n) => self.publics[self.a.public_declarations[n].id as usize],
            Ex::Number(v) => v.0,
            Ex::BinaryOperation(o) => {
                let (a, b) = (self.at(&o.left, i), self.at(&o.right, i));
                match o.op {
                    AlgebraicBinaryOperator::Add => gl::add(a, b),
                    AlgebraicBinaryOperator::Sub => gl::sub(a, b),
                    AlgebraicBinaryOperator::Mul => gl::mul(a, b),
                    AlgebraicBinaryOperator::Pow => unreachable!(),
                }
            }
            Ex::UnaryOperation(o) => gl::neg(self.at(&o.expr, i)),
            Ex::Challenge(_) => unreachable!(),
        }
    }
    fn values(&self, e: &Ex) -> Vec<u64> {
        (0..self.n).map(|i| self.at(e, i)).collect()
    }
    /// `upto`: how many intermediates may be named
    fn expr(&self, rng: &mut Rng, depth: usize, upto: usize) -> Ex {
        if depth == 0 || rng.chance(1, 5) {
            return match rng.below(8) {
                0 => Ex::Number(G(common::gl_val(rng))),
                1 if !self.a.public_declarations.is_empty() => {
                    let mut k: Vec<&String> = self.a.public_declarations.keys().collect();
                    k.sort();
                    Ex::PublicReference((*rng.pick(&k)).clone())
                }
                _ => self.reference(rng, upto),
            };
        }
        match rng.below(7) {
            0 | 1 => op(self.expr(rng, depth - 1, upto), AlgebraicBinaryOperator::Add, self.expr(rng, depth - 1, upto)),
            2 | 3 => op(self.expr(rng, depth - 1, upto), AlgebraicBinaryOperator::Sub, self.expr(rng, depth - 1, upto)),
            4 | 5 => op(self.expr(rng, depth - 1, upto), AlgebraicBinaryOperator::Mul, self.expr(rng, depth - 1, upto)),
            _ => Ex::UnaryOperation(AlgebraicUnaryOperation { op: AlgebraicUnaryOperator::Minus, expr: Box::new(self.expr(rng, depth - 1, upto)) }),
        }
    }
    fn reference(&self, rng: &mut Rng, upto: usize) -> Ex {
        loop {
            let (name, ptype, id, len) = rng.pick(&self.polys).clone();
            let id = id + rng.below(len.unwrap_or(1));
            if ptype == PolynomialType::Intermediate && id as usize >= upto {
                continue;
            }
            return Ex::Reference(AlgebraicReference { name, poly_id: PolyID { id, ptype }, next: rng.chance(1, 3) });
        }
    }
    fn sel(&self, rng: &mut Rng, selector: bool, k: usize) -> Sel {
        let d = rng.range(0, 2);
        let all = self.inter.len();
        SelectedExpressions { selector: selector.then(|| self.expr(rng, d, all)), expressions: (0..k).map(|_| { let d = rng.range(0, 3); self.expr(rng, d, all) }).collect() }
    }
}
fn name(rng: &mut Rng, k: usize) -> (String, String) {
    // the name in the source, and the name with the one dot the prover wants
    match rng.below(5) {
        0 => (format!("main::p{k}"), format!("main.p{k}")),
        1 => (format!("std::util::q{k}"), format!("std::util.q{k}")),
        2 => (format!("A{k}.p"), format!("A{k}.p")),
        _ => (format!("Main.p{k}"), format!("Main.p{k}")),
    }
}
fn source(rng: &mut Rng) -> (Src, HashMap<String, String>) {
    let n = 1usize << rng.range(1, 4);
    let lines = rng.range(1, 60);
    let text: String = (0..lines).map(|_| format!("{}\n", "x".repeat(rng.range(0, 9)))).collect::<String>() + if rng.chance(1, 2) { "end" } else { "" };
    let mut s = Src {
        a: Analyzed { definitions: HashMap::new(), intermediate_columns: HashMap::new(), public_declarations: HashMap::new(), identities: vec![], source_order: vec![], degree: n as u64 },
        n,
        cms: vec![],
        consts: vec![],
        publics: vec![],
        polys: vec![],
        inter: vec![],
        text: Arc::from(text),
    };
    let mut dots = HashMap::new();
    let mut order = vec![];
    let mut k = 0;
    let mut declare = |rng: &mut Rng, s: &mut Src, t: Option<PolynomialType>, order: &mut Vec<StatementIdentifier>| {
        k += 1;
        let (abs, dot) = name(rng, k);
        let length = rng.chance(1, 3).then(|| 1 + rng.below(5));
        let id = match t {
            Some(PolynomialType::Committed) => s.cms.len(),
            Some(PolynomialType::Constant) => s.consts.len(),
            Some(PolynomialType::Intermediate) => s.inter.len(),
            None => rng.below(9) as usize,
        } as u64;
        let kind = t.map_or(SymbolKind::Other(), SymbolKind::Poly);
        let sym = Symbol { id, absolute_name: abs.clone(), kind, length };
        let count = length.unwrap_or(1) as usize;
        let small = rng.chance(1, 2);
        let col = |rng: &mut Rng| -> Vec<u64> { (0..n).map(|_| if small { rng.below(3) } else { common::gl_val(rng) }).collect() };
        match t {
            Some(PolynomialType::Intermediate) => {
                let upto = s.inter.len();
                let es: Vec<Ex> = (0..count)
                    .map(|_| {
                        let d = rng.range(0, 3);
                        s.expr(rng, d, upto)
                    })
                    .collect();
                s.inter.extend(es.clone());
                s.a.intermediate_columns.insert(abs.clone(), (sym, es));
            }
            Some(PolynomialType::Committed) => s.cms.extend((0..count).map(|_| col(rng))),
            Some(PolynomialType::Constant) => s.consts.extend((0..count).map(|_| col(rng))),
            None => {}
        }
        if t != Some(PolynomialType::Intermediate) {
            s.a.definitions.insert(abs.clone(), (Symbol { id, absolute_name: abs.clone(), kind, length }, None));
        }
        if let Some(t) = t {
            s.polys.push((abs.clone(), t, id, length));
            dots.insert(abs.clone(), dot);
        }
        order.push(StatementIdentifier::Definition(abs));
    };
    declare(rng, &mut s, Some(PolynomialType::Committed), &mut order);
    declare(rng, &mut s, Some(PolynomialType::Constant), &mut order);
    let parts = rng.range(0, 14);
    let mut np = 0;
    for _ in 0..parts {
        match rng.below(9) {
            0 | 1 => declare(rng, &mut s, Some(PolynomialType::Committed), &mut order),
            2 => declare(rng, &mut s, Some(PolynomialType::Constant), &mut order),
            3..=5 => declare(rng, &mut s, Some(PolynomialType::Intermediate), &mut order),
            6 => declare(rng, &mut s, None, &mut order),
            _ => {
                let of: Vec<_> = s.polys.iter().filter(|p| p.1 != PolynomialType::Constant).cloned().collect();
                let (pname, ptype, id, len) = rng.pick(&of).clone();
                let array_index = len.map(|l| rng.below(l) as usize);
                let index = rng.below(n as u64);
                let name = format!("Main.out{np}");
                let v = s.at(&Ex::Reference(AlgebraicReference { name: pname.clone(), poly_id: PolyID { id: id + array_index.unwrap_or(0) as u64, ptype }, next: false }), index as usize);
                s.publics.push(v);
                let polynomial = PolynomialReference { name: pname, poly_id: Some(PolyID { id, ptype }) };
                s.a.public_declarations.insert(name.clone(), PublicDeclaration { id: np, name: name.clone(), polynomial, array_index, index });
                order.push(StatementIdentifier::PublicDeclaration(name));
                np += 1;
            }
        }
    }
    for _ in 0..rng.range(0, 7) {
        let m = if rng.chance(1, 12) { rng.range(5, 24) } else { rng.range(1, 4) };
        let all = s.inter.len();
        let none = || SelectedExpressions { selector: None, expressions: vec![] };
        let (kind, left, right) = match rng.below(5) {
            0 | 1 => {
                let d = rng.range(0, 3);
                (IdentityKind::Polynomial, SelectedExpressions { selector: Some(s.expr(rng, d, all)), expressions: vec![] }, none())
            }
            2 | 3 => {
                let kind = if rng.chance(1, 2) { IdentityKind::Plookup } else { IdentityKind::Permutation };
                let (l, r) = (rng.chance(1, 2), rng.chance(1, 2));
                (kind, s.sel(rng, l, m), s.sel(rng, r, m))
            }
            _ => {
                let refs = |rng: &mut Rng, s: &Src| SelectedExpressions { selector: None, expressions: (0..m).map(|_| s.reference(rng, all)).collect() };
                (IdentityKind::Connect, refs(rng, &s), refs(rng, &s))
            }
        };
        let start = rng.range(0, s.text.len() - 1);
        let file_name = match rng.below(4) {
            0 => None,
            1 => Some(Arc::from("dir/deep.er/file.pil")),
            _ => Some(Arc::from("gen.pil")),
        };
        let file_contents = rng.chance(7, 8).then(|| s.text.clone());
        s.a.identities.push(Identity { kind, source: SourceRef { file_name, file_contents, start, end: start }, left, right });
    }
    // identities stand anywhere, also before what they use; publics and definitions keep their order
    for i in 0..s.a.identities.len() {
        let at = rng.range(0, order.len());
        order.insert(at, StatementIdentifier::Identity(i));
    }
    s.a.source_order = order;
    (s, dots)
}
/// the degree of an exported expression, and whether every part states its own
fn stated(e: &Expression) -> (usize, bool) {
    let v: Vec<(usize, bool)> = e.values.iter().flatten().map(stated).collect();
    let d = match e.op.as_str() {
        "cm" | "const" | "exp" => 1,
        "mul" => v.iter().map(|x| x.0).sum(),
        "number" | "public" => 0,
        _ => v.iter().map(|x| x.0).max().unwrap(),
    };
    (d, v.iter().all(|x| x.1) && (d == e.deg || e.idQ.is_some() && e.deg == 1))
}
fn judge(r: &mut Report, s: &Src, dots: &HashMap<String, String>, p: &PIL) {
    let show = || format!("source {:?}; exported {}", s.a, serde_json::to_string(p).unwrap());
    let mut t = Trace::new(p, &s.consts, &s.cms, &s.publics);
    let mut bounds: HashMap<usize, usize> = HashMap::new();
    let mut same = |r: &mut Report, key: &str, e: &Ex, id: Option<usize>, bound: usize| {
        let Some(id) = id else { return r.violation(key, format!("{key}: no expression; {}", show())) };
        bounds.insert(id, bound);
        let want = s.values(e);
        let got = guard(|| t.expression(id));
        r.check(key, got.as_ref().ok() == Some(&want), || format!("{key}: expression {id} has the values {got:?}, the source {want:?}; {}", show()));
        r.check("degree", p.expressions[id].idQ.is_some() == (degree(e) > bound), || format!("{key}: expression {id} of degree {}: {:?}; {}", degree(e), p.expressions[id].idQ, show()));
        r.count("expressions compared over all rows", 1);
    };
    let mut names = BTreeSet::new();
    for (abs, ptype, id, len) in &s.polys {
        let dot = &dots[abs];
        names.insert(dot.clone());
        let Some(x) = p.references.get(dot) else {
            r.violation("reference", format!("{abs} is not declared as {dot}; {}", show()));
            continue;
        };
        let ty = match ptype {
            PolynomialType::Committed => "cmP",
            PolynomialType::Constant => "constP",
            PolynomialType::Intermediate => "imP",
        };
        let ok = x.type_ == ty && x.isArray == len.is_some() && x.len == len.map(|l| l as usize) && x.polDeg == s.n && (ty == "imP" || x.id == *id as usize);
        r.check("reference", ok, || format!("{abs} is declared as {x:?}; {}", show()));
        if ty == "imP" {
            for k in 0..len.unwrap_or(1) as usize {
                same(r, "intermediate", &s.inter[*id as usize + k], Some(x.id + k), 1);
            }
        }
        r.observe("declared", &(ty, len));
    }
    r.check("reference", p.references.len() == names.len(), || format!("{} names; {}", p.references.len(), show()));
    // identities by kind, in source order
    let (mut np, mut nl, mut nm, mut nc) = (0, 0, 0, 0);
    let empty = vec![];
    for o in &s.a.source_order {
        let StatementIdentifier::Identity(i) = o else { continue };
        let i = &s.a.identities[*i];
        let (file, line);
        macro_rules! lists {
            ($key:expr, $f:expr, $t:expr) => {
                for (e, f) in [(&i.left, $f), (&i.right, $t)] {
                    r.check($key, e.expressions.len() == f.len(), || format!("{} expressions; {}", f.len(), show()));
                    for (e, id) in e.expressions.iter().zip(f) {
                        same(r, $key, e, Some(*id), 1);
                    }
                }
            };
        }
        macro_rules! take {
            ($list:expr, $n:expr) => {{
                let Some(x) = $list.get($n) else {
                    r.violation("missing", format!("an identity is missing: {i:?}; {}", show()));
                    continue;
                };
                $n += 1;
                (file, line) = (&x.fileName, x.line);
                x
            }};
        }
        macro_rules! sels {
            ($key:expr, $x:expr) => {
                for (e, f) in [(&i.left, $x.selF), (&i.right, $x.selT)] {
                    match &e.selector {
                        Some(e) => same(r, $key, e, f, 1),
                        None => {
                            r.check($key, f.is_none(), || format!("a selector out of nowhere: {f:?}; {}", show()));
                        }
                    }
                }
            };
        }
        match i.kind {
            IdentityKind::Polynomial => {
                let x = take!(p.polIdentities, np);
                same(r, "identity", i.left.selector.as_ref().unwrap(), Some(x.e), 2);
            }
            IdentityKind::Plookup => {
                let x = take!(p.plookupIdentities, nl);
                sels!("lookup", x);
                lists!("lookup", x.f.as_ref().unwrap_or(&empty), x.t.as_ref().unwrap_or(&empty));
            }
            IdentityKind::Permutation => {
                let x = take!(p.permutationIdentities.as_deref().unwrap_or_default(), nm);
                sels!("permutation", x);
                lists!("permutation", x.f.as_ref().unwrap_or(&empty), x.t.as_ref().unwrap_or(&empty));
            }
            IdentityKind::Connect => {
                let x = take!(p.connectionIdentities.as_deref().unwrap_or_default(), nc);
                lists!("connection", x.pols.as_ref().unwrap_or(&empty), x.connections.as_ref().unwrap_or(&empty));
            }
        }
        let want = i.source.file_contents.as_ref().map_or(0, |t| 1 + t[..i.source.start].matches('\n').count());
        let name = i.source.file_name.as_ref().map_or("", |f| f.rsplit('/').next().unwrap());
        r.check("line", file == name && line == want, || format!("{file}:{line}, expected {name}:{want}; {}", show()));
        r.count(&format!("{:?} identities", i.kind), 1);
    }
    let counts = (p.polIdentities.len(), p.plookupIdentities.len(), p.permutationIdentities.as_ref().map_or(0, |x| x.len()), p.connectionIdentities.as_ref().map_or(0, |x| x.len()));
    r.check("counts", counts == (np, nl, nm, nc), || format!("{counts:?} identities; {}", show()));
    // publics
    let names: Vec<&String> = s.a.source_order.iter().filter_map(|o| if let StatementIdentifier::PublicDeclaration(n) = o { Some(n) } else { None }).collect();
    let ok = p.publics.len() == names.len() && p.publics.iter().zip(&names).enumerate().all(|(k, (x, n))| x.name == **n && x.id == k);
    r.check("publics", ok, || format!("publics {:?}; {}", p.publics, show()));
    let got = guard(|| t.selected_publics());
    r.check("publics", got.as_ref().ok() == Some(&s.publics), || format!("publics select {got:?}, expected {:?}; {}", s.publics, show()));
    r.count("publics", s.publics.len() as u64);
    // sizes and quotients
    let im: usize = s.inter.len();
    r.check("counts", (p.nCommitments, p.nConstants, p.nIm) == (s.cms.len(), s.consts.len(), im), || show());
    let mut q: Vec<usize> = p.expressions.iter().filter_map(|e| e.idQ).collect();
    q.sort();
    r.check("quotients", q == (0..p.nQ).collect::<Vec<_>>(), || format!("quotients {q:?}; {}", show()));
    r.check("degree", p.expressions.iter().all(|e| stated(e).1), || show());
    r.check("left-over", bounds.len() == p.expressions.len(), || format!("{} of {} expressions belong to something; {}", bounds.len(), p.expressions.len(), show()));
    // as a file
    let file = serde_json::to_string(p).unwrap();
    let back: Result<PIL, _> = serde_json::from_str(&file);
    let ok = back.as_ref().is_ok_and(|b| serde_json::to_value(b).unwrap() == serde_json::to_value(p).unwrap());
    r.check("file", ok, || format!("as a file: {:?}; {}", back.map(|b| serde_json::to_string(&b).unwrap()), show()));
}
fn main() {
    let mut r = Report::new(
        "C05",
        "random analysed programs (arrays, intermediates of intermediates used before they are defined, publics of array elements, selectors present or absent, expressions of every degree) are exported and every expression the program names compared with the source over all rows of a random trace; distinct by program",
        (15, 240),
    );
    r.assume("the analysed program is given (its analyser, powdr, is not part of the repository); challenges and powers, which the prover does not know, do not occur");
    // from a string and from a file alike
    let dir = common::scratch();
    for k in 0..20 {
        let bits = 1 + r.rng.range(1, 9);
        let mut text = format!("let N: int = 2**{bits};\nnamespace A(N);\npol constant L1, C[{}];\n", k + 2);
        text += &format!("pol commit x, y[3];\npublic out = y[{}]({k});\npol z = x * y[1] + C[{k}]';\n\nL1 * (:out - y[2]) = 0;\n", k % 3);
        text += "x { x, z' } in { C[0], C[1] };\n{ z } is L1 { x };\n[x, y[0]] connect [C[0], C[1]];\n(x' - x) * z = 0;\n";
        let path = format!("{dir}/file.of.{k}.pil");
        std::fs::write(&path, &text).unwrap();
        let (a, b) = (guard(|| recursion::pilcom::compile_pil_from_str(&text)), guard(|| recursion::pilcom::compile_pil_from_path(&path)));
        let (Ok(a), Ok(mut b)) = (a, b) else {
            r.violation("text", format!("not compiled: {text}"));
            continue;
        };
        let lines: Vec<usize> = a.polIdentities.iter().map(|i| i.line).chain(a.plookupIdentities.iter().map(|i| i.line)).collect();
        let name = format!("file.of.{k}.pil");
        let named = b.polIdentities.iter().all(|i| i.fileName == name) && b.plookupIdentities.iter().all(|i| i.fileName == name);
        b.polIdentities.iter_mut().for_each(|i| i.fileName.clear());
        b.plookupIdentities.iter_mut().for_each(|i| i.fileName.clear());
        b.permutationIdentities.iter_mut().flatten().for_each(|i| i.fileName.clear());
        b.connectionIdentities.iter_mut().flatten().for_each(|i| i.fileName.clear());
        let same = serde_json::to_value(&a).unwrap() == serde_json::to_value(&b).unwrap();
        r.check("text", same && named && lines == [8, 12, 9], || format!("lines {lines:?}, names {named}, equal {same}: {text}"));
        r.count("texts compiled from a string and a file", 1);
    }
    r.workers(8, |r| {
        let mut rng = r.rng.fork();
        while r.more_time(1.0) && !r.full() {
            let (s, dots) = source(&mut rng);
            let d = format!("{:?}", s.a.source_order);
            r.beat("export");
            if let Some(p) = r.must("export", || format!("{:?}", s.a), || recursion::pilcom::export(&s.a)) {
                judge(r, &s, &dots, &p);
                r.case(&(d, common::hash64(&format!("{:?}", s.a.identities))), !p.expressions.is_empty());
                r.observe("expressions", &p.expressions.len());
                if r.wants_sample() {
                    r.sample(json!({"statements": s.a.source_order.len(), "expressions": p.expressions.len(), "quotients": p.nQ}));
                }
            }
        }
    });
    r.finish()
}
