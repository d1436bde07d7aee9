//! Random PIL programs together with a satisfying trace.
//!
//! A program has the shape pilcom emits: every expression is of degree at most two in committed,
//! constant and intermediate polynomials (an intermediate counts as one and carries idQ), lookups,
//! permutations and connections name expressions by index, and publics are taken from committed or
//! intermediate polynomials at one row.
use crate::pilref::{self, Trace};
use common::{gl, gl_val, Rng, P};
use serde_json::json;
use starky::types::*;
use std::collections::BTreeSet;
use std::collections::HashMap;

#[derive(Clone)]
pub struct Prog {
    pub pil: PIL,
    pub consts: Vec<Vec<u64>>,
    pub cms: Vec<Vec<u64>>,
    pub publics: Vec<u64>,
    pub ss: StarkStruct,
    pub kinds: BTreeSet<&'static str>,
    /// committed columns constrained by something
    pub tied: BTreeSet<usize>,
    /// committed columns that stand next to each other in the tuples of a lookup or permutation
    pub tuples: Vec<Vec<usize>>,
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub nbits: usize,
    pub ext: usize,
    pub parts: usize,
    pub hash: &'static str,
    /// only these kinds of constraint (empty: all)
    pub only: Vec<&'static str>,
    /// the last FRI step has at least this many bits
    pub min_last: usize,
    pub queries: usize,
}

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    n: usize,
    pil: PIL,
    consts: Vec<Vec<u64>>,
    cms: Vec<Vec<u64>>,
    publics: Vec<u64>,
    kinds: BTreeSet<&'static str>,
    tied: BTreeSet<usize>,
    tuples: Vec<Vec<usize>>,
    l1: usize,
    llast: Option<usize>,
    /// expressions usable as intermediates: (id, whether a next reference to it is allowed)
    inter: Vec<(usize, bool)>,
    names: usize,
}

fn ex(op: &str, id: Option<usize>, values: Option<Vec<Expression>>) -> Expression {
    let deg = match op {
        "number" | "public" => 0,
        "cm" | "const" | "exp" => 1,
        "mul" => values.as_ref().unwrap().iter().map(|v| v.deg).sum(),
        _ => values.as_ref().unwrap().iter().map(|v| v.deg).max().unwrap(),
    };
    Expression::new(op.to_string(), deg, id, None, values)
}
pub fn add(a: Expression, b: Expression) -> Expression {
    ex("add", None, Some(vec![a, b]))
}
pub fn sub(a: Expression, b: Expression) -> Expression {
    ex("sub", None, Some(vec![a, b]))
}
pub fn mul(a: Expression, b: Expression) -> Expression {
    ex("mul", None, Some(vec![a, b]))
}
pub fn neg(a: Expression) -> Expression {
    ex("neg", None, Some(vec![a]))
}
pub fn cm(i: usize, next: bool) -> Expression {
    let mut e = ex("cm", Some(i), None);
    e.next = Some(next);
    e
}
pub fn con(i: usize, next: bool) -> Expression {
    let mut e = ex("const", Some(i), None);
    e.next = Some(next);
    e
}
pub fn exp(i: usize, next: bool) -> Expression {
    let mut e = ex("exp", Some(i), None);
    e.next = Some(next);
    e
}
pub fn public(i: usize) -> Expression {
    ex("public", Some(i), None)
}
pub fn num(s: &str) -> Expression {
    let mut e = ex("number", None, None);
    e.value = Some(s.to_string());
    e
}
fn has_next(e: &Expression) -> bool {
    e.next == Some(true) || e.values.iter().flatten().any(has_next)
}

impl<'r> Gen<'r> {
    fn new(rng: &'r mut Rng, nbits: usize) -> Self {
        let n = 1 << nbits;
        let pil = PIL {
            nCommitments: 0,
            nQ: 0,
            nIm: 0,
            nConstants: 0,
            publics: vec![],
            references: HashMap::new(),
            expressions: vec![],
            polIdentities: vec![],
            plookupIdentities: vec![],
            permutationIdentities: Some(vec![]),
            connectionIdentities: Some(vec![]),
            cm_dims: vec![],
            q2exp: vec![],
        };
        let mut g = Gen { rng, n, pil, consts: vec![], cms: vec![], publics: vec![], kinds: BTreeSet::new(), tied: BTreeSet::new(), tuples: vec![], l1: 0, llast: None, inter: vec![], names: 0 };
        let mut l1 = vec![0; n];
        l1[0] = 1;
        // the position of L1 among the constants varies
        for _ in 0..g.rng.range(0, 2) {
            let v = g.column();
            g.constant("", v);
        }
        g.l1 = g.constant("Global.L1", l1);
        g
    }
    fn column(&mut self) -> Vec<u64> {
        let n = self.n;
        match self.rng.below(6) {
            0 => (0..n as u64).collect(),
            1 => {
                let v = gl_val(self.rng);
                vec![v; n]
            }
            2 => (0..n).map(|_| self.rng.below(2)).collect(),
            3 => (0..n).map(|_| self.rng.below(5)).collect(),
            _ => (0..n).map(|_| gl_val(self.rng)).collect(),
        }
    }
    fn name(&mut self) -> String {
        self.names += 1;
        let ns = *self.rng.pick(&["Main", "Fib", "Global", "A"]);
        format!("{ns}.p{}", self.names)
    }
    fn reference(&mut self, name: String, ty: &str, id: usize) {
        let r = Reference { polType: None, type_: ty.into(), id, polDeg: self.n, isArray: false, elementType: None, len: None };
        self.pil.references.insert(name, r);
    }
    pub fn constant(&mut self, name: &str, v: Vec<u64>) -> usize {
        let id = self.consts.len();
        self.consts.push(v);
        self.pil.nConstants += 1;
        let name = if name.is_empty() { self.name() } else { name.to_string() };
        self.reference(name, "constP", id);
        id
    }
    pub fn commit(&mut self, v: Vec<u64>) -> usize {
        let id = self.cms.len();
        self.cms.push(v);
        self.pil.nCommitments += 1;
        let name = self.name();
        self.reference(name, "cmP", id);
        id
    }
    /// several columns declared as one array
    pub fn commit_array(&mut self, vs: Vec<Vec<u64>>) -> Vec<usize> {
        let id = self.cms.len();
        let k = vs.len();
        self.pil.nCommitments += k;
        self.cms.extend(vs);
        let name = self.name();
        let r = Reference { polType: None, type_: "cmP".into(), id, polDeg: self.n, isArray: true, elementType: None, len: Some(k) };
        self.pil.references.insert(name, r);
        (id..id + k).collect()
    }
    pub fn push(&mut self, e: Expression) -> usize {
        self.pil.expressions.push(e);
        self.pil.expressions.len() - 1
    }
    /// an expression usable wherever pilcom wants degree one
    pub fn flat(&mut self, mut e: Expression) -> usize {
        if e.deg > 1 {
            e.deg = 1;
            e.idQ = Some(self.pil.nQ);
            self.pil.nQ += 1;
            self.pil.nIm += 1;
            self.kinds.insert("intermediate");
        }
        self.push(e)
    }
    pub fn identity(&mut self, e: Expression) {
        // pilcom writes lhs - rhs
        let e = match self.rng.below(3) {
            0 => sub(e, num("0")),
            1 => e,
            _ => sub(num("0"), neg(e)),
        };
        let id = self.push(e);
        let line = self.pil.expressions.len();
        self.pil.polIdentities.push(PolIdentity { e: id, fileName: "gen.pil".into(), line });
    }
    fn tuple(&mut self, es: &[Expression]) {
        let cols: Vec<usize> = es.iter().filter(|e| e.op == "cm" && e.next != Some(true)).map(|e| e.id.unwrap()).collect();
        if cols.len() > 1 && cols[0] != cols[1] {
            self.tuples.push(cols);
        }
    }
    fn tie(&mut self, e: &Expression) {
        if e.op == "cm" {
            self.tied.insert(e.id.unwrap());
        }
        if e.op == "exp" {
            let x = self.pil.expressions[e.id.unwrap()].clone();
            self.tie(&x);
        }
        for v in e.values.iter().flatten() {
            self.tie(v);
        }
    }
    pub fn at(&self, e: &Expression, i: usize) -> u64 {
        let i = if e.next == Some(true) { (i + 1) % self.n } else { i };
        let v = |k: usize| self.at(&e.values.as_ref().unwrap()[k], i);
        match e.op.as_str() {
            "number" => pilref::number(e.value.as_ref().unwrap()),
            "public" => self.publics[e.id.unwrap()],
            "cm" => self.cms[e.id.unwrap()][i],
            "const" => self.consts[e.id.unwrap()][i],
            "exp" => self.at(&self.pil.expressions[e.id.unwrap()], i),
            "add" => gl::add(v(0), v(1)),
            "sub" => gl::sub(v(0), v(1)),
            "mul" => gl::mul(v(0), v(1)),
            "neg" => gl::neg(v(0)),
            o => panic!("operation {o}"),
        }
    }
    fn values(&self, e: &Expression) -> Vec<u64> {
        (0..self.n).map(|i| self.at(e, i)).collect()
    }
    pub fn number(&mut self) -> Expression {
        match self.rng.below(6) {
            0 => num("1"),
            1 => num("-1"),
            2 => {
                let v = self.rng.below(1 << 20);
                num(&format!("-{v}"))
            }
            3 => {
                let v = gl_val(self.rng);
                num(&format!("0x{v:x}"))
            }
            4 => num(&(P as u128 + self.rng.below(1000) as u128).to_string()),
            _ => num(&gl_val(self.rng).to_string()),
        }
    }
    /// one polynomial of degree one
    fn atom(&mut self, next_ok: bool) -> Expression {
        let next = next_ok && self.rng.chance(1, 3);
        match self.rng.below(10) {
            0..=1 if !self.consts.is_empty() => con(self.rng.range(0, self.consts.len() - 1), next),
            2..=4 if !self.inter.is_empty() => {
                let (id, free) = *self.rng.pick(&self.inter);
                if !next_ok && !free {
                    return cm(self.rng.range(0, self.cms.len() - 1), false);
                }
                if next && free {
                    self.kinds.insert("shifted intermediate");
                }
                exp(id, next && free)
            }
            _ => cm(self.rng.range(0, self.cms.len() - 1), next),
        }
    }
    /// degree at most one
    pub fn lin(&mut self, next_ok: bool) -> Expression {
        let mut e = self.atom(next_ok);
        for _ in 0..self.rng.range(0, 2) {
            let t = match self.rng.below(4) {
                0 => self.number(),
                1 => {
                    let (k, a) = (self.number(), self.atom(next_ok));
                    if self.rng.chance(1, 2) {
                        mul(k, a)
                    } else {
                        mul(a, k)
                    }
                }
                2 if !self.pil.publics.is_empty() && self.rng.chance(1, 2) => public(self.rng.range(0, self.publics.len() - 1)),
                _ => self.atom(next_ok),
            };
            e = match self.rng.below(4) {
                0 => sub(e, t),
                1 => sub(t, e),
                2 => neg(add(e, t)),
                _ => add(e, t),
            };
        }
        e
    }
    pub fn quad(&mut self, next_ok: bool) -> Expression {
        let (a, b) = (self.lin(next_ok), self.lin(next_ok));
        let p = mul(a, b);
        if self.rng.chance(1, 2) {
            let t = self.lin(next_ok);
            if self.rng.chance(1, 2) {
                add(p, t)
            } else {
                sub(t, p)
            }
        } else {
            p
        }
    }
    fn any(&mut self, next_ok: bool) -> Expression {
        if self.rng.chance(1, 2) {
            self.lin(next_ok)
        } else {
            self.quad(next_ok)
        }
    }
    fn last(&mut self) -> usize {
        if let Some(i) = self.llast {
            return i;
        }
        let mut v = vec![0; self.n];
        v[self.n - 1] = 1;
        let i = self.constant("Global.LLAST", v);
        self.llast = Some(i);
        i
    }
    fn at_row(&mut self, row: usize) -> Expression {
        if row == 0 {
            return con(self.l1, false);
        }
        if row == self.n - 1 {
            let l = self.last();
            return con(l, false);
        }
        let mut v = vec![0; self.n];
        v[row] = 1;
        let c = self.constant("", v);
        con(c, false)
    }
    // ---- kinds of constraint
    fn free(&mut self) {
        let v = self.column();
        if self.rng.chance(1, 5) {
            let k = self.rng.range(1, 3);
            let vs = (0..k).map(|_| self.column()).collect();
            self.commit_array(vs);
        }
        self.commit(v);
    }
    fn intermediate(&mut self) {
        let next_ok = self.rng.chance(1, 2);
        let e = self.quad(next_ok);
        let deep = !has_next(&e) && self.no_next_inside(&e);
        let id = self.flat(e);
        self.inter.push((id, deep));
    }
    fn no_next_inside(&self, e: &Expression) -> bool {
        if e.next == Some(true) {
            return false;
        }
        if e.op == "exp" {
            let x = &self.pil.expressions[e.id.unwrap()];
            return self.no_next_inside(x);
        }
        e.values.iter().flatten().all(|v| self.no_next_inside(v))
    }
    fn define(&mut self) {
        self.kinds.insert("definition");
        let e = self.any(true);
        let v = self.values(&e);
        let c = self.commit(v);
        let d = sub(cm(c, false), e);
        self.tie(&d);
        self.identity(d);
    }
    fn recurrence(&mut self) {
        self.kinds.insert("recurrence");
        let start = gl_val(self.rng);
        let c = self.commit(vec![0; self.n]);
        self.cms[c][0] = start;
        // the new column at this row, anything else at this and the next row
        let mut rest = self.lin(true);
        while uses(&self.pil, &rest, c) {
            rest = self.lin(true);
        }
        let (k, own) = (self.number(), cm(c, false));
        let e = match self.rng.below(3) {
            0 => add(own, rest),
            1 => add(mul(k, own), rest),
            _ => {
                let id = self.flat(mul(own.clone(), own));
                add(exp(id, false), rest)
            }
        };
        for i in 0..self.n - 1 {
            self.cms[c][i + 1] = self.at(&e, i);
        }
        let d = sub(cm(c, true), e);
        self.tie(&d);
        let l = self.last();
        let s = sub(num("1"), con(l, false));
        let id = if self.rng.chance(1, 2) { mul(d, s) } else { mul(s, d) };
        self.identity(id);
        let at0 = self.at_row(0);
        self.identity(mul(at0, sub(cm(c, false), num(&start.to_string()))));
    }
    fn cyclic(&mut self) {
        self.kinds.insert("cyclic difference");
        let a = self.column();
        let c = self.commit(a.clone());
        let d: Vec<u64> = (0..self.n).map(|i| gl::sub(a[(i + 1) % self.n], a[i])).collect();
        let d = self.commit(d);
        let e = sub(sub(cm(c, true), cm(c, false)), cm(d, false));
        self.tie(&e);
        self.identity(e);
    }
    fn boolean(&mut self) -> usize {
        self.kinds.insert("boolean");
        let v: Vec<u64> = (0..self.n).map(|_| self.rng.below(2)).collect();
        let c = self.commit(v);
        let e = mul(cm(c, false), sub(num("1"), cm(c, false)));
        self.tie(&e);
        self.identity(e);
        c
    }
    fn inverse(&mut self) {
        self.kinds.insert("inverse");
        let v: Vec<u64> = (0..self.n).map(|_| gl_val(self.rng).max(1)).collect();
        let i = v.iter().map(|x| gl::inv(*x)).collect();
        let (a, b) = (self.commit(v), self.commit(i));
        let e = sub(mul(cm(a, false), cm(b, false)), num("1"));
        self.tie(&e);
        self.identity(e);
    }
    /// a product of three factors: within the degree the smallest blow-up allows
    fn cubic(&mut self) {
        self.kinds.insert("cubic");
        let (a, b, c) = (self.lin(true), self.lin(true), self.lin(true));
        let e = mul(mul(a, b), c);
        // keep it out of intermediates, whose own degree would come on top
        if e_has(&e, "exp") {
            return self.define();
        }
        let v = self.values(&e);
        let d = self.commit(v);
        let e = sub(e, cm(d, false));
        self.tie(&e);
        self.identity(e);
    }
    /// a product of four to nine factors: the degree may be more than the blow-up allows, with nothing to split it at
    fn steep(&mut self) {
        self.kinds.insert("steep");
        let k = self.rng.range(4, 9);
        let mut e = self.atom(false);
        for _ in 1..k {
            let f = if self.rng.chance(1, 4) { self.lin(true) } else { self.atom(true) };
            e = mul(e, f);
            if self.rng.chance(1, 5) {
                let id = self.flat(e);
                e = exp(id, false);
            }
        }
        let v = self.values(&e);
        let d = self.commit(v);
        let e = sub(e, cm(d, false));
        self.tie(&e);
        self.identity(e);
    }
    /// products of named expressions: the degree asks for columns of the prover's own
    fn split(&mut self) {
        self.kinds.insert("split");
        let k = self.rng.range(2, 3);
        let mut e = None;
        for _ in 0..k {
            let q = self.quad(false);
            let id = self.flat(q);
            let f = exp(id, false);
            e = Some(match e {
                None => f,
                Some(e) => mul(e, f),
            });
        }
        let e = e.unwrap();
        let v = self.values(&e);
        let d = self.commit(v);
        let e = sub(e, cm(d, false));
        self.tie(&e);
        self.identity(e);
    }
    fn constants_only(&mut self) {
        self.kinds.insert("constants only");
        let (a, b) = (self.column(), self.column());
        let c = a.iter().zip(&b).map(|(x, y)| gl::mul(*x, *y)).collect();
        let (a, b, c) = (self.constant("", a), self.constant("", b), self.constant("", c));
        self.identity(sub(mul(con(a, false), con(b, false)), con(c, false)));
    }
    fn public_(&mut self) {
        let row = match self.rng.below(3) {
            0 => 0,
            1 => self.n - 1,
            _ => self.rng.range(0, self.n - 1),
        };
        let id = self.pil.publics.len();
        let name = format!("pub{id}");
        let (e, ty, pol) = if self.rng.chance(1, 2) {
            self.kinds.insert("public cmP");
            let c = self.rng.range(0, self.cms.len() - 1);
            (cm(c, false), "cmP", c)
        } else {
            self.kinds.insert("public imP");
            let mut e = self.any(true);
            while e_has(&e, "public") || self.deep_public(&e) {
                e = self.any(true);
            }
            let pol = self.flat(e.clone());
            (exp(pol, false), "imP", pol)
        };
        let v = self.at(&e, row);
        self.publics.push(v);
        self.pil.publics.push(Public { polType: ty.into(), polId: pol, idx: row, id, name });
        if if id < 2 { self.rng.chance(7, 8) } else { self.rng.chance(1, 2) } {
            let at = self.at_row(row);
            self.tie(&e);
            let k = self.rng.range(2, 1 << 20) as u64;
            let (k, mk) = (num(&k.to_string()), num(&gl::neg(k).to_string()));
            let e = match self.rng.below(6) {
                0 => add(mul(k, public(id)), mul(mk, e)),
                1 => {
                    let j = num(&self.rng.below(99).to_string());
                    sub(add(mul(k.clone(), public(id)), j.clone()), add(mul(e, k), j))
                }
                _ => sub(e, public(id)),
            };
            self.identity(mul(at, e));
        }
    }
    fn deep_public(&self, e: &Expression) -> bool {
        if e.op == "public" {
            return true;
        }
        if e.op == "exp" {
            return self.deep_public(&self.pil.expressions[e.id.unwrap()]);
        }
        e.values.iter().flatten().any(|v| self.deep_public(v))
    }
    fn selector(&mut self) -> (Vec<u64>, Expression) {
        let v: Vec<u64> = match self.rng.below(4) {
            0 => vec![0; self.n],
            1 => vec![1; self.n],
            _ => (0..self.n).map(|_| self.rng.below(2)).collect(),
        };
        let e = if self.rng.chance(1, 2) { con(self.constant("", v.clone()), false) } else { cm(self.commit(v.clone()), false) };
        (v, e)
    }
    fn selector_with(&mut self, v: Vec<u64>) -> Expression {
        if self.rng.chance(1, 2) {
            con(self.constant("", v), false)
        } else {
            cm(self.commit(v), false)
        }
    }
    fn lookup(&mut self) {
        self.kinds.insert("lookup");
        let w = if self.rng.chance(1, 8) { self.rng.range(4, 7) } else { self.rng.range(1, 3) };
        let f: Vec<Expression> = (0..w).map(|_| if self.rng.chance(1, 3) { self.quad(true) } else { self.lin(true) }).collect();
        let fv: Vec<Vec<u64>> = f.iter().map(|e| self.values(e)).collect();
        let sel_f = if self.rng.chance(1, 2) {
            self.kinds.insert("lookup selF");
            Some(self.selector())
        } else {
            None
        };
        let rows: BTreeSet<Vec<u64>> =
            (0..self.n).filter(|i| sel_f.as_ref().map_or(true, |s| s.0[*i] == 1)).map(|i| fv.iter().map(|c| c[i]).collect()).collect();
        let mut rows: Vec<Vec<u64>> = rows.into_iter().collect();
        let need = rows.len();
        // which rows of the table count
        let sel_t = if self.rng.chance(1, 2) {
            self.kinds.insert("lookup selT");
            let extra = self.rng.range(0, self.n - need);
            let mut v: Vec<u64> = (0..self.n).map(|i| (i < need + extra) as u64).collect();
            if v.iter().all(|x| *x == 0) {
                v[0] = 1;
            }
            self.rng.shuffle(&mut v);
            Some(v)
        } else {
            None
        };
        let live: Vec<usize> = (0..self.n).filter(|i| sel_t.as_ref().map_or(true, |s| s[*i] == 1)).collect();
        while rows.len() < live.len() {
            let r = if !rows.is_empty() && self.rng.chance(1, 2) { rows[self.rng.range(0, rows.len() - 1)].clone() } else { (0..w).map(|_| gl_val(self.rng)).collect() };
            rows.push(r);
        }
        self.rng.shuffle(&mut rows);
        let mut t: Vec<Vec<u64>> = (0..w).map(|_| (0..self.n).map(|_| gl_val(self.rng)).collect()).collect();
        for (k, i) in live.iter().enumerate() {
            for j in 0..w {
                t[j][*i] = rows[k][j];
            }
        }
        let te: Vec<Expression> = t
            .into_iter()
            .map(|c| {
                if self.rng.chance(1, 2) {
                    let i = self.constant("", c);
                    con(i, false)
                } else {
                    let i = self.commit(c);
                    cm(i, false)
                }
            })
            .collect();
        self.tuple(&f);
        self.tuple(&te);
        for e in f.iter().chain(&te) {
            let e = e.clone();
            self.tie(&e);
        }
        let f = f.into_iter().map(|e| self.flat(e)).collect();
        let t = te.into_iter().map(|e| self.flat(e)).collect();
        let sf = sel_f.map(|s| {
            self.tie(&s.1.clone());
            self.flat(s.1)
        });
        let st = sel_t.map(|v| {
            let e = self.selector_with(v);
            self.tie(&e.clone());
            self.flat(e)
        });
        self.pil.plookupIdentities.push(PlookupIdentity { f: Some(f), t: Some(t), selF: sf, selT: st, fileName: "gen.pil".into(), line: 1 });
    }
    fn permutation(&mut self) {
        self.kinds.insert("permutation");
        let w = if self.rng.chance(1, 8) { self.rng.range(4, 7) } else { self.rng.range(1, 3) };
        let f: Vec<Expression> = (0..w).map(|_| if self.rng.chance(1, 3) { self.quad(true) } else { self.lin(true) }).collect();
        let fv: Vec<Vec<u64>> = f.iter().map(|e| self.values(e)).collect();
        let sel = self.rng.chance(1, 2);
        let sel_f = if sel { Some(self.selector()) } else { None };
        let mut rows: Vec<Vec<u64>> = (0..self.n).filter(|i| sel_f.as_ref().map_or(true, |s| s.0[*i] == 1)).map(|i| fv.iter().map(|c| c[i]).collect()).collect();
        self.rng.shuffle(&mut rows);
        let sel_t = sel_f.as_ref().map(|s| {
            let mut v = s.0.clone();
            self.rng.shuffle(&mut v);
            v
        });
        let live: Vec<usize> = (0..self.n).filter(|i| sel_t.as_ref().map_or(true, |s| s[*i] == 1)).collect();
        let mut t: Vec<Vec<u64>> = (0..w).map(|_| (0..self.n).map(|_| gl_val(self.rng)).collect()).collect();
        for (k, i) in live.iter().enumerate() {
            for j in 0..w {
                t[j][*i] = rows[k][j];
            }
        }
        let te: Vec<Expression> = t.into_iter().map(|c| cm(self.commit(c), false)).collect();
        self.tuple(&f);
        self.tuple(&te);
        for e in f.iter().chain(&te) {
            let e = e.clone();
            self.tie(&e);
        }
        let (mut f, mut t): (Vec<usize>, Vec<usize>) = (f.into_iter().map(|e| self.flat(e)).collect(), te.into_iter().map(|e| self.flat(e)).collect());
        let mut sf = sel_f.map(|s| {
            self.kinds.insert("permutation selectors");
            self.tie(&s.1.clone());
            self.flat(s.1)
        });
        let mut st = sel_t.map(|v| {
            let e = self.selector_with(v);
            self.tie(&e.clone());
            self.flat(e)
        });
        // a selector on one side only, which then has to select every row
        if sf.is_none() && self.rng.chance(1, 2) {
            self.kinds.insert("permutation one selector");
            let v = vec![1; self.n];
            let e = if self.rng.chance(1, 4) { con(self.constant("", v), false) } else { cm(self.commit(v), false) };
            self.tie(&e.clone());
            st = Some(self.flat(e));
        }
        if self.rng.chance(1, 2) {
            std::mem::swap(&mut f, &mut t);
            std::mem::swap(&mut sf, &mut st);
        }
        self.pil.permutationIdentities.as_mut().unwrap().push(PermutationIdentity { f: Some(f), t: Some(t), selF: sf, selT: st, fileName: "gen.pil".into(), line: 1 });
    }
    fn connection(&mut self) {
        self.kinds.insert("connection");
        let w = if self.rng.chance(1, 5) { self.rng.range(5, 9) } else { self.rng.range(1, 4) };
        let n = self.n;
        let cells = w * n;
        let w_n = gl::root(self.n.trailing_zeros() as usize);
        let cell_name = |c: usize| gl::mul(gl::pow(pilref::K, (c / n) as u64), gl::pow(w_n, (c % n) as u64));
        // cycles of random lengths
        let mut order: Vec<usize> = (0..cells).collect();
        self.rng.shuffle(&mut order);
        let mut to = vec![0; cells];
        let mut val = vec![0; cells];
        let mut i = 0;
        while i < cells {
            let len = self.rng.range(1, 4).min(cells - i);
            let v = gl_val(self.rng);
            for k in 0..len {
                to[order[i + k]] = order[i + (k + 1) % len];
                val[order[i + k]] = v;
            }
            i += len;
        }
        let pols: Vec<usize> = (0..w).map(|j| self.commit(val[j * n..(j + 1) * n].to_vec())).collect();
        self.tied.extend(pols.iter());
        let conns: Vec<usize> = (0..w)
            .map(|j| {
                let v = (0..n).map(|i| cell_name(to[j * n + i])).collect();
                self.constant("", v)
            })
            .collect();
        let pols = pols.into_iter().map(|c| self.push(cm(c, false))).collect();
        let connections = conns.into_iter().map(|c| self.push(con(c, false))).collect();
        self.pil.connectionIdentities.as_mut().unwrap().push(ConnectionIdentity { pols: Some(pols), connections: Some(connections), fileName: "gen.pil".into(), line: 1 });
    }
}

pub fn e_has(e: &Expression, op: &str) -> bool {
    e.op == op || e.values.iter().flatten().any(|v| e_has(v, op))
}
fn uses(pil: &PIL, e: &Expression, c: usize) -> bool {
    (e.op == "cm" && e.id == Some(c)) || (e.op == "exp" && uses(pil, &pil.expressions[e.id.unwrap()], c)) || e.values.iter().flatten().any(|v| uses(pil, v, c))
}

pub fn steps(rng: &mut Rng, from: usize, min_last: usize) -> Vec<Step> {
    let mut v = vec![from];
    let mut b = from;
    while b > min_last && (v.len() == 1 || rng.chance(3, 4)) {
        if v.len() == 1 && rng.chance(1, 8) {
            break;
        }
        b -= rng.range(1, (b - min_last).min(4));
        v.push(b);
    }
    v.into_iter().map(|nBits| Step { nBits }).collect()
}

pub const KINDS: [&str; 14] = ["split", "definition", "recurrence", "cyclic", "boolean", "inverse", "cubic", "constants", "public", "lookup", "permutation", "connection", "intermediate", "free"];

pub fn program(rng: &mut Rng, s: &Shape) -> Prog {
    let st = steps(rng, s.nbits + s.ext, s.min_last);
    let mut g = Gen::new(rng, s.nbits);
    g.free();
    let mut tries = 0;
    while tries < s.parts || (g.pil.polIdentities.is_empty() && g.pil.plookupIdentities.is_empty() && g.pil.permutationIdentities.as_ref().unwrap().is_empty() && g.pil.connectionIdentities.as_ref().unwrap().is_empty()) {
        tries += 1;
        let k = if s.only.is_empty() { *g.rng.pick(&KINDS) } else { *g.rng.pick(&s.only) };
        match k {
            "definition" => g.define(),
            "recurrence" => g.recurrence(),
            "cyclic" => g.cyclic(),
            "boolean" => {
                g.boolean();
            }
            "inverse" => g.inverse(),
            "cubic" => g.cubic(),
            "steep" => g.steep(),
            "split" => g.split(),
            "constants" => g.constants_only(),
            "public" => {
                for _ in 0..if g.rng.chance(1, 4) { g.rng.range(3, 7) } else { 1 } {
                    g.public_()
                }
            }
            "lookup" => g.lookup(),
            "permutation" => g.permutation(),
            "connection" => g.connection(),
            "intermediate" => g.intermediate(),
            _ => g.free(),
        }
    }
    let p = Prog {
        pil: g.pil,
        consts: g.consts,
        cms: g.cms,
        publics: g.publics,
        ss: StarkStruct { nBits: s.nbits, nBitsExt: s.nbits + s.ext, nQueries: s.queries, verificationHashType: s.hash.into(), steps: st },
        kinds: g.kinds,
        tied: g.tied,
        tuples: g.tuples,
    };
    let mut t = Trace::new(&p.pil, &p.consts, &p.cms, &p.publics);
    assert!(t.broken().is_empty(), "the generator's own trace is broken: {:?}", t.broken());
    assert_eq!(t.selected_publics(), p.publics);
    p
}
/// appends a column nothing refers to
pub fn add_unused(p: &mut Prog, col: Vec<u64>) {
    let r = Reference { polType: None, type_: "cmP".into(), id: p.cms.len(), polDeg: col.len(), isArray: false, elementType: None, len: None };
    p.pil.references.insert("Main.unused".into(), r);
    p.pil.nCommitments += 1;
    p.cms.push(col);
}
pub fn brief(p: &Prog) -> serde_json::Value {
    json!({"hash": p.ss.verificationHashType, "rows": 1u64 << p.ss.nBits, "blow-up bits": p.ss.nBitsExt - p.ss.nBits, "queries": p.ss.nQueries,
        "steps": p.ss.steps.iter().map(|s| s.nBits).collect::<Vec<_>>(), "columns": p.cms.len(), "constants": p.consts.len(), "publics": p.publics.len(),
        "identities": p.pil.polIdentities.len(), "lookups": p.pil.plookupIdentities.len(), "kinds": p.kinds.iter().collect::<Vec<_>>()})
}
