//! What it means for a trace to satisfy a PIL program, row by row, in plain integer arithmetic.
use common::gl;
use starky::types::{Expression, PIL};
use std::collections::HashMap;

pub struct Trace<'a> {
    pub pil: &'a PIL,
    pub n: usize,
    pub consts: &'a [Vec<u64>],
    pub cms: &'a [Vec<u64>],
    pub publics: &'a [u64],
    memo: HashMap<usize, Vec<u64>>,
}

pub fn number(s: &str) -> u64 {
    let v: i128 = if let Some(h) = s.strip_prefix("0x") { i128::from_str_radix(h, 16).unwrap() } else { s.parse().unwrap() };
    v.rem_euclid(common::P as i128) as u64
}

/// what is wrong with a trace: which constraint, and in how many rows
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Broken {
    Identity(usize, usize),
    Lookup(usize, usize),
    Permutation(usize),
    Connection(usize, usize),
}

impl<'a> Trace<'a> {
    pub fn new(pil: &'a PIL, consts: &'a [Vec<u64>], cms: &'a [Vec<u64>], publics: &'a [u64]) -> Self {
        let n = consts.first().or(cms.first()).map(|c| c.len()).unwrap();
        Trace { pil, n, consts, cms, publics, memo: HashMap::new() }
    }
    fn shifted(col: &[u64], next: bool) -> Vec<u64> {
        let mut v = col.to_vec();
        if next {
            v.rotate_left(1);
        }
        v
    }
    pub fn expression(&mut self, id: usize) -> Vec<u64> {
        if let Some(v) = self.memo.get(&id) {
            return v.clone();
        }
        let v = self.eval(&self.pil.expressions[id]);
        self.memo.insert(id, v.clone());
        v
    }
    pub fn eval(&mut self, e: &Expression) -> Vec<u64> {
        let next = e.next == Some(true);
        let args = |s: &mut Self| -> Vec<Vec<u64>> { e.values.as_ref().unwrap().iter().map(|x| s.eval(x)).collect() };
        let zip = |a: &[u64], b: &[u64], f: fn(u64, u64) -> u64| a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect();
        match e.op.as_str() {
            "number" => vec![number(e.value.as_ref().unwrap()); self.n],
            "public" => vec![self.publics[e.id.unwrap()]; self.n],
            "cm" => Self::shifted(&self.cms[e.id.unwrap()], next),
            "const" => Self::shifted(&self.consts[e.id.unwrap()], next),
            "exp" => Self::shifted(&self.expression(e.id.unwrap()), next),
            "add" => {
                let a = args(self);
                zip(&a[0], &a[1], gl::add)
            }
            "sub" => {
                let a = args(self);
                zip(&a[0], &a[1], gl::sub)
            }
            "mul" => {
                let a = args(self);
                zip(&a[0], &a[1], gl::mul)
            }
            "neg" => args(self)[0].iter().map(|x| gl::neg(*x)).collect(),
            "addc" | "mulc" => {
                let a = args(self);
                let c = e.const_.unwrap() as i128;
                let c = c.rem_euclid(common::P as i128) as u64;
                let f = if e.op == "addc" { gl::add } else { gl::mul };
                a[0].iter().map(|x| f(*x, c)).collect()
            }
            o => panic!("operation {o}"),
        }
    }
    fn rows(&mut self, ids: &[usize], sel: Option<usize>) -> Vec<Vec<u64>> {
        let cols: Vec<Vec<u64>> = ids.iter().map(|i| self.expression(*i)).collect();
        let sel = sel.map(|s| self.expression(s));
        (0..self.n)
            .filter(|i| sel.as_ref().map_or(true, |s| s[*i] != 0))
            .map(|i| cols.iter().map(|c| c[i]).collect())
            .collect()
    }
    /// the value each public declaration selects
    pub fn selected_publics(&mut self) -> Vec<u64> {
        let pil = self.pil;
        pil.publics
            .iter()
            .map(|p| match p.polType.as_str() {
                "cmP" => self.cms[p.polId][p.idx],
                "imP" => self.expression(p.polId)[p.idx],
                t => panic!("public of type {t}"),
            })
            .collect()
    }
    /// selectors of lookups and permutations mean something only where they are 0 or 1: programs constrain them
    pub fn selectors_boolean(&mut self) -> bool {
        let pil = self.pil;
        let l = pil.plookupIdentities.iter().flat_map(|l| [l.selF, l.selT]);
        let p = pil.permutationIdentities.iter().flatten().flat_map(|l| [l.selF, l.selT]);
        let all: Vec<usize> = l.chain(p).flatten().collect();
        all.into_iter().all(|e| self.expression(e).iter().all(|v| *v < 2))
    }
    pub fn broken(&mut self) -> Vec<Broken> {
        let pil = self.pil;
        let mut out = vec![];
        for (k, id) in pil.polIdentities.iter().enumerate() {
            let bad = self.expression(id.e).iter().filter(|x| **x != 0).count();
            if bad > 0 {
                out.push(Broken::Identity(k, bad));
            }
        }
        for (k, l) in pil.plookupIdentities.iter().enumerate() {
            let f = self.rows(l.f.as_ref().unwrap(), l.selF);
            let t: std::collections::HashSet<Vec<u64>> = self.rows(l.t.as_ref().unwrap(), l.selT).into_iter().collect();
            let bad = f.iter().filter(|r| !t.contains(*r)).count();
            if bad > 0 {
                out.push(Broken::Lookup(k, bad));
            }
        }
        for (k, l) in pil.permutationIdentities.iter().flatten().enumerate() {
            let mut f = self.rows(l.f.as_ref().unwrap(), l.selF);
            let mut t = self.rows(l.t.as_ref().unwrap(), l.selT);
            f.sort();
            t.sort();
            if f != t {
                out.push(Broken::Permutation(k));
            }
        }
        for (k, l) in pil.connectionIdentities.iter().flatten().enumerate() {
            let pols: Vec<Vec<u64>> = l.pols.as_ref().unwrap().iter().map(|i| self.expression(*i)).collect();
            let conn: Vec<Vec<u64>> = l.connections.as_ref().unwrap().iter().map(|i| self.expression(*i)).collect();
            match connections(&conn) {
                None => out.push(Broken::Connection(k, self.n * conn.len())),
                Some(to) => {
                    let n = self.n;
                    let bad = to.iter().enumerate().filter(|(c, d)| pols[c / n][c % n] != pols[**d / n][**d % n]).count();
                    if bad > 0 {
                        out.push(Broken::Connection(k, bad));
                    }
                }
            }
        }
        out
    }
}

/// the generator of the coset of column j > 0 is k^j
pub const K: u64 = 12275445934081160404;
/// the cell each cell of a connection points to (column-major), or None if the columns are no permutation of the cell names
pub fn connections(conn: &[Vec<u64>]) -> Option<Vec<usize>> {
    let n = conn[0].len();
    let bits = n.trailing_zeros() as usize;
    let w = gl::root(bits);
    let mut name = HashMap::new();
    let mut k = 1;
    for j in 0..conn.len() {
        let mut x = k;
        for i in 0..n {
            name.insert(x, j * n + i);
            x = gl::mul(x, w);
        }
        k = gl::mul(k, K);
    }
    let mut seen = vec![false; n * conn.len()];
    let mut to = Vec::with_capacity(n * conn.len());
    for c in conn {
        for v in c {
            let d = *name.get(v)?;
            if seen[d] {
                return None;
            }
            seen[d] = true;
            to.push(d);
        }
    }
    Some(to)
}
