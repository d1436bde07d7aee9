//! Runs the part of Solidity that a generated verifier consists of, with the EVM's memory and its
//! curve precompiles (by arkworks). An `Err` is a revert; a panic is something not understood.
use crate::int;
use ark_ec::{pairing::Pairing, short_weierstrass::Affine, AffineRepr, CurveGroup};
use ark_ff::PrimeField;
use bn254_ark::{Bn254, Fq, Fq2, Fr, G1Config, G2Config};
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(BigUint),
    Sym(&'static str),
}
const SYMS: [&str; 29] = [
    "++", ":=", "==", "!=", "<=", ">=", "&&", "||", "=>", "+=", "{", "}", "(", ")", "[", "]", ";", ",", ".", "=", "<", ">", "+", "-", "*", "/", "%", "!", "^",
];
fn lex(s: &str) -> Vec<Tok> {
    let b: Vec<char> = s.chars().collect();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            while !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c.is_ascii_digit() {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            let t: String = b[i..j].iter().collect();
            let n = match t.strip_prefix("0x") {
                Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
                None => BigUint::parse_bytes(t.as_bytes(), 10),
            };
            // pragma's version has dots and is skipped by the parser
            o.push(Tok::Num(n.unwrap_or_else(|| panic!("not a number: {t}"))));
            i = j;
        } else if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            o.push(Tok::Id(b[i..j].iter().collect()));
            i = j;
        } else {
            let s = SYMS.iter().find(|s| b[i..].iter().take(s.len()).collect::<String>() == **s).unwrap_or_else(|| panic!("unknown character {c:?}"));
            o.push(Tok::Sym(s));
            i += s.len();
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Uint,
    Bool,
    Struct(String),
    Fixed(Box<Ty>, usize),
    Dyn(Box<Ty>),
}
impl Ty {
    fn value(&self) -> bool {
        matches!(self, Ty::Uint | Ty::Bool)
    }
}
#[derive(Clone, Debug)]
enum Ex {
    Num(BigUint),
    Name(String),
    Member(Box<Ex>, String),
    Index(Box<Ex>, Box<Ex>),
    Call(Box<Ex>, Vec<Ex>),
    New(Ty, Box<Ex>),
    List(Vec<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Not(Box<Ex>),
    Inc(Box<Ex>),
}
#[derive(Clone, Debug)]
enum St {
    Block(Vec<St>),
    Decl(Ty, String, Option<Ex>),
    Assign(Ex, Ex),
    Expr(Ex),
    If(Ex, Box<St>, Option<Box<St>>),
    For(Box<St>, Ex, Box<St>, Box<St>),
    Return(Ex),
    Asm(Vec<Yul>),
}
#[derive(Clone, Debug)]
enum Yul {
    Set(String, Ex),
    Do(Ex),
    Switch(Ex, Vec<(Option<BigUint>, Vec<Yul>)>),
}
#[derive(Debug)]
struct Fun {
    params: Vec<(Ty, String)>,
    ret: Option<(Ty, String)>,
    body: Vec<St>,
    unit: String,
}
pub struct Contract {
    structs: HashMap<String, Vec<(Ty, String)>>,
    funs: HashMap<String, Rc<Fun>>,
}
struct P {
    t: Vec<Tok>,
    i: usize,
    unit: String,
}
impl P {
    fn sym(&mut self, s: &str) -> bool {
        let y = matches!(self.t.get(self.i), Some(Tok::Sym(x)) if *x == s);
        self.i += y as usize;
        y
    }
    fn need(&mut self, s: &str) {
        assert!(self.sym(s), "expected {s} at {:?}", &self.t[self.i.saturating_sub(5)..(self.i + 5).min(self.t.len())]);
    }
    fn id(&mut self) -> String {
        match self.t.get(self.i) {
            Some(Tok::Id(s)) => {
                self.i += 1;
                s.clone()
            }
            x => panic!("expected a name, found {x:?}"),
        }
    }
    fn kw(&mut self, s: &str) -> bool {
        let y = matches!(self.t.get(self.i), Some(Tok::Id(x)) if x == s);
        self.i += y as usize;
        y
    }
    fn ty(&mut self) -> Option<Ty> {
        let Some(Tok::Id(n)) = self.t.get(self.i).cloned() else { return None };
        self.i += 1;
        let mut t = match &n[..] {
            "uint" | "uint256" => Ty::Uint,
            "bool" => Ty::Bool,
            _ => {
                let mut q = format!("{}.{n}", self.unit);
                if self.sym(".") {
                    q = format!("{n}.{}", self.id());
                }
                Ty::Struct(q)
            }
        };
        while self.sym("[") {
            if self.sym("]") {
                t = Ty::Dyn(Box::new(t));
            } else if let (Some(Tok::Num(n)), Some(Tok::Sym("]"))) = (self.t.get(self.i).cloned(), self.t.get(self.i + 1)) {
                self.i += 2;
                t = Ty::Fixed(Box::new(t), n.to_usize()?);
            } else {
                return None;
            }
        }
        self.kw("memory");
        Some(t)
    }
    fn decl(&mut self) -> Option<(Ty, String)> {
        let at = self.i;
        if let Some(t) = self.ty() {
            if let Some(Tok::Id(n)) = self.t.get(self.i).cloned() {
                self.i += 1;
                return Some((t, n));
            }
        }
        self.i = at;
        None
    }
    fn params(&mut self) -> Vec<(Ty, String)> {
        self.need("(");
        let mut o = vec![];
        while !self.sym(")") {
            let t = self.ty().expect("a type");
            let n = if let Some(Tok::Id(n)) = self.t.get(self.i).cloned() {
                self.i += 1;
                n
            } else {
                String::new()
            };
            o.push((t, n));
            self.sym(",");
        }
        o
    }
    fn ex(&mut self, level: usize) -> Ex {
        const L: [&[&str]; 6] = [&["||"], &["&&"], &["==", "!="], &["<=", ">=", "<", ">"], &["+", "-"], &["*", "/", "%"]];
        if level == L.len() {
            return self.unary();
        }
        let mut l = self.ex(level + 1);
        'o: loop {
            for s in L[level] {
                if self.sym(s) {
                    let r = self.ex(level + 1);
                    l = Ex::Bin(s, Box::new(l), Box::new(r));
                    continue 'o;
                }
            }
            return l;
        }
    }
    fn unary(&mut self) -> Ex {
        if self.sym("!") {
            return Ex::Not(Box::new(self.unary()));
        }
        let mut e = if self.sym("(") {
            let e = self.ex(0);
            self.need(")");
            e
        } else if self.sym("[") {
            Ex::List(self.list("]"))
        } else if self.kw("new") {
            let t = self.ty().expect("a type");
            self.need("(");
            let n = self.ex(0);
            self.need(")");
            Ex::New(t, Box::new(n))
        } else if let Some(Tok::Num(n)) = self.t.get(self.i).cloned() {
            self.i += 1;
            Ex::Num(n)
        } else {
            Ex::Name(self.id())
        };
        loop {
            e = if self.sym(".") {
                Ex::Member(Box::new(e), self.id())
            } else if self.sym("[") {
                let i = self.ex(0);
                self.need("]");
                Ex::Index(Box::new(e), Box::new(i))
            } else if self.sym("(") {
                Ex::Call(Box::new(e), self.list(")"))
            } else if self.sym("++") {
                Ex::Inc(Box::new(e))
            } else {
                return e;
            }
        }
    }
    fn list(&mut self, end: &str) -> Vec<Ex> {
        let mut o = vec![];
        while !self.sym(end) {
            o.push(self.ex(0));
            self.sym(",");
        }
        o
    }
    fn block(&mut self) -> Vec<St> {
        self.need("{");
        let mut o = vec![];
        while !self.sym("}") {
            o.push(self.st());
        }
        o
    }
    fn simple(&mut self) -> St {
        if let Some((t, n)) = self.decl() {
            let v = self.sym("=").then(|| self.ex(0));
            return St::Decl(t, n, v);
        }
        let l = self.ex(0);
        if self.sym("=") {
            return St::Assign(l, self.ex(0));
        }
        if self.sym("+=") {
            let r = self.ex(0);
            return St::Assign(l.clone(), Ex::Bin("+", Box::new(l), Box::new(r)));
        }
        St::Expr(l)
    }
    fn st(&mut self) -> St {
        if matches!(self.t.get(self.i), Some(Tok::Sym("{"))) {
            return St::Block(self.block());
        }
        if self.kw("if") {
            self.need("(");
            let c = self.ex(0);
            self.need(")");
            let a = self.st();
            let b = self.kw("else").then(|| Box::new(self.st()));
            return St::If(c, Box::new(a), b);
        }
        if self.kw("for") {
            self.need("(");
            let i = self.simple();
            self.need(";");
            let c = self.ex(0);
            self.need(";");
            let p = self.simple();
            self.need(")");
            return St::For(Box::new(i), c, Box::new(p), Box::new(self.st()));
        }
        if self.kw("assembly") {
            return St::Asm(self.yul());
        }
        let s = if self.kw("return") { St::Return(self.ex(0)) } else { self.simple() };
        self.need(";");
        s
    }
    fn yul(&mut self) -> Vec<Yul> {
        self.need("{");
        let mut o = vec![];
        while !self.sym("}") {
            if self.kw("switch") {
                let e = self.ex(0);
                let mut arms = vec![];
                loop {
                    if self.kw("case") {
                        let Ex::Num(n) = self.ex(0) else { panic!("a case") };
                        arms.push((Some(n), self.yul()));
                    } else if self.kw("default") {
                        arms.push((None, self.yul()));
                    } else {
                        break;
                    }
                }
                o.push(Yul::Switch(e, arms));
                continue;
            }
            let e = self.ex(0);
            o.push(match e {
                Ex::Name(n) => {
                    self.need(":=");
                    Yul::Set(n, self.ex(0))
                }
                e => Yul::Do(e),
            });
        }
        o
    }
}
impl Contract {
    pub fn parse(s: &str) -> Contract {
        // the version of the compiler has no meaning here
        let s: String = s.lines().filter(|l| !l.trim_start().starts_with("pragma")).collect::<Vec<_>>().join("\n");
        let mut p = P { t: lex(&s), i: 0, unit: String::new() };
        let mut c = Contract { structs: HashMap::new(), funs: HashMap::new() };
        while p.i < p.t.len() {
            assert!(p.kw("library") || p.kw("contract"), "at {:?}", &p.t[p.i..(p.i + 5).min(p.t.len())]);
            p.unit = p.id();
            p.need("{");
            while !p.sym("}") {
                if p.kw("using") {
                    while !p.sym(";") {
                        p.i += 1;
                    }
                } else if p.kw("struct") {
                    let n = p.id();
                    let n = format!("{}.{n}", p.unit);
                    p.need("{");
                    let mut f = vec![];
                    while !p.sym("}") {
                        f.push(p.decl().expect("a field"));
                        p.need(";");
                    }
                    c.structs.insert(n, f);
                } else {
                    assert!(p.kw("function"), "at {:?}", &p.t[p.i..(p.i + 5).min(p.t.len())]);
                    let n = p.id();
                    let params = p.params();
                    let mut ret = None;
                    while !matches!(p.t.get(p.i), Some(Tok::Sym("{"))) {
                        if p.kw("returns") {
                            ret = p.params().into_iter().next();
                        } else {
                            p.id();
                        }
                    }
                    let body = p.block();
                    let unit = p.unit.clone();
                    // overloads differ by the types of their arguments
                    let key = format!("{unit}.{n}");
                    c.funs.insert(key, Rc::new(Fun { params, ret, body, unit }));
                }
            }
        }
        c
    }
    /// number of public inputs `verifyTx` asks for
    pub fn inputs(&self) -> usize {
        match self.funs["Verifier.verifyTx"].params.get(1) {
            None => 0,
            Some((Ty::Fixed(_, n), _)) => *n,
            x => panic!("{x:?}"),
        }
    }
    /// `proof`: a.X a.Y b.X[0] b.X[1] b.Y[0] b.Y[1] c.X c.Y
    pub fn verify(&self, proof: &[BigUint; 8], inputs: &[BigUint]) -> Result<bool, String> {
        let mut m = Machine { c: self, mem: vec![0; 0x80], calls: [0; 3] };
        let g1 = |m: &mut Machine, x: &[BigUint]| m.words(x);
        let a = g1(&mut m, &proof[0..2]);
        let (x, y) = (m.words(&proof[2..4]), m.words(&proof[4..6]));
        let b = m.words(&[x.into(), y.into()]);
        let c = g1(&mut m, &proof[6..8]);
        let p = m.words(&[a.into(), b.into(), c.into()]);
        let mut args = vec![V::Ptr(p, Ty::Struct("Verifier.Proof".into()))];
        if !inputs.is_empty() {
            let i = m.words(inputs);
            args.push(V::Ptr(i, Ty::Fixed(Box::new(Ty::Uint), inputs.len())));
        }
        assert_eq!(self.funs["Verifier.verifyTx"].params.len(), args.len(), "arguments of verifyTx");
        match m.call("Verifier.verifyTx", args)? {
            Some(V::Bool(b)) => Ok(b),
            x => panic!("verifyTx returned {x:?}"),
        }
    }
}
#[derive(Clone, Debug)]
enum V {
    Int(BigUint),
    Bool(bool),
    Ptr(usize, Ty),
}
struct Machine<'a> {
    c: &'a Contract,
    mem: Vec<u8>,
    calls: [usize; 3],
}
type Env = HashMap<String, (Ty, V)>;
type R<T> = Result<T, String>;
fn revert<T>(s: &str) -> R<T> {
    Err(s.to_string())
}
impl Machine<'_> {
    fn alloc(&mut self, n: usize) -> usize {
        let at = self.mem.len();
        self.mem.resize(at + n, 0);
        at
    }
    fn store(&mut self, at: usize, x: &BigUint) {
        let b = x.to_bytes_be();
        assert!(b.len() <= 32);
        self.mem[at..at + 32].fill(0);
        self.mem[at + 32 - b.len()..at + 32].copy_from_slice(&b);
    }
    fn load(&mut self, at: usize) -> BigUint {
        BigUint::from_bytes_be(&self.mem[at..at + 32])
    }
    fn words(&mut self, x: &[BigUint]) -> usize {
        let at = self.alloc(32 * x.len());
        x.iter().enumerate().for_each(|(i, v)| self.store(at + 32 * i, v));
        at
    }
    fn zero(&mut self, t: &Ty) -> V {
        match t {
            Ty::Uint => V::Int(BigUint::zero()),
            Ty::Bool => V::Bool(false),
            Ty::Struct(n) => {
                let f = self.c.structs.get(n).unwrap_or_else(|| panic!("no struct {n}"));
                let at = self.alloc(32 * f.len());
                for (i, (t, _)) in f.iter().enumerate() {
                    let v = self.zero(t);
                    self.put(at + 32 * i, &v);
                }
                V::Ptr(at, t.clone())
            }
            Ty::Fixed(e, n) => {
                let at = self.alloc(32 * n);
                for i in 0..*n {
                    let v = self.zero(e);
                    self.put(at + 32 * i, &v);
                }
                V::Ptr(at, t.clone())
            }
            Ty::Dyn(_) => V::Ptr(0x60, t.clone()),
        }
    }
    fn put(&mut self, at: usize, v: &V) {
        let w = match v {
            V::Int(x) => x.clone(),
            V::Bool(b) => BigUint::from(*b as u8),
            V::Ptr(p, _) => (*p).into(),
        };
        self.store(at, &w)
    }
    fn get(&mut self, at: usize, t: &Ty) -> V {
        let w = self.load(at);
        match t {
            Ty::Uint => V::Int(w),
            Ty::Bool => V::Bool(!w.is_zero()),
            _ => V::Ptr(w.to_usize().expect("a pointer"), t.clone()),
        }
    }
    fn call(&mut self, f: &str, args: Vec<V>) -> R<Option<V>> {
        let f = self.c.funs.get(f).unwrap_or_else(|| panic!("no function {f}")).clone();
        assert_eq!(f.params.len(), args.len());
        let mut env: Env = f.params.iter().zip(args).map(|((t, n), v)| (n.clone(), (t.clone(), v))).collect();
        if let Some((t, n)) = &f.ret {
            let z = self.zero(t);
            env.insert(n.clone(), (t.clone(), z));
        }
        if let Some(v) = self.run(&f.body, &mut env, &f.unit)? {
            return Ok(Some(v));
        }
        Ok(f.ret.as_ref().map(|(_, n)| env[n].1.clone()))
    }
    fn run(&mut self, b: &[St], env: &mut Env, unit: &str) -> R<Option<V>> {
        for s in b {
            if let Some(v) = self.step(s, env, unit)? {
                return Ok(Some(v));
            }
        }
        Ok(None)
    }
    fn truth(&mut self, e: &Ex, env: &mut Env, unit: &str) -> R<bool> {
        match self.eval(e, env, unit)? {
            V::Bool(b) => Ok(b),
            x => panic!("not a bool: {x:?}"),
        }
    }
    fn step(&mut self, s: &St, env: &mut Env, unit: &str) -> R<Option<V>> {
        match s {
            St::Block(b) => return self.run(b, env, unit),
            St::Decl(t, n, e) => {
                let v = match e {
                    Some(e) => self.eval(e, env, unit)?,
                    None => self.zero(t),
                };
                env.insert(n.clone(), (t.clone(), v));
            }
            St::Expr(e) => {
                self.eval(e, env, unit)?;
            }
            St::Assign(l, r) => {
                let v = self.eval(r, env, unit)?;
                if let Ex::Name(n) = l {
                    env.get_mut(n).unwrap_or_else(|| panic!("no variable {n}")).1 = v;
                } else {
                    let (at, t) = self.place(l, env, unit)?;
                    assert!(t.value() == !matches!(v, V::Ptr(..)), "{l:?} = {v:?}");
                    self.put(at, &v);
                }
            }
            St::If(c, a, b) => {
                if self.truth(c, env, unit)? {
                    return self.step(a, env, unit);
                } else if let Some(b) = b {
                    return self.step(b, env, unit);
                }
            }
            St::For(i, c, p, b) => {
                self.step(i, env, unit)?;
                while self.truth(c, env, unit)? {
                    if let Some(v) = self.step(b, env, unit)? {
                        return Ok(Some(v));
                    }
                    self.step(p, env, unit)?;
                }
            }
            St::Return(e) => return Ok(Some(self.eval(e, env, unit)?)),
            St::Asm(y) => self.asm(y, env)?,
        }
        Ok(None)
    }
    /// address and type of a part of memory
    fn place(&mut self, e: &Ex, env: &mut Env, unit: &str) -> R<(usize, Ty)> {
        match e {
            Ex::Member(o, f) => {
                let V::Ptr(at, Ty::Struct(n)) = self.eval(o, env, unit)? else { panic!("{o:?} is no struct") };
                let fs = &self.c.structs[&n];
                let i = fs.iter().position(|x| x.1 == *f).unwrap_or_else(|| panic!("{n} has no {f}"));
                Ok((at + 32 * i, fs[i].0.clone()))
            }
            Ex::Index(o, i) => {
                let V::Int(i) = self.eval(i, env, unit)? else { panic!("an index") };
                match self.eval(o, env, unit)? {
                    V::Ptr(at, Ty::Fixed(t, n)) => match i.to_usize() {
                        Some(i) if i < n => Ok((at + 32 * i, *t)),
                        _ => revert("index"),
                    },
                    V::Ptr(at, Ty::Dyn(t)) => {
                        let n = self.load(at);
                        if i >= n {
                            return revert("index");
                        }
                        Ok((at + 32 + 32 * i.to_usize().unwrap(), *t))
                    }
                    x => panic!("{x:?} is no array"),
                }
            }
            _ => panic!("cannot assign to {e:?}"),
        }
    }
    fn eval(&mut self, e: &Ex, env: &mut Env, unit: &str) -> R<V> {
        let top = BigUint::one() << 256usize;
        Ok(match e {
            Ex::Num(n) => V::Int(n.clone()),
            Ex::Name(n) => match &n[..] {
                "true" | "false" => V::Bool(n == "true"),
                _ => env.get(n).unwrap_or_else(|| panic!("no variable {n}")).1.clone(),
            },
            Ex::Member(o, f) if f == "length" => match self.eval(o, env, unit)? {
                V::Ptr(_, Ty::Fixed(_, n)) => V::Int(n.into()),
                V::Ptr(at, Ty::Dyn(_)) => V::Int(self.load(at)),
                x => panic!("{x:?} has no length"),
            },
            Ex::Member(..) | Ex::Index(..) => {
                let (at, t) = self.place(e, env, unit)?;
                self.get(at, &t)
            }
            Ex::New(t, n) => {
                let V::Int(n) = self.eval(n, env, unit)? else { panic!("a length") };
                let Ty::Dyn(el) = t else { panic!("new {t:?}") };
                let Some(k) = n.to_usize().filter(|k| *k < 1 << 20) else { return revert("memory") };
                let at = self.alloc(32 + 32 * k);
                self.store(at, &n);
                for i in 0..k {
                    let v = self.zero(el);
                    self.put(at + 32 + 32 * i, &v);
                }
                V::Ptr(at, t.clone())
            }
            Ex::List(v) => {
                let vs = v.iter().map(|x| self.eval(x, env, unit)).collect::<R<Vec<_>>>()?;
                let at = self.alloc(32 * vs.len());
                vs.iter().enumerate().for_each(|(i, v)| self.put(at + 32 * i, v));
                V::Ptr(at, Ty::Fixed(Box::new(Ty::Uint), vs.len()))
            }
            Ex::Not(x) => V::Bool(!self.truth(x, env, unit)?),
            Ex::Inc(x) => {
                let Ex::Name(n) = &**x else { panic!("{x:?}++") };
                let V::Int(v) = env[n].1.clone() else { panic!("{n}++") };
                env.get_mut(n).unwrap().1 = V::Int(&v + 1u32);
                V::Int(v)
            }
            Ex::Bin("&&", a, b) => V::Bool(self.truth(a, env, unit)? && self.truth(b, env, unit)?),
            Ex::Bin("||", a, b) => V::Bool(self.truth(a, env, unit)? || self.truth(b, env, unit)?),
            Ex::Bin(op, a, b) => {
                let (a, b) = (self.eval(a, env, unit)?, self.eval(b, env, unit)?);
                let (V::Int(a), V::Int(b)) = (&a, &b) else { panic!("{a:?} {op} {b:?}") };
                let int = |x: BigUint| if x < top { Ok(V::Int(x)) } else { revert("overflow") };
                match *op {
                    "==" => V::Bool(a == b),
                    "!=" => V::Bool(a != b),
                    "<" => V::Bool(a < b),
                    "<=" => V::Bool(a <= b),
                    ">" => V::Bool(a > b),
                    ">=" => V::Bool(a >= b),
                    "+" => int(a + b)?,
                    "*" => int(a * b)?,
                    "-" if a < b => return revert("underflow"),
                    "-" => V::Int(a - b),
                    _ if b.is_zero() => return revert("division by zero"),
                    "/" => V::Int(a / b),
                    "%" => V::Int(a % b),
                    _ => panic!("{op}"),
                }
            }
            Ex::Call(f, args) => {
                let name = match &**f {
                    Ex::Name(n) => match &n[..] {
                        "require" => {
                            return if self.truth(&args[0], env, unit)? { Ok(V::Bool(true)) } else { revert("require") };
                        }
                        "uint" | "uint256" => return self.eval(&args[0], env, unit),
                        _ => format!("{unit}.{n}"),
                    },
                    Ex::Member(l, n) => match &**l {
                        Ex::Name(l) if !env.contains_key(l) => format!("{l}.{n}"),
                        l => panic!("call of {n} on {l:?}"),
                    },
                    f => panic!("call of {f:?}"),
                };
                let vs = args.iter().map(|x| self.eval(x, env, unit)).collect::<R<Vec<_>>>()?;
                if let Some(f) = self.c.structs.get(&name) {
                    assert_eq!(f.len(), vs.len());
                    let at = self.alloc(32 * vs.len());
                    vs.iter().enumerate().for_each(|(i, v)| self.put(at + 32 * i, v));
                    return Ok(V::Ptr(at, Ty::Struct(name)));
                }
                self.call(&name, vs)?.unwrap_or(V::Bool(false))
            }
        })
    }
    fn asm(&mut self, y: &[Yul], env: &mut Env) -> R<()> {
        for s in y {
            match s {
                Yul::Set(n, e) => {
                    let v = self.word(e, env)?;
                    let d = env.get_mut(n).unwrap_or_else(|| panic!("no variable {n}"));
                    d.1 = match d.0 {
                        Ty::Bool => V::Bool(!v.is_zero()),
                        Ty::Uint => V::Int(v),
                        _ => panic!("{n} := {v}"),
                    };
                }
                Yul::Do(e) => {
                    self.word(e, env)?;
                }
                Yul::Switch(e, arms) => {
                    let v = self.word(e, env)?;
                    if let Some((_, b)) = arms.iter().find(|a| a.0.as_ref().map(|n| *n == v).unwrap_or(true)) {
                        self.asm(b, env)?;
                    }
                }
            }
        }
        Ok(())
    }
    fn word(&mut self, e: &Ex, env: &mut Env) -> R<BigUint> {
        let top = BigUint::one() << 256usize;
        Ok(match e {
            Ex::Num(n) => n.clone(),
            Ex::Name(n) => match &env.get(n).unwrap_or_else(|| panic!("no variable {n}")).1 {
                V::Int(x) => x.clone(),
                V::Bool(b) => BigUint::from(*b as u8),
                V::Ptr(p, _) => (*p).into(),
            },
            Ex::Call(f, args) => {
                let Ex::Name(f) = &**f else { panic!("{f:?}") };
                let a = args.iter().map(|x| self.word(x, env)).collect::<R<Vec<_>>>()?;
                match (&f[..], &a[..]) {
                    ("gas", []) => BigUint::from(30_000_000u32),
                    ("sub", [x, y]) => (x + &top - y) % top,
                    ("add", [x, y]) => (x + y) % top,
                    ("mul", [x, y]) => (x * y) % top,
                    ("mload", [x]) => self.load(x.to_usize().unwrap()),
                    ("mstore", [x, y]) => {
                        self.store(x.to_usize().unwrap(), y);
                        BigUint::zero()
                    }
                    ("invalid", []) => return revert("invalid"),
                    ("staticcall", [_, to, i, n, o, on]) => {
                        let [i, n, o, on] = [i, n, o, on].map(|x| x.to_usize().unwrap());
                        // memory beyond what is allocated reads as zero
                        if self.mem.len() < (i + n).max(o + on) {
                            self.mem.resize((i + n).max(o + on), 0);
                        }
                        let input = self.mem[i..i + n].to_vec();
                        match self.precompile(to.to_usize().unwrap(), &input) {
                            Some(r) => {
                                let k = r.len().min(on);
                                self.mem[o..o + k].copy_from_slice(&r[..k]);
                                BigUint::one()
                            }
                            None => BigUint::zero(),
                        }
                    }
                    x => panic!("assembly: {x:?}"),
                }
            }
            e => panic!("assembly: {e:?}"),
        })
    }
    fn precompile(&mut self, n: usize, input: &[u8]) -> Option<Vec<u8>> {
        let w = |i: usize| {
            let mut b = [0u8; 32];
            for (k, x) in b.iter_mut().enumerate() {
                *x = *input.get(32 * i + k).unwrap_or(&0);
            }
            b
        };
        let fq = |b: [u8; 32]| {
            let x = BigUint::from_bytes_be(&b);
            (x < BigUint::from_bytes_le(&ark_ff::BigInteger::to_bytes_le(&Fq::MODULUS))).then(|| Fq::from_be_bytes_mod_order(&b))
        };
        let g1 = |i: usize| -> Option<Affine<G1Config>> {
            let (x, y) = (fq(w(i))?, fq(w(i + 1))?);
            if int(&x).is_zero() && int(&y).is_zero() {
                return Some(Affine::identity());
            }
            let p = Affine::<G1Config>::new_unchecked(x, y);
            p.is_on_curve().then_some(p)
        };
        let out = |p: Affine<G1Config>| {
            let mut o = vec![0u8; 64];
            if let Some((x, y)) = p.xy() {
                for (k, v) in [x, y].iter().enumerate() {
                    let b = int(v).to_bytes_be();
                    o[32 * (k + 1) - b.len()..32 * (k + 1)].copy_from_slice(&b);
                }
            }
            o
        };
        match n {
            6 => {
                self.calls[0] += 1;
                Some(out((g1(0)? + g1(2)?).into_affine()))
            }
            7 => {
                self.calls[1] += 1;
                Some(out((g1(0)? * Fr::from_be_bytes_mod_order(&w(2))).into_affine()))
            }
            8 => {
                self.calls[2] += 1;
                if input.len() % 192 != 0 {
                    return None;
                }
                let (mut a, mut b) = (vec![], vec![]);
                for k in 0..input.len() / 192 {
                    a.push(g1(6 * k)?);
                    // the imaginary part comes first
                    let f = |i: usize| Some(Fq2::new(fq(w(6 * k + i + 1))?, fq(w(6 * k + i))?));
                    let (x, y) = (f(2)?, f(4)?);
                    let z = |v: &Fq2| int(&v.c0).is_zero() && int(&v.c1).is_zero();
                    if z(&x) && z(&y) {
                        b.push(Affine::<G2Config>::identity());
                        continue;
                    }
                    let p = Affine::<G2Config>::new_unchecked(x, y);
                    if !p.is_on_curve() || !p.is_in_correct_subgroup_assuming_on_curve() {
                        return None;
                    }
                    b.push(p);
                }
                let r = Bn254::multi_pairing(a, b);
                let mut o = vec![0u8; 32];
                o[31] = (r.0 == <<Bn254 as Pairing>::TargetField as ark_ff::Field>::ONE) as u8;
                Some(o)
            }
            n => panic!("precompile {n}"),
        }
    }
}
