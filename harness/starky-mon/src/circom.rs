//! An interpreter for the circom language, as far as the generated verifiers and the library circuits use it.
//! A circuit is evaluated on given inputs with the hints the circuit itself computes (or with hints replaced by an
//! adversary); every `===` and every `<==` is a constraint. Degrees are tracked, since circom refuses a constraint
//! that is not quadratic.
use crate::refhash::{from_big, to_big, Mod256, U256};
use common::gl;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

// ---------------------------------------------------------------- fields
pub trait Fld {
    type E: Copy + Eq + Hash + Debug;
    fn big(&self, b: &BigUint) -> Self::E;
    fn int(&self, e: &Self::E) -> BigUint;
    fn prime(&self) -> BigUint;
    fn u(&self, v: u64) -> Self::E;
    /// the value if it is below 2^32
    fn small(&self, e: &Self::E) -> Option<usize>;
    fn zero(&self, e: &Self::E) -> bool;
    fn add(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn sub(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn mul(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn inv(&self, a: &Self::E) -> Self::E {
        let p = self.prime();
        self.big(&self.int(a).modpow(&(&p - 2u32), &p))
    }
    /// integer quotient and remainder of the canonical representatives
    fn divrem(&self, a: &Self::E, b: &Self::E) -> (Self::E, Self::E);
    /// circom compares representatives in (-p/2, p/2]
    fn less(&self, a: &Self::E, b: &Self::E) -> bool {
        let (x, y, h) = (self.int(a), self.int(b), self.prime() >> 1);
        match (x > h, y > h) {
            (true, false) => true,
            (false, true) => false,
            _ => x < y,
        }
    }
}
pub struct GlF;
impl Fld for GlF {
    type E = u64;
    fn big(&self, b: &BigUint) -> u64 {
        (b % common::P).to_u64().unwrap()
    }
    fn int(&self, e: &u64) -> BigUint {
        BigUint::from(*e)
    }
    fn prime(&self) -> BigUint {
        BigUint::from(common::P)
    }
    fn u(&self, v: u64) -> u64 {
        v % common::P
    }
    fn small(&self, e: &u64) -> Option<usize> {
        (*e < 1 << 32).then_some(*e as usize)
    }
    fn zero(&self, e: &u64) -> bool {
        *e == 0
    }
    fn add(&self, a: &u64, b: &u64) -> u64 {
        gl::add(*a, *b)
    }
    fn sub(&self, a: &u64, b: &u64) -> u64 {
        gl::sub(*a, *b)
    }
    fn mul(&self, a: &u64, b: &u64) -> u64 {
        gl::mul(*a, *b)
    }
    fn divrem(&self, a: &u64, b: &u64) -> (u64, u64) {
        (a / b, a % b)
    }
}
pub struct BigF {
    m: Mod256,
    p: BigUint,
}
impl BigF {
    pub fn new(p: &BigUint) -> Self {
        BigF { m: Mod256::new(p), p: p.clone() }
    }
}
impl Fld for BigF {
    type E = U256;
    fn big(&self, b: &BigUint) -> U256 {
        from_big(&(b % &self.p))
    }
    fn int(&self, e: &U256) -> BigUint {
        to_big(e)
    }
    fn prime(&self) -> BigUint {
        self.p.clone()
    }
    fn u(&self, v: u64) -> U256 {
        [v, 0, 0, 0]
    }
    fn small(&self, e: &U256) -> Option<usize> {
        (e[1] | e[2] | e[3] == 0 && e[0] < 1 << 32).then_some(e[0] as usize)
    }
    fn zero(&self, e: &U256) -> bool {
        *e == [0; 4]
    }
    fn add(&self, a: &U256, b: &U256) -> U256 {
        self.m.add(a, b)
    }
    fn sub(&self, a: &U256, b: &U256) -> U256 {
        if *b == [0; 4] {
            return *a;
        }
        // a + (p - b)
        let p = from_big(&self.p);
        let (mut n, mut borrow) = ([0u64; 4], false);
        for i in 0..4 {
            let (x, c) = p[i].overflowing_sub(b[i]);
            let (y, d) = x.overflowing_sub(borrow as u64);
            n[i] = y;
            borrow = c || d;
        }
        self.m.add(a, &n)
    }
    fn mul(&self, a: &U256, b: &U256) -> U256 {
        self.m.mmul(&self.m.to_mont(a), b)
    }
    fn divrem(&self, a: &U256, b: &U256) -> (U256, U256) {
        if b[1] | b[2] | b[3] == 0 {
            let (mut q, mut r) = ([0u64; 4], 0u64);
            for i in (0..4).rev() {
                let x = (r as u128) << 64 | a[i] as u128;
                q[i] = (x / b[0] as u128) as u64;
                r = (x % b[0] as u128) as u64;
            }
            return (q, [r, 0, 0, 0]);
        }
        let (x, y) = (to_big(a), to_big(b));
        (from_big(&(&x / &y)), from_big(&(&x % &y)))
    }
}

// ---------------------------------------------------------------- outcomes
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// a constraint or an assertion does not hold
    Unsat(String),
    /// the text is not a circuit at all
    Circuit(String),
}
type Res<T> = Result<T, Bad>;
fn bad<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad::Circuit(s.into()))
}
fn unsat<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad::Unsat(s.into()))
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(BigUint),
    Str(String),
    Op(&'static str),
    End,
}
const OPS: [&str; 53] = [
    "<==", "==>", "<--", "-->", "===", "**=", "<<=", ">>=", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "**", "++", "--", "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "+",
    "-", "*", "/", "\\", "%", "&", "|", "^", "~", "!", "<", ">", "=", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}",
];
fn tokens(s: &str) -> Res<Vec<(Tok, usize)>> {
    let b = s.as_bytes();
    let (mut i, mut line, mut out) = (0, 1, vec![]);
    'next: while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
        }
        if c.is_ascii_whitespace() {
            i += 1;
        } else if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if s[i..].starts_with("/*") {
            match s[i + 2..].find("*/") {
                Some(k) => {
                    line += s[i..i + k + 4].matches('\n').count();
                    i += k + 4;
                }
                None => return bad("unclosed comment"),
            }
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push((Tok::Id(s[st..i].to_string()), line));
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            let t = &s[st..i];
            let n = match t.strip_prefix("0x") {
                Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
                None => BigUint::parse_bytes(t.as_bytes(), 10),
            };
            match n {
                Some(n) => out.push((Tok::Num(n), line)),
                None => return bad(format!("line {line}: number {t}")),
            }
        } else if c == b'"' {
            let e = s[i + 1..].find('"').map(|k| i + 1 + k);
            match e {
                Some(e) => {
                    out.push((Tok::Str(s[i + 1..e].to_string()), line));
                    i = e + 1;
                }
                None => return bad(format!("line {line}: unclosed string")),
            }
        } else {
            for o in OPS {
                if s[i..].starts_with(o) {
                    out.push((Tok::Op(o), line));
                    i += o.len();
                    continue 'next;
                }
            }
            return bad(format!("line {line}: character {:?}", c as char));
        }
    }
    out.push((Tok::End, line));
    Ok(out)
}

// ---------------------------------------------------------------- syntax
#[derive(Debug)]
enum Ex<E> {
    Num(E),
    /// a local name with indices, possibly `.signal[indices]` behind it
    Ref(usize, Vec<Ex<E>>, Option<(String, Vec<Ex<E>>)>),
    Un(&'static str, Box<Ex<E>>),
    Bin(&'static str, Box<(Ex<E>, Ex<E>)>),
    If(Box<(Ex<E>, Ex<E>, Ex<E>)>),
    Arr(Vec<Ex<E>>),
    Call(String, Vec<Ex<E>>),
    Anon(String, Vec<Ex<E>>, Vec<Ex<E>>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Var,
    Input,
    Output,
    Signal,
    Comp,
}
#[derive(Debug)]
enum St<E> {
    Decl(usize, Kind, Vec<Ex<E>>, Option<(&'static str, Ex<E>)>),
    Assign(Ex<E>, &'static str, Ex<E>),
    Eq(Ex<E>, Ex<E>),
    If(Ex<E>, Box<St<E>>, Option<Box<St<E>>>),
    While(Ex<E>, Box<St<E>>),
    Return(Ex<E>),
    Assert(Ex<E>),
    Log(Vec<Ex<E>>),
    Block(Vec<Rc<(St<E>, usize)>>),
}
#[derive(Debug)]
struct Def<E> {
    name: String,
    params: usize,
    slots: Vec<String>,
    body: Vec<Rc<(St<E>, usize)>>,
    /// per top-level statement: whether it touches only variables, so that it can run before the inputs are known
    pure: Vec<bool>,
    file: String,
}
pub struct Program<F: Fld> {
    f: F,
    templates: HashMap<String, Rc<Def<F::E>>>,
    functions: HashMap<String, Rc<Def<F::E>>>,
    builtins: HashMap<String, Builtin<F>>,
    main: Option<(Vec<String>, String, Vec<BigUint>)>,
    loaded: Vec<String>,
    memo: RefCell<HashMap<(String, Vec<F::E>), V<F::E>>>,
    /// replaces the hint of a signal (template, signal, flat index) by another value
    pub forge: RefCell<Option<Box<dyn FnMut(&str, &str, usize, F::E) -> F::E>>>,
    pub constraints: std::cell::Cell<u64>,
    pub hints: std::cell::Cell<u64>,
}
pub struct Ports {
    pub inputs: Vec<(&'static str, Vec<usize>)>,
    pub outputs: Vec<(&'static str, Vec<usize>)>,
}
/// a circuit of a library that is not part of the repository: its signals, and what it computes or why it cannot
pub struct Builtin<F: Fld> {
    pub ports: Box<dyn Fn(&[usize]) -> Ports>,
    pub run: Box<dyn Fn(&F, &[usize], &[Vec<F::E>]) -> Result<Vec<Vec<F::E>>, String>>,
}

struct Parser<'a, F: Fld> {
    f: &'a F,
    t: Vec<(Tok, usize)>,
    i: usize,
    file: String,
    scopes: Vec<HashMap<String, usize>>,
    slots: Vec<String>,
    kinds: Vec<Kind>,
}
impl<'a, F: Fld> Parser<'a, F> {
    fn peek(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn line(&self) -> usize {
        self.t[self.i].1
    }
    fn err<T>(&self, s: impl std::fmt::Display) -> Res<T> {
        bad(format!("{}:{}: {s}", self.file, self.line()))
    }
    fn is(&self, o: &str) -> bool {
        matches!(self.peek(), Tok::Op(x) if *x == o)
    }
    fn eat(&mut self, o: &str) -> bool {
        let y = self.is(o);
        self.i += y as usize;
        y
    }
    fn need(&mut self, o: &str) -> Res<()> {
        if self.eat(o) {
            Ok(())
        } else {
            self.err(format!("expected {o}, found {:?}", self.peek()))
        }
    }
    fn word(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == w)
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let y = self.word(w);
        self.i += y as usize;
        y
    }
    fn ident(&mut self) -> Res<String> {
        match self.peek().clone() {
            Tok::Id(x) => {
                self.i += 1;
                Ok(x)
            }
            t => self.err(format!("expected a name, found {t:?}")),
        }
    }
    fn declare(&mut self, n: String, k: Kind) -> Res<usize> {
        if self.scopes.last().unwrap().contains_key(&n) {
            return self.err(format!("{n} declared twice"));
        }
        self.slots.push(n.clone());
        self.kinds.push(k);
        let s = self.slots.len() - 1;
        self.scopes.last_mut().unwrap().insert(n, s);
        Ok(s)
    }
    fn lookup(&self, n: &str) -> Option<usize> {
        self.scopes.iter().rev().find_map(|s| s.get(n).copied())
    }
    // expressions
    fn expr(&mut self) -> Res<Ex<F::E>> {
        let c = self.binary(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.need(":")?;
            let b = self.expr()?;
            return Ok(Ex::If(Box::new((c, a, b))));
        }
        Ok(c)
    }
    fn binary(&mut self, lvl: usize) -> Res<Ex<F::E>> {
        const L: [&[&str]; 10] = [&["||"], &["&&"], &["==", "!=", "<=", ">=", "<", ">"], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "\\", "%"], &["**"]];
        if lvl == L.len() {
            return self.unary();
        }
        let mut a = self.binary(lvl + 1)?;
        loop {
            let Tok::Op(o) = *self.peek() else { return Ok(a) };
            if !L[lvl].contains(&o) {
                return Ok(a);
            }
            self.i += 1;
            let b = self.binary(lvl + 1)?;
            a = Ex::Bin(o, Box::new((a, b)));
        }
    }
    fn unary(&mut self) -> Res<Ex<F::E>> {
        for o in ["-", "!", "~"] {
            if self.eat(o) {
                return Ok(Ex::Un(o, Box::new(self.unary()?)));
            }
        }
        self.primary()
    }
    fn list(&mut self, close: &str) -> Res<Vec<Ex<F::E>>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.expr()?);
            if !self.eat(",") {
                break;
            }
        }
        self.need(close)?;
        Ok(v)
    }
    fn indices(&mut self) -> Res<Vec<Ex<F::E>>> {
        let mut v = vec![];
        while self.eat("[") {
            v.push(self.expr()?);
            self.need("]")?;
        }
        Ok(v)
    }
    fn primary(&mut self) -> Res<Ex<F::E>> {
        if self.eat("(") {
            let e = self.expr()?;
            self.need(")")?;
            return Ok(e);
        }
        if self.eat("[") {
            return Ok(Ex::Arr(self.list("]")?));
        }
        if let Tok::Num(n) = self.peek().clone() {
            self.i += 1;
            return Ok(Ex::Num(self.f.big(&n)));
        }
        self.eat_word("parallel");
        let n = self.ident()?;
        if self.eat("(") {
            let a = self.list(")")?;
            if self.eat("(") {
                let b = self.list(")")?;
                return Ok(Ex::Anon(n, a, b));
            }
            return Ok(Ex::Call(n, a));
        }
        let Some(s) = self.lookup(&n) else { return self.err(format!("undeclared name {n}")) };
        let i = self.indices()?;
        if self.eat(".") {
            let m = self.ident()?;
            let j = self.indices()?;
            return Ok(Ex::Ref(s, i, Some((m, j))));
        }
        Ok(Ex::Ref(s, i, None))
    }
    // statements
    fn block(&mut self) -> Res<Vec<Rc<(St<F::E>, usize)>>> {
        self.need("{")?;
        self.scopes.push(HashMap::new());
        let mut v = vec![];
        while !self.eat("}") {
            self.statement(&mut v)?;
        }
        self.scopes.pop();
        Ok(v)
    }
    fn one(&mut self) -> Res<Box<St<F::E>>> {
        if self.is("{") {
            return Ok(Box::new(St::Block(self.block()?)));
        }
        self.scopes.push(HashMap::new());
        let mut v = vec![];
        self.statement(&mut v)?;
        self.scopes.pop();
        Ok(Box::new(St::Block(v)))
    }
    fn simple(&mut self, v: &mut Vec<Rc<(St<F::E>, usize)>>) -> Res<()> {
        let line = self.line();
        let kind = if self.eat_word("var") {
            Some(Kind::Var)
        } else if self.eat_word("component") {
            Some(Kind::Comp)
        } else if self.eat_word("signal") {
            Some(if self.eat_word("input") {
                Kind::Input
            } else if self.eat_word("output") {
                Kind::Output
            } else {
                Kind::Signal
            })
        } else {
            None
        };
        if let Some(k) = kind {
            loop {
                let n = self.ident()?;
                let dims = self.indices()?;
                let mut init = None;
                for o in ["=", "<==", "<--"] {
                    if self.eat(o) {
                        if (o == "=") != (k == Kind::Var || k == Kind::Comp) || k == Kind::Input {
                            return self.err(format!("a declaration of this kind cannot be initialised with {o}"));
                        }
                        init = Some((o, self.expr()?));
                        break;
                    }
                }
                let s = self.declare(n, k)?;
                v.push(Rc::new((St::Decl(s, k, dims, init), line)));
                if !self.eat(",") {
                    return Ok(());
                }
            }
        }
        let a = self.expr()?;
        let Tok::Op(o) = *self.peek() else { return self.err("expected an operator") };
        self.i += 1;
        let st = match o {
            "===" => St::Eq(a, self.expr()?),
            "==>" => St::Assign(self.expr()?, "<==", a),
            "-->" => St::Assign(self.expr()?, "<--", a),
            "=" | "<==" | "<--" => St::Assign(a, o, self.expr()?),
            "++" => St::Assign(a, "+", Ex::Num(self.f.u(1))),
            "--" => St::Assign(a, "-", Ex::Num(self.f.u(1))),
            o if o.len() > 1 && o.ends_with('=') => {
                let op = OPS.iter().find(|x| **x == &o[..o.len() - 1]).unwrap();
                St::Assign(a, op, self.expr()?)
            }
            o => return self.err(format!("unexpected {o}")),
        };
        v.push(Rc::new((st, line)));
        Ok(())
    }
    fn statement(&mut self, v: &mut Vec<Rc<(St<F::E>, usize)>>) -> Res<()> {
        let line = self.line();
        if self.is("{") {
            let b = self.block()?;
            v.push(Rc::new((St::Block(b), line)));
        } else if self.eat_word("if") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let a = self.one()?;
            let b = if self.eat_word("else") { Some(self.one()?) } else { None };
            v.push(Rc::new((St::If(c, a, b), line)));
        } else if self.eat_word("while") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let a = self.one()?;
            v.push(Rc::new((St::While(c, a), line)));
        } else if self.eat_word("for") {
            self.need("(")?;
            self.scopes.push(HashMap::new());
            let mut outer = vec![];
            self.simple(&mut outer)?;
            self.need(";")?;
            let c = self.expr()?;
            self.need(";")?;
            let mut step = vec![];
            self.simple(&mut step)?;
            self.need(")")?;
            let body = self.one()?;
            let mut inner = vec![Rc::new((*body, line))];
            inner.append(&mut step);
            outer.push(Rc::new((St::While(c, Box::new(St::Block(inner))), line)));
            self.scopes.pop();
            v.push(Rc::new((St::Block(outer), line)));
        } else if self.eat_word("return") {
            let e = self.expr()?;
            self.need(";")?;
            v.push(Rc::new((St::Return(e), line)));
        } else if self.eat_word("assert") {
            self.need("(")?;
            let e = self.expr()?;
            self.need(")")?;
            self.need(";")?;
            v.push(Rc::new((St::Assert(e), line)));
        } else if self.eat_word("log") {
            self.need("(")?;
            let mut a = vec![];
            while !self.eat(")") {
                if let Tok::Str(_) = self.peek() {
                    self.i += 1;
                } else {
                    a.push(self.expr()?);
                }
                self.eat(",");
            }
            self.need(";")?;
            v.push(Rc::new((St::Log(a), line)));
        } else {
            self.simple(v)?;
            self.need(";")?;
        }
        Ok(())
    }
    fn pure_ex(&self, e: &Ex<F::E>) -> bool {
        match e {
            Ex::Num(_) => true,
            Ex::Ref(s, i, m) => m.is_none() && self.kinds[*s] == Kind::Var && i.iter().all(|x| self.pure_ex(x)),
            Ex::Un(_, a) => self.pure_ex(a),
            Ex::Bin(_, b) => self.pure_ex(&b.0) && self.pure_ex(&b.1),
            Ex::If(b) => self.pure_ex(&b.0) && self.pure_ex(&b.1) && self.pure_ex(&b.2),
            Ex::Arr(v) | Ex::Call(_, v) => v.iter().all(|x| self.pure_ex(x)),
            Ex::Anon(..) => false,
        }
    }
    fn slots_ex(&self, e: &Ex<F::E>, u: &mut HashSet<usize>) {
        match e {
            Ex::Num(_) => {}
            Ex::Ref(s, i, m) => {
                u.insert(*s);
                i.iter().chain(m.iter().flat_map(|x| &x.1)).for_each(|x| self.slots_ex(x, u));
            }
            Ex::Un(_, a) => self.slots_ex(a, u),
            Ex::Bin(_, b) => [&b.0, &b.1].into_iter().for_each(|x| self.slots_ex(x, u)),
            Ex::If(b) => [&b.0, &b.1, &b.2].into_iter().for_each(|x| self.slots_ex(x, u)),
            Ex::Arr(v) | Ex::Call(_, v) => v.iter().for_each(|x| self.slots_ex(x, u)),
            Ex::Anon(_, a, b) => a.iter().chain(b).for_each(|x| self.slots_ex(x, u)),
        }
    }
    fn slots_st(&self, s: &St<F::E>, u: &mut HashSet<usize>) {
        match s {
            St::Decl(s, _, d, i) => {
                u.insert(*s);
                d.iter().chain(i.iter().map(|x| &x.1)).for_each(|x| self.slots_ex(x, u));
            }
            St::Assign(a, _, b) | St::Eq(a, b) => [a, b].into_iter().for_each(|x| self.slots_ex(x, u)),
            St::Log(v) => v.iter().for_each(|x| self.slots_ex(x, u)),
            St::If(c, a, b) => {
                self.slots_ex(c, u);
                self.slots_st(a, u);
                b.iter().for_each(|x| self.slots_st(x, u));
            }
            St::While(c, a) => {
                self.slots_ex(c, u);
                self.slots_st(a, u);
            }
            St::Return(e) | St::Assert(e) => self.slots_ex(e, u),
            St::Block(v) => v.iter().for_each(|x| self.slots_st(&x.0, u)),
        }
    }
    fn written_st(&self, s: &St<F::E>, u: &mut HashSet<usize>) {
        match s {
            St::Decl(s, _, _, i) => {
                if i.is_some() {
                    u.insert(*s);
                }
            }
            St::Assign(a, ..) => {
                if let Ex::Ref(s, ..) = a {
                    u.insert(*s);
                }
            }
            St::If(_, a, b) => {
                self.written_st(a, u);
                b.iter().for_each(|x| self.written_st(x, u));
            }
            St::While(_, a) => self.written_st(a, u),
            St::Block(v) => v.iter().for_each(|x| self.written_st(&x.0, u)),
            _ => {}
        }
    }
    fn pure_st(&self, s: &St<F::E>) -> bool {
        match s {
            St::Decl(_, k, d, i) => matches!(k, Kind::Var | Kind::Input) && d.iter().all(|x| self.pure_ex(x)) && i.as_ref().map_or(true, |x| self.pure_ex(&x.1)),
            St::Assign(l, o, e) => !matches!(*o, "<==" | "<--") && self.pure_ex(l) && self.pure_ex(e),
            St::Eq(..) | St::Log(_) => false,
            St::If(c, a, b) => self.pure_ex(c) && self.pure_st(a) && b.as_ref().map_or(true, |x| self.pure_st(x)),
            St::While(c, a) => self.pure_ex(c) && self.pure_st(a),
            St::Return(e) | St::Assert(e) => self.pure_ex(e),
            St::Block(v) => v.iter().all(|x| self.pure_st(&x.0)),
        }
    }
}

// ---------------------------------------------------------------- values
/// a value and its degree in the signals: 0 constant, 1 linear, 2 one product, 3 more
#[derive(Clone, Copy, Debug)]
struct N<E> {
    v: E,
    d: u8,
}
#[derive(Clone, Debug)]
enum V<E> {
    S(N<E>),
    A(Vec<usize>, Rc<Vec<N<E>>>),
}
impl<E: Copy> V<E> {
    fn scalar(&self) -> Res<N<E>> {
        match self {
            V::S(n) => Ok(*n),
            V::A(d, _) => bad(format!("an array {d:?} where one value is needed")),
        }
    }
    fn dims(&self) -> Vec<usize> {
        match self {
            V::S(_) => vec![],
            V::A(d, _) => d.clone(),
        }
    }
    fn data(&self) -> Vec<N<E>> {
        match self {
            V::S(n) => vec![*n],
            V::A(_, v) => v.to_vec(),
        }
    }
}
enum Ent<E> {
    None,
    Var(V<E>),
    Sig(Kind, Vec<usize>, Vec<Option<E>>),
    Comp(Vec<usize>, Vec<Option<Rc<RefCell<Inst<E>>>>>),
}
struct Inst<E> {
    name: String,
    def: Option<Rc<Def<E>>>,
    args: Vec<V<E>>,
    ents: Vec<Ent<E>>,
    /// builtin: signals by name
    ports: Vec<(String, Kind, usize)>,
    missing: usize,
    ran: bool,
}
/// where `idx` points in an array: the offset, the dimensions that remain and how many elements that is
fn locate(dims: &[usize], idx: &[usize], what: &str) -> Res<(usize, Vec<usize>, usize)> {
    if idx.len() > dims.len() {
        return bad(format!("{what} has {} dimensions, {} indices given", dims.len(), idx.len()));
    }
    let mut o = 0;
    for (k, i) in idx.iter().enumerate() {
        if *i >= dims[k] {
            return bad(format!("{what}: index {i} of {}", dims[k]));
        }
        o = o * dims[k] + i;
    }
    let rest = dims[idx.len()..].to_vec();
    let n: usize = rest.iter().product();
    Ok((o * n, rest, n))
}

enum Flow<E> {
    Next,
    Return(V<E>),
}

impl<F: Fld> Program<F> {
    pub fn new(f: F) -> Self {
        Program {
            f,
            templates: HashMap::new(),
            functions: HashMap::new(),
            builtins: HashMap::new(),
            main: None,
            loaded: vec![],
            memo: RefCell::new(HashMap::new()),
            forge: RefCell::new(None),
            constraints: std::cell::Cell::new(0),
            hints: std::cell::Cell::new(0),
        }
    }
    pub fn field(&self) -> &F {
        &self.f
    }
    pub fn builtin(
        &mut self,
        name: &str,
        ports: impl Fn(&[usize]) -> Ports + 'static,
        run: impl Fn(&F, &[usize], &[Vec<F::E>]) -> Result<Vec<Vec<F::E>>, String> + 'static,
    ) {
        self.builtins.insert(name.to_string(), Builtin { ports: Box::new(ports), run: Box::new(run) });
    }
    pub fn function_names(&self) -> Vec<&String> {
        self.functions.keys().collect()
    }
    /// parses a text; `file` finds the text of an include, None when what it defines is built in
    pub fn load(&mut self, name: &str, text: &str, file: &dyn Fn(&str) -> Option<String>) -> Res<()> {
        self.loaded.push(name.to_string());
        let t = tokens(text).map_err(|e| match e {
            Bad::Circuit(s) => Bad::Circuit(format!("{name}: {s}")),
            e => e,
        })?;
        let mut includes = vec![];
        let (mut defs, mut main) = (vec![], None);
        {
            let mut p = Parser { f: &self.f, t, i: 0, file: name.to_string(), scopes: vec![], slots: vec![], kinds: vec![] };
            loop {
                if p.eat_word("pragma") {
                    while !p.eat(";") {
                        if *p.peek() == Tok::End {
                            return p.err("unfinished pragma");
                        }
                        p.i += 1;
                    }
                } else if p.eat_word("include") {
                    match p.peek().clone() {
                        Tok::Str(s) => includes.push(s),
                        t => return p.err(format!("include of {t:?}")),
                    }
                    p.i += 1;
                    p.need(";")?;
                } else if p.word("template") || p.word("function") {
                    let template = p.eat_word("template");
                    if !template {
                        p.i += 1;
                    }
                    p.eat_word("parallel");
                    p.eat_word("custom");
                    let n = p.ident()?;
                    p.need("(")?;
                    p.scopes = vec![HashMap::new()];
                    p.slots.clear();
                    p.kinds.clear();
                    while !p.eat(")") {
                        let a = p.ident()?;
                        p.declare(a, Kind::Var)?;
                        p.eat(",");
                    }
                    let params = p.slots.len();
                    let body = p.block()?;
                    // what depends on a signal is left for later, and so is what depends on that
                    let mut tainted: HashSet<usize> = HashSet::new();
                    let pure = body
                        .iter()
                        .map(|s| {
                            let mut used = HashSet::new();
                            p.slots_st(&s.0, &mut used);
                            let pure = p.pure_st(&s.0) && used.is_disjoint(&tainted);
                            if !pure {
                                p.written_st(&s.0, &mut tainted);
                            }
                            pure
                        })
                        .collect();
                    defs.push((template, Def { name: n, params, slots: p.slots.clone(), body, pure, file: name.to_string() }));
                } else if p.eat_word("component") {
                    if p.ident()? != "main" {
                        return p.err("only component main stands alone");
                    }
                    let mut public = vec![];
                    if p.eat("{") {
                        if p.ident()? != "public" {
                            return p.err("expected public");
                        }
                        p.need("[")?;
                        while !p.eat("]") {
                            public.push(p.ident()?);
                            p.eat(",");
                        }
                        p.need("}")?;
                    }
                    p.need("=")?;
                    let t = p.ident()?;
                    p.need("(")?;
                    let mut args = vec![];
                    while !p.eat(")") {
                        match p.peek().clone() {
                            Tok::Num(n) => args.push(n),
                            t => return p.err(format!("argument {t:?}")),
                        }
                        p.i += 1;
                        p.eat(",");
                    }
                    p.need(";")?;
                    if main.is_some() {
                        return p.err("two main components");
                    }
                    main = Some((public, t, args));
                } else if *p.peek() == Tok::End {
                    break;
                } else {
                    return p.err(format!("unexpected {:?}", p.peek()));
                }
            }
        }
        for (template, d) in defs {
            let n = d.name.clone();
            if self.templates.contains_key(&n) || self.functions.contains_key(&n) {
                return bad(format!("{name}: {n} defined twice"));
            }
            if self.builtins.contains_key(&n) {
                continue; // the harness stands in for it
            }
            if template {
                self.templates.insert(n, Rc::new(d));
            } else {
                self.functions.insert(n, Rc::new(d));
            }
        }
        if main.is_some() {
            self.main = main;
        }
        for i in includes {
            let i = i.trim_start_matches("./").to_string();
            if !self.loaded.contains(&i) {
                match file(&i) {
                    Some(t) => self.load(&i, &t, file)?,
                    None => self.loaded.push(i),
                }
            }
        }
        Ok(())
    }
    pub fn is_template(&self, n: &str) -> bool {
        self.templates.contains_key(n) || self.builtins.contains_key(n)
    }

    // ---- arithmetic
    fn bin(&self, o: &str, a: N<F::E>, b: N<F::E>) -> Res<N<F::E>> {
        let f = &self.f;
        let b2 = |c: bool| N { v: f.u(c as u64), d: if a.d == 0 && b.d == 0 { 0 } else { 3 } };
        let odd = if a.d == 0 && b.d == 0 { 0 } else { 3 };
        Ok(match o {
            "+" | "-" => {
                let d = match (a.d, b.d) {
                    (0, x) | (x, 0) => x,
                    (1, 1) => 1,
                    (2, 1) | (1, 2) => 2,
                    _ => 3,
                };
                N { v: if o == "+" { f.add(&a.v, &b.v) } else { f.sub(&a.v, &b.v) }, d }
            }
            "*" => {
                let d = match (a.d, b.d) {
                    (0, x) | (x, 0) => x,
                    (1, 1) => 2,
                    _ => 3,
                };
                N { v: f.mul(&a.v, &b.v), d }
            }
            "/" => {
                if f.zero(&b.v) {
                    return unsat("division by zero");
                }
                N { v: f.mul(&a.v, &f.inv(&b.v)), d: if b.d == 0 { a.d } else { 3 } }
            }
            "\\" | "%" => {
                if f.zero(&b.v) {
                    return unsat("division by zero");
                }
                let (q, r) = f.divrem(&a.v, &b.v);
                N { v: if o == "%" { r } else { q }, d: odd }
            }
            "**" => {
                let e = f.int(&b.v);
                N { v: f.big(&f.int(&a.v).modpow(&e, &f.prime())), d: odd }
            }
            "<<" => {
                let Some(k) = f.small(&b.v).filter(|k| *k < 256) else { return bad("shift by too much") };
                let bits = f.prime().bits();
                let x = (f.int(&a.v) << k) & ((BigUint::one() << bits) - 1u32);
                N { v: f.big(&x), d: odd }
            }
            ">>" => {
                let Some(k) = f.small(&b.v) else { return bad("shift by too much") };
                N { v: f.big(&(f.int(&a.v) >> k)), d: odd }
            }
            "&" => N { v: f.big(&(f.int(&a.v) & f.int(&b.v))), d: odd },
            "|" => N { v: f.big(&(f.int(&a.v) | f.int(&b.v))), d: odd },
            "^" => N { v: f.big(&(f.int(&a.v) ^ f.int(&b.v))), d: odd },
            "==" => b2(a.v == b.v),
            "!=" => b2(a.v != b.v),
            "<" => b2(f.less(&a.v, &b.v)),
            ">" => b2(f.less(&b.v, &a.v)),
            "<=" => b2(!f.less(&b.v, &a.v)),
            ">=" => b2(!f.less(&a.v, &b.v)),
            "&&" => b2(!f.zero(&a.v) && !f.zero(&b.v)),
            "||" => b2(!f.zero(&a.v) || !f.zero(&b.v)),
            _ => return bad(format!("operator {o}")),
        })
    }
    fn index(&self, c: &mut Frame<F>, v: &[Ex<F::E>]) -> Res<Vec<usize>> {
        v.iter()
            .map(|e| {
                let n = self.eval(c, e)?.scalar()?;
                if n.d != 0 {
                    return bad("an index that depends on signals");
                }
                self.f.small(&n.v).map_or_else(|| bad(format!("index {}", self.f.int(&n.v))), Ok)
            })
            .collect()
    }
    fn eval(&self, c: &mut Frame<F>, e: &Ex<F::E>) -> Res<V<F::E>> {
        match e {
            Ex::Num(n) => Ok(V::S(N { v: *n, d: 0 })),
            Ex::Ref(s, idx, member) => {
                let i = self.index(c, idx)?;
                let def = c.def.clone();
                let name = &def.slots[*s];
                if let (Ent::Comp(d, v), Some((m, midx))) = (&c.ents[*s], member) {
                    let (o, rest, _) = locate(d, &i, name)?;
                    if !rest.is_empty() {
                        return bad(format!("{name}: an array of components where one is needed"));
                    }
                    let Some(inst) = v[o].clone() else { return bad(format!("{name}: no component there yet")) };
                    let j = self.index(c, midx)?;
                    let inst = inst.borrow();
                    let Some((k, kind)) = inst.port(m) else { return bad(format!("{} has no signal {m}", inst.name)) };
                    if kind == Kind::Signal {
                        return bad(format!("{}.{m} is not visible from outside", inst.name));
                    }
                    if kind == Kind::Output && !inst.ran {
                        return bad(format!("{}.{m} is read before all inputs of {} are assigned", name, inst.name));
                    }
                    return match &inst.ents[k] {
                        Ent::Sig(_, d, data) => read_sig(d, data, &j, m),
                        _ => bad(format!("{m} is not a signal")),
                    };
                }
                match (&c.ents[*s], member) {
                    (Ent::Var(V::S(n)), None) if i.is_empty() => Ok(V::S(*n)),
                    (Ent::Var(v), None) => {
                        let V::A(d, data) = v else { return bad(format!("{name} is not an array")) };
                        if i.is_empty() {
                            return Ok(v.clone());
                        }
                        let (o, rest, n) = locate(d, &i, name)?;
                        Ok(if rest.is_empty() { V::S(data[o]) } else { V::A(rest, Rc::new(data[o..o + n].to_vec())) })
                    }
                    (Ent::Sig(_, d, data), None) => read_sig(d, data, &i, name),
                    (Ent::None, _) => bad(format!("{name} is used before its declaration runs")),
                    _ => bad(format!("{name} is used as something it is not")),
                }
            }
            Ex::Un(o, a) => {
                let a = self.eval(c, a)?.scalar()?;
                Ok(V::S(match *o {
                    "-" => N { v: self.f.sub(&self.f.u(0), &a.v), d: a.d },
                    "!" => N { v: self.f.u(self.f.zero(&a.v) as u64), d: if a.d == 0 { 0 } else { 3 } },
                    o => return bad(format!("operator {o}")),
                }))
            }
            Ex::Bin(o, ab) => {
                let a = self.eval(c, &ab.0)?.scalar()?;
                let b = self.eval(c, &ab.1)?.scalar()?;
                Ok(V::S(self.bin(o, a, b)?))
            }
            Ex::If(x) => {
                let k = self.eval(c, &x.0)?.scalar()?;
                self.eval(c, if self.f.zero(&k.v) { &x.2 } else { &x.1 })
            }
            Ex::Arr(v) => {
                let mut data = vec![];
                let mut dims: Option<Vec<usize>> = None;
                for x in v {
                    let x = self.eval(c, x)?;
                    if dims.get_or_insert(x.dims()) != &x.dims() {
                        return bad("array of unequal parts");
                    }
                    data.extend(x.data());
                }
                let mut d = vec![v.len()];
                d.extend(dims.unwrap_or_default());
                Ok(V::A(d, Rc::new(data)))
            }
            Ex::Call(n, args) => {
                let a: Vec<V<F::E>> = args.iter().map(|x| self.eval(c, x)).collect::<Res<_>>()?;
                if self.is_template(n) {
                    return bad(format!("template {n} used as a value"));
                }
                self.call(n, a)
            }
            Ex::Anon(n, args, inputs) => {
                let a: Vec<V<F::E>> = args.iter().map(|x| self.eval(c, x)).collect::<Res<_>>()?;
                let inst = self.instantiate(n, a)?;
                let names: Vec<String> = inst.borrow().names(Kind::Input);
                if names.len() != inputs.len() {
                    return bad(format!("{n} has {} inputs, {} given", names.len(), inputs.len()));
                }
                for (m, x) in names.iter().zip(inputs) {
                    let x = self.eval(c, x)?;
                    self.set_input(&inst, m, &[], &x, true)?;
                }
                let inst = inst.borrow();
                let outs = inst.names(Kind::Output);
                if outs.len() != 1 {
                    return bad(format!("{n} has {} outputs where one is needed", outs.len()));
                }
                if !inst.ran {
                    return bad(format!("{n} was not given all of its inputs"));
                }
                match &inst.ents[inst.port(&outs[0]).unwrap().0] {
                    Ent::Sig(_, d, data) => read_sig(d, data, &[], &outs[0]),
                    _ => unreachable!(),
                }
            }
        }
    }
    fn call(&self, n: &str, a: Vec<V<F::E>>) -> Res<V<F::E>> {
        let Some(def) = self.functions.get(n).cloned() else { return bad(format!("undefined function or template {n}")) };
        if def.params != a.len() {
            return bad(format!("{n} takes {} arguments", def.params));
        }
        let key: Option<Vec<F::E>> = a.iter().map(|x| if let V::S(N { v, d: 0 }) = x { Some(*v) } else { None }).collect();
        if let Some(k) = &key {
            if let Some(v) = self.memo.borrow().get(&(n.to_string(), k.clone())) {
                return Ok(v.clone());
            }
        }
        let hinted = a.iter().any(|x| x.data().iter().any(|n| n.d != 0));
        let mut fr = Frame { ents: (0..def.slots.len()).map(|_| Ent::None).collect(), def: def.clone(), template: false };
        for (i, x) in a.into_iter().enumerate() {
            fr.ents[i] = Ent::Var(x);
        }
        for s in &def.body {
            if let Flow::Return(v) = self.exec(&mut fr, s)? {
                // what a function makes of signals is no polynomial circom can write down
                let v = if hinted {
                    match v {
                        V::S(n) => V::S(N { v: n.v, d: 3 }),
                        V::A(d, x) => V::A(d, Rc::new(x.iter().map(|n| N { v: n.v, d: 3 }).collect())),
                    }
                } else {
                    v
                };
                if let Some(k) = key {
                    self.memo.borrow_mut().insert((n.to_string(), k), v.clone());
                }
                return Ok(v);
            }
        }
        bad(format!("function {n} does not return"))
    }

    // ---- components
    fn instantiate(&self, n: &str, args: Vec<V<F::E>>) -> Res<Rc<RefCell<Inst<F::E>>>> {
        if args.iter().any(|a| a.data().iter().any(|x| x.d != 0)) {
            return bad(format!("{n}: arguments depend on signals"));
        }
        let mut inst = Inst { name: n.to_string(), def: None, args, ents: vec![], ports: vec![], missing: 0, ran: false };
        if let Some(b) = self.builtins.get(n) {
            let a: Vec<usize> = inst.usize_args(self)?;
            let p = (b.ports)(&a);
            for (k, list) in [(Kind::Input, p.inputs), (Kind::Output, p.outputs)] {
                for (m, d) in list {
                    let len = d.iter().product();
                    inst.ports.push((m.to_string(), k, inst.ents.len()));
                    if k == Kind::Input {
                        inst.missing += len;
                    }
                    inst.ents.push(Ent::Sig(k, d, vec![None; len]));
                }
            }
        } else if let Some(def) = self.templates.get(n).cloned() {
            if def.params != inst.args.len() {
                return bad(format!("template {n} takes {} arguments, {} given", def.params, inst.args.len()));
            }
            let mut fr = Frame { ents: (0..def.slots.len()).map(|_| Ent::None).collect(), def: def.clone(), template: true };
            for (i, x) in inst.args.iter().enumerate() {
                fr.ents[i] = Ent::Var(x.clone());
            }
            for (s, pure) in def.body.iter().zip(&def.pure) {
                if *pure {
                    self.exec(&mut fr, s)?;
                }
            }
            for (i, e) in fr.ents.iter().enumerate() {
                if let Ent::Sig(Kind::Input, _, d) = e {
                    inst.missing += d.len();
                    inst.ports.push((def.slots[i].clone(), Kind::Input, i));
                }
            }
            inst.ents = fr.ents;
            inst.def = Some(def);
        } else {
            return bad(format!("undefined template {n}"));
        }
        let none = inst.missing == 0;
        let r = Rc::new(RefCell::new(inst));
        if none {
            self.run_instance(&r)?;
        }
        Ok(r)
    }
    fn set_input(&self, inst: &Rc<RefCell<Inst<F::E>>>, m: &str, idx: &[usize], x: &V<F::E>, constrain: bool) -> Res<()> {
        let ready = {
            let mut i = inst.borrow_mut();
            let Some((k, kind)) = i.port(m) else { return bad(format!("{} has no input {m}", i.name)) };
            if kind != Kind::Input {
                return bad(format!("{}.{m} is not an input", i.name));
            }
            let name = i.name.clone();
            let Ent::Sig(_, d, data) = &mut i.ents[k] else { unreachable!() };
            let n = write_sig(d, data, idx, x, &format!("{name}.{m}"))?;
            if constrain {
                self.constraints.set(self.constraints.get() + n as u64);
                if x.data().iter().any(|v| v.d > 2) {
                    return bad(format!("{name}.{m} is assigned something that is not quadratic"));
                }
            }
            i.missing -= n;
            i.missing == 0
        };
        if ready {
            self.run_instance(inst)?;
        }
        Ok(())
    }
    fn run_instance(&self, inst: &Rc<RefCell<Inst<F::E>>>) -> Res<()> {
        let mut i = inst.borrow_mut();
        let at = |e: Bad, n: &str| match e {
            Bad::Unsat(s) => Bad::Unsat(format!("{n}: {s}")),
            Bad::Circuit(s) => Bad::Circuit(format!("{n}: {s}")),
        };
        let name = i.name.clone();
        match i.def.clone() {
            None => {
                let a = i.usize_args(self)?;
                let ins: Vec<Vec<F::E>> = i
                    .ents
                    .iter()
                    .filter_map(|e| if let Ent::Sig(Kind::Input, _, d) = e { Some(d.iter().map(|x| x.unwrap()).collect()) } else { None })
                    .collect();
                let outs = (self.builtins[&i.name].run)(&self.f, &a, &ins).map_err(|e| Bad::Unsat(format!("{name}: {e}")))?;
                let mut outs = outs.into_iter();
                for e in i.ents.iter_mut() {
                    if let Ent::Sig(Kind::Output, _, d) = e {
                        let o = outs.next().unwrap();
                        assert_eq!(o.len(), d.len());
                        *d = o.into_iter().map(Some).collect();
                    }
                }
                i.ran = true;
            }
            Some(def) => {
                let mut fr = Frame { ents: std::mem::take(&mut i.ents), def: def.clone(), template: true };
                for e in fr.ents.iter_mut() {
                    if !matches!(e, Ent::Sig(Kind::Input, ..)) {
                        *e = Ent::None;
                    }
                }
                for (k, x) in i.args.iter().enumerate() {
                    fr.ents[k] = Ent::Var(x.clone());
                }
                for s in &def.body {
                    self.exec(&mut fr, s).map_err(|e| at(e, &name))?;
                }
                for (k, e) in fr.ents.iter().enumerate() {
                    match e {
                        Ent::Sig(kind, _, d) => {
                            if *kind == Kind::Output {
                                i.ports.push((def.slots[k].clone(), Kind::Output, k));
                                if d.iter().any(|x| x.is_none()) {
                                    return bad(format!("{name}: output {} is not fully assigned", def.slots[k]));
                                }
                            }
                        }
                        Ent::Comp(_, v) => {
                            for c in v.iter().flatten() {
                                let c = c.borrow();
                                if !c.ran {
                                    return bad(format!("{name}: component {} ({}) is not given all of its inputs", def.slots[k], c.name));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                i.ents = fr.ents;
                i.ran = true;
            }
        }
        Ok(())
    }

    // ---- statements
    fn exec(&self, c: &mut Frame<F>, s: &Rc<(St<F::E>, usize)>) -> Res<Flow<F::E>> {
        let (st, line) = (&s.0, s.1);
        let file = |c: &Frame<F>| c.def.file.clone();
        match self.exec_st(c, st) {
            Err(Bad::Unsat(e)) if !e.contains(" line ") => Err(Bad::Unsat(format!("{} line {line}: {e}", file(c)))),
            Err(Bad::Circuit(e)) if !e.contains(" line ") => Err(Bad::Circuit(format!("{} line {line}: {e}", file(c)))),
            r => r,
        }
    }
    fn exec_block(&self, c: &mut Frame<F>, v: &[Rc<(St<F::E>, usize)>]) -> Res<Flow<F::E>> {
        for s in v {
            if let Flow::Return(r) = self.exec(c, s)? {
                return Ok(Flow::Return(r));
            }
        }
        Ok(Flow::Next)
    }
    fn exec_st(&self, c: &mut Frame<F>, st: &St<F::E>) -> Res<Flow<F::E>> {
        match st {
            St::Decl(s, kind, dims, init) => {
                let d = self.index(c, dims)?;
                let len: usize = d.iter().product();
                if *kind != Kind::Var && !c.template {
                    return bad("a function declares a signal or component");
                }
                match kind {
                    Kind::Var => {
                        let z = N { v: self.f.u(0), d: 0 };
                        c.ents[*s] = Ent::Var(if d.is_empty() { V::S(z) } else { V::A(d, Rc::new(vec![z; len])) });
                    }
                    Kind::Input => {
                        if !matches!(c.ents[*s], Ent::Sig(..)) {
                            c.ents[*s] = Ent::Sig(Kind::Input, d, vec![None; len]);
                        }
                    }
                    Kind::Output | Kind::Signal => c.ents[*s] = Ent::Sig(*kind, d, vec![None; len]),
                    Kind::Comp => c.ents[*s] = Ent::Comp(d, vec![None; len]),
                }
                if let Some((o, e)) = init {
                    self.assign(c, *s, vec![], None, o, e)?;
                }
                Ok(Flow::Next)
            }
            St::Assign(l, o, e) => {
                let Ex::Ref(s, idx, m) = l else { return bad("assignment to something that is not a place") };
                let i = self.index(c, idx)?;
                let m = match m {
                    Some((m, j)) => Some((m.clone(), self.index(c, j)?)),
                    None => None,
                };
                self.assign(c, *s, i, m, o, e)?;
                Ok(Flow::Next)
            }
            St::Eq(a, b) => {
                let (a, b) = (self.eval(c, a)?, self.eval(c, b)?);
                if a.dims() != b.dims() {
                    return bad("=== between different shapes");
                }
                for (x, y) in a.data().iter().zip(b.data()) {
                    self.constraint(*x, y)?;
                }
                Ok(Flow::Next)
            }
            St::If(k, a, b) => {
                let k = self.eval(c, k)?.scalar()?;
                if !self.f.zero(&k.v) {
                    self.exec_st(c, a)
                } else if let Some(b) = b {
                    self.exec_st(c, b)
                } else {
                    Ok(Flow::Next)
                }
            }
            St::While(k, a) => {
                for _ in 0..10_000_000u64 {
                    let k = self.eval(c, k)?.scalar()?;
                    if self.f.zero(&k.v) {
                        return Ok(Flow::Next);
                    }
                    if let Flow::Return(v) = self.exec_st(c, a)? {
                        return Ok(Flow::Return(v));
                    }
                }
                bad("endless loop")
            }
            St::Return(e) => Ok(Flow::Return(self.eval(c, e)?)),
            St::Assert(e) => {
                let k = self.eval(c, e)?.scalar()?;
                if self.f.zero(&k.v) {
                    return unsat("assert");
                }
                Ok(Flow::Next)
            }
            St::Log(v) => {
                for e in v {
                    self.eval(c, e)?;
                }
                Ok(Flow::Next)
            }
            St::Block(v) => self.exec_block(c, v),
        }
    }
    fn constraint(&self, a: N<F::E>, b: N<F::E>) -> Res<()> {
        self.constraints.set(self.constraints.get() + 1);
        if self.bin("-", a, b)?.d > 2 {
            return bad("a constraint that is not quadratic");
        }
        if a.v != b.v {
            return unsat(format!("{} === {}", self.f.int(&a.v), self.f.int(&b.v)));
        }
        Ok(())
    }
    fn assign(&self, c: &mut Frame<F>, s: usize, i: Vec<usize>, m: Option<(String, Vec<usize>)>, o: &str, e: &Ex<F::E>) -> Res<()> {
        let name = c.def.slots[s].clone();
        // a component is made
        if let (Ent::Comp(d, _), None) = (&c.ents[s], &m) {
            let (at, rest, _) = locate(d, &i, &name)?;
            let Ex::Call(t, args) = e else { return bad(format!("{name} is a component")) };
            if o != "=" || !rest.is_empty() {
                return bad(format!("{name} is a component"));
            }
            let a: Vec<V<F::E>> = args.iter().map(|x| self.eval(c, x)).collect::<Res<_>>()?;
            let inst = self.instantiate(t, a)?;
            let Ent::Comp(_, v) = &mut c.ents[s] else { unreachable!() };
            if v[at].is_some() {
                return bad(format!("{name}: the component there is made twice"));
            }
            v[at] = Some(inst);
            return Ok(());
        }
        let x = self.eval(c, e)?;
        match (&mut c.ents[s], m) {
            (Ent::Var(v), None) => {
                let x = if o == "=" {
                    x
                } else {
                    let cur = match &*v {
                        V::S(n) if i.is_empty() => *n,
                        V::A(d, data) => {
                            let (at, rest, _) = locate(d, &i, &name)?;
                            if !rest.is_empty() {
                                return bad(format!("{name}: {o}= on an array"));
                            }
                            data[at]
                        }
                        _ => return bad(format!("{name} is not an array")),
                    };
                    V::S(self.bin(o, cur, x.scalar()?)?)
                };
                match v {
                    V::S(n) => {
                        if !i.is_empty() {
                            return bad(format!("{name} is not an array"));
                        }
                        *n = x.scalar()?;
                    }
                    V::A(d, data) => {
                        let (at, rest, n) = locate(d, &i, &name)?;
                        if x.dims() != rest {
                            return bad(format!("{name}: {:?} assigned to {rest:?}", x.dims()));
                        }
                        if i.is_empty() {
                            *v = x;
                        } else {
                            let data = Rc::make_mut(data);
                            data[at..at + n].copy_from_slice(&x.data());
                        }
                    }
                }
                Ok(())
            }
            (Ent::Sig(k, d, data), None) => {
                if *k == Kind::Input {
                    return bad(format!("{name} is an input"));
                }
                match o {
                    "<==" => {
                        let v = x.data();
                        self.constraints.set(self.constraints.get() + v.len() as u64);
                        if v.iter().any(|n| n.d > 2) {
                            return bad(format!("{name} <== something that is not quadratic"));
                        }
                        write_sig(d, data, &i, &x, &name)?;
                    }
                    "<--" => {
                        self.hints.set(self.hints.get() + 1);
                        let x = match self.forge.borrow_mut().as_mut() {
                            None => x,
                            Some(g) => {
                                let (at, rest, _) = locate(d, &i, &name)?;
                                let v: Vec<N<F::E>> = x.data().iter().enumerate().map(|(k, n)| N { v: g(&c.def.name, &name, at + k, n.v), d: n.d }).collect();
                                if rest.is_empty() {
                                    V::S(v[0])
                                } else {
                                    V::A(x.dims(), Rc::new(v))
                                }
                            }
                        };
                        write_sig(d, data, &i, &x, &name)?;
                    }
                    o => return bad(format!("{name} is a signal, assigned with {o}")),
                }
                Ok(())
            }
            (Ent::Comp(d, v), Some((m, j))) => {
                let (at, rest, _) = locate(d, &i, &name)?;
                if !rest.is_empty() {
                    return bad(format!("{name}: an array of components where one is needed"));
                }
                let Some(inst) = v[at].clone() else { return bad(format!("{name}: no component there yet")) };
                if o != "<==" && o != "<--" {
                    return bad(format!("{name}.{m} is a signal, assigned with {o}"));
                }
                self.set_input(&inst, &m, &j, &x, o == "<==")
            }
            _ => bad(format!("{name} is used as something it is not")),
        }
    }

    // ---- entry points
    /// runs one template on given inputs (flat, by name) and returns its outputs
    pub fn run(&self, template: &str, args: &[BigUint], inputs: &[(&str, Vec<F::E>)]) -> Res<HashMap<String, Vec<F::E>>> {
        let a = args.iter().map(|x| V::S(N { v: self.f.big(x), d: 0 })).collect();
        let inst = self.instantiate(template, a)?;
        let names = inst.borrow().names(Kind::Input);
        for n in &names {
            if !inputs.iter().any(|(m, _)| m == n) {
                return bad(format!("no value for input {n}"));
            }
        }
        for (m, v) in inputs {
            let d = {
                let i = inst.borrow();
                let Some((k, _)) = i.port(m) else { return bad(format!("{template} has no input {m}")) };
                let Ent::Sig(_, d, _) = &i.ents[k] else { unreachable!() };
                d.clone()
            };
            let n: usize = d.iter().product();
            if n != v.len() {
                return bad(format!("input {m} takes {n} values, {} given", v.len()));
            }
            let x: Vec<N<F::E>> = v.iter().map(|x| N { v: *x, d: 1 }).collect();
            let x = if d.is_empty() { V::S(x[0]) } else { V::A(d, Rc::new(x)) };
            self.set_input(&inst, m, &[], &x, false)?;
        }
        let i = inst.borrow();
        if !i.ran {
            return bad(format!("{template} did not run"));
        }
        Ok(i.names(Kind::Output)
            .into_iter()
            .map(|n| {
                let k = i.port(&n).unwrap().0;
                let Ent::Sig(_, _, d) = &i.ents[k] else { unreachable!() };
                (n, d.iter().map(|x| x.unwrap()).collect())
            })
            .collect())
    }
    /// runs a function on constants
    pub fn function(&self, n: &str, args: &[BigUint]) -> Res<Vec<F::E>> {
        let a = args.iter().map(|x| V::S(N { v: self.f.big(x), d: 0 })).collect();
        Ok(self.call(n, a)?.data().into_iter().map(|n| n.v).collect())
    }
    /// runs the main component on a JSON object of inputs; values no input asks for are ignored
    pub fn run_main(&self, json: &Value) -> Res<HashMap<String, Vec<F::E>>> {
        let Some((public, t, args)) = &self.main else { return bad("no main component") };
        let names = self.instantiate(t, args.iter().map(|x| V::S(N { v: self.f.big(x), d: 0 })).collect())?.borrow().names(Kind::Input);
        for p in public {
            if !names.contains(p) {
                return bad(format!("public {p} is not an input of {t}"));
            }
        }
        self.run_json(t, args, json)
    }
    pub fn run_json(&self, t: &str, args: &[BigUint], json: &Value) -> Res<HashMap<String, Vec<F::E>>> {
        let names = self.instantiate(t, args.iter().map(|x| V::S(N { v: self.f.big(x), d: 0 })).collect())?.borrow().names(Kind::Input);
        let mut inputs = vec![];
        for n in &names {
            let Some(v) = json.get(n) else { return bad(format!("no value for input {n}")) };
            let mut flat = vec![];
            flatten(v, &mut flat)?;
            inputs.push((n.as_str(), flat.iter().map(|x| self.f.big(x)).collect()));
        }
        self.run(t, args, &inputs)
    }
    pub fn main_inputs(&self) -> Res<(Vec<String>, Vec<String>)> {
        let Some((public, t, args)) = &self.main else { return bad("no main component") };
        let inst = self.instantiate(t, args.iter().map(|x| V::S(N { v: self.f.big(x), d: 0 })).collect())?;
        let n = inst.borrow().names(Kind::Input);
        Ok((public.clone(), n))
    }
}
fn flatten(v: &Value, out: &mut Vec<BigUint>) -> Res<()> {
    match v {
        Value::Array(a) => a.iter().try_for_each(|x| flatten(x, out)),
        Value::String(s) => match BigUint::parse_bytes(s.as_bytes(), 10) {
            Some(n) => {
                out.push(n);
                Ok(())
            }
            None => bad(format!("input value {s:?}")),
        },
        Value::Number(n) => match n.as_u64() {
            Some(n) => {
                out.push(BigUint::from(n));
                Ok(())
            }
            None => bad(format!("input value {n}")),
        },
        v => bad(format!("input value {v}")),
    }
}
fn read_sig<E: Copy>(d: &[usize], data: &[Option<E>], i: &[usize], name: &str) -> Res<V<E>> {
    let (o, rest, n) = locate(d, i, name)?;
    let mut v = Vec::with_capacity(n);
    for x in &data[o..o + n] {
        match x {
            Some(x) => v.push(N { v: *x, d: 1 }),
            None => return bad(format!("signal {name} is read before it is assigned")),
        }
    }
    Ok(if rest.is_empty() { V::S(v[0]) } else { V::A(rest, Rc::new(v)) })
}
fn write_sig<E: Copy>(d: &[usize], data: &mut [Option<E>], i: &[usize], x: &V<E>, name: &str) -> Res<usize> {
    let (o, rest, n) = locate(d, i, name)?;
    if x.dims() != rest {
        return bad(format!("{name}: {:?} assigned to {rest:?}", x.dims()));
    }
    for (p, v) in data[o..o + n].iter_mut().zip(x.data()) {
        if p.is_some() {
            return bad(format!("signal {name} is assigned twice"));
        }
        *p = Some(v.v);
    }
    Ok(n)
}
struct Frame<F: Fld> {
    ents: Vec<Ent<F::E>>,
    def: Rc<Def<F::E>>,
    template: bool,
}
impl<E: Copy + Eq + Hash + Debug> Inst<E> {
    fn port(&self, m: &str) -> Option<(usize, Kind)> {
        self.ports.iter().find(|p| p.0 == m).map(|p| (p.2, p.1)).or_else(|| {
            // an output or inner signal of a component that has not run yet
            let d = self.def.as_ref()?;
            let k = d.slots.iter().position(|s| s == m)?;
            Some((k, if self.ran { Kind::Signal } else { Kind::Output }))
        })
    }
    fn names(&self, k: Kind) -> Vec<String> {
        let mut v: Vec<(usize, String)> = self.ports.iter().filter(|p| p.1 == k).map(|p| (p.2, p.0.clone())).collect();
        v.sort();
        v.into_iter().map(|x| x.1).collect()
    }
    fn usize_args<F: Fld<E = E>>(&self, p: &Program<F>) -> Res<Vec<usize>> {
        self.args
            .iter()
            .map(|a| {
                let n = a.scalar()?;
                p.f.small(&n.v).map_or_else(|| bad(format!("{}: argument {}", self.name, p.f.int(&n.v))), Ok)
            })
            .collect()
    }
}
