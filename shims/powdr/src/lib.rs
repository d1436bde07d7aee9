//! Stand-in for powdr (a git dependency that is not available offline): the analysed-PIL data types
//! that /repo's exporter reads, and an analyser for the PIL subset /repo generates
//! (let N, namespaces, constant/commit/intermediate columns with arrays, publics, polynomial
//! identities, plookups, permutations, connections).

pub mod number {
    use std::fmt;
    pub const P: u64 = 0xffff_ffff_0000_0001;
    pub trait FieldElement: Copy + Clone + fmt::Debug + fmt::Display + PartialEq + 'static {
        fn from_u64(v: u64) -> Self;
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct GoldilocksField(pub u64);
    impl fmt::Display for GoldilocksField {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl FieldElement for GoldilocksField {
        fn from_u64(v: u64) -> Self {
            GoldilocksField(v % P)
        }
    }
}

pub mod ast {
    pub mod analyzed {
        use powdr_parser_util::SourceRef;
        use std::collections::HashMap;

        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum PolynomialType {
            Committed,
            Constant,
            Intermediate,
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum SymbolKind {
            Poly(PolynomialType),
            Other(),
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct PolyID {
            pub id: u64,
            pub ptype: PolynomialType,
        }
        #[derive(Clone, Debug)]
        pub struct Symbol {
            pub id: u64,
            pub absolute_name: String,
            pub kind: SymbolKind,
            pub length: Option<u64>,
        }
        impl Symbol {
            pub fn is_array(&self) -> bool {
                self.length.is_some()
            }
            pub fn array_elements(&self) -> impl Iterator<Item = (String, PolyID)> + '_ {
                let SymbolKind::Poly(ptype) = self.kind else { panic!() };
                (0..self.length.unwrap_or(1)).map(move |i| {
                    let n = match self.length {
                        Some(_) => format!("{}[{i}]", self.absolute_name),
                        None => self.absolute_name.clone(),
                    };
                    (n, PolyID { id: self.id + i, ptype })
                })
            }
        }
        #[derive(Clone, Debug)]
        pub struct PolynomialReference {
            pub name: String,
            pub poly_id: Option<PolyID>,
        }
        #[derive(Clone, Debug)]
        pub struct PublicDeclaration {
            pub id: u64,
            pub name: String,
            pub polynomial: PolynomialReference,
            pub array_index: Option<usize>,
            pub index: u64,
        }
        #[derive(Clone, Debug)]
        pub enum StatementIdentifier {
            Definition(String),
            PublicDeclaration(String),
            Identity(usize),
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum IdentityKind {
            Polynomial,
            Plookup,
            Permutation,
            Connect,
        }
        #[derive(Clone, Debug)]
        pub struct SelectedExpressions<E> {
            pub selector: Option<E>,
            pub expressions: Vec<E>,
        }
        #[derive(Clone, Debug)]
        pub struct Identity<S> {
            pub kind: IdentityKind,
            pub source: SourceRef,
            pub left: S,
            pub right: S,
        }
        #[derive(Clone, Debug)]
        pub struct AlgebraicReference {
            pub name: String,
            pub poly_id: PolyID,
            pub next: bool,
        }
        #[derive(Clone, Debug)]
        pub struct Challenge {
            pub id: u64,
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum AlgebraicBinaryOperator {
            Add,
            Sub,
            Mul,
            Pow,
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum AlgebraicUnaryOperator {
            Minus,
        }
        #[derive(Clone, Debug)]
        pub struct AlgebraicBinaryOperation<T> {
            pub left: Box<AlgebraicExpression<T>>,
            pub op: AlgebraicBinaryOperator,
            pub right: Box<AlgebraicExpression<T>>,
        }
        #[derive(Clone, Debug)]
        pub struct AlgebraicUnaryOperation<T> {
            pub op: AlgebraicUnaryOperator,
            pub expr: Box<AlgebraicExpression<T>>,
        }
        #[derive(Clone, Debug)]
        pub enum AlgebraicExpression<T> {
            Reference(AlgebraicReference),
            PublicReference(String),
            Challenge(Challenge),
            Number(T),
            BinaryOperation(AlgebraicBinaryOperation<T>),
            UnaryOperation(AlgebraicUnaryOperation<T>),
        }
        #[derive(Clone, Debug)]
        pub struct Analyzed<T> {
            pub definitions: HashMap<String, (Symbol, Option<()>)>,
            pub intermediate_columns: HashMap<String, (Symbol, Vec<AlgebraicExpression<T>>)>,
            pub public_declarations: HashMap<String, PublicDeclaration>,
            pub identities: Vec<Identity<SelectedExpressions<AlgebraicExpression<T>>>>,
            pub source_order: Vec<StatementIdentifier>,
            pub degree: u64,
        }
        impl<T> Analyzed<T> {
            pub fn degree(&self) -> u64 {
                self.degree
            }
            fn count(&self, t: PolynomialType) -> usize {
                self.definitions
                    .values()
                    .filter(|(s, _)| s.kind == SymbolKind::Poly(t))
                    .map(|(s, _)| s.length.unwrap_or(1) as usize)
                    .sum()
            }
            pub fn commitment_count(&self) -> usize {
                self.count(PolynomialType::Committed)
            }
            pub fn constant_count(&self) -> usize {
                self.count(PolynomialType::Constant)
            }
            pub fn intermediate_count(&self) -> usize {
                self.intermediate_columns
                    .values()
                    .map(|(s, _)| s.length.unwrap_or(1) as usize)
                    .sum()
            }
        }
    }
}

pub mod pil_analyzer {
    use crate::ast::analyzed::*;
    use crate::number::FieldElement;
    use powdr_parser_util::SourceRef;
    use std::collections::HashMap;
    use std::path::Path;
    use std::sync::Arc;

    #[derive(Clone, Debug, PartialEq)]
    enum Tok {
        Id(String),
        Num(u64),
        Sym(&'static str),
    }

    fn lex(s: &str) -> Vec<(Tok, usize)> {
        const SYMS: [&str; 17] = [
            "**", "=", "+", "-", "*", "(", ")", "[", "]", "{", "}", ",", ";", ":", "'", ".", "/",
        ];
        let b = s.as_bytes();
        let mut i = 0;
        let mut out = vec![];
        'o: while i < b.len() {
            let c = b[i] as char;
            if c.is_whitespace() {
                i += 1;
                continue;
            }
            if s[i..].starts_with("//") {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            if c.is_ascii_digit() {
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push((Tok::Num(s[st..i].parse().unwrap()), st));
                continue;
            }
            if c.is_alphabetic() || c == '_' {
                let st = i;
                while i < b.len() && ((b[i] as char).is_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                out.push((Tok::Id(s[st..i].to_string()), st));
                continue;
            }
            for y in SYMS {
                if s[i..].starts_with(y) {
                    out.push((Tok::Sym(y), i));
                    i += y.len();
                    continue 'o;
                }
            }
            panic!("PIL: unexpected character {c:?}");
        }
        out
    }

    struct Parser<'a, T> {
        t: Vec<(Tok, usize)>,
        i: usize,
        ns: String,
        vars: HashMap<String, u64>,
        a: Analyzed<T>,
        n_cm: u64,
        n_const: u64,
        n_im: u64,
        src: Arc<str>,
        name: Option<&'a str>,
    }

    impl<T: FieldElement> Parser<'_, T> {
        fn peek(&self) -> Option<&Tok> {
            self.t.get(self.i).map(|x| &x.0)
        }
        fn next(&mut self) -> Tok {
            self.i += 1;
            self.t[self.i - 1].0.clone()
        }
        fn is(&self, s: &str) -> bool {
            matches!(self.peek(), Some(Tok::Sym(x)) if *x == s)
        }
        fn is_id(&self, s: &str) -> bool {
            matches!(self.peek(), Some(Tok::Id(x)) if x == s)
        }
        fn eat(&mut self, s: &str) -> bool {
            let r = self.is(s);
            if r {
                self.i += 1;
            }
            r
        }
        fn want(&mut self, s: &str) {
            assert!(self.eat(s), "PIL: expected {s:?} at token {} {:?}", self.i, self.peek());
        }
        fn id(&mut self) -> String {
            match self.next() {
                Tok::Id(s) => s,
                t => panic!("PIL: expected a name, got {t:?}"),
            }
        }
        fn int(&mut self) -> u64 {
            let mut v = match self.next() {
                Tok::Num(n) => n,
                Tok::Id(n) => self.vars[&n],
                t => panic!("PIL: expected a number, got {t:?}"),
            };
            if self.eat("**") {
                let e = self.int();
                v = v.pow(e as u32);
            }
            v
        }
        fn abs(&self, n: &str) -> String {
            format!("{}.{n}", self.ns)
        }
        fn declare(&mut self, pt: PolynomialType) {
            loop {
                let n = self.id();
                let len = if self.eat("[") {
                    let l = self.int();
                    self.want("]");
                    Some(l)
                } else {
                    None
                };
                let c = if pt == PolynomialType::Constant { &mut self.n_const } else { &mut self.n_cm };
                let id = *c;
                *c += len.unwrap_or(1);
                let name = self.abs(&n);
                let s = Symbol { id, absolute_name: name.clone(), kind: SymbolKind::Poly(pt), length: len };
                self.a.definitions.insert(name.clone(), (s, None));
                self.a.source_order.push(StatementIdentifier::Definition(name));
                if !self.eat(",") {
                    break;
                }
            }
            self.want(";");
        }
        /// name, optional array index -> polynomial
        fn reference(&mut self) -> (String, PolyID, Option<usize>) {
            let mut n = self.id();
            let mut ns = self.ns.clone();
            if self.eat(".") {
                ns = n;
                n = self.id();
            }
            let full = format!("{ns}.{n}");
            let s = self
                .a
                .definitions
                .get(&full)
                .map(|x| x.0.clone())
                .or_else(|| self.a.intermediate_columns.get(&full).map(|x| x.0.clone()))
                .unwrap_or_else(|| panic!("PIL: {full} is not declared"));
            let SymbolKind::Poly(ptype) = s.kind else { panic!() };
            let mut idx = None;
            if self.eat("[") {
                let i = self.int();
                assert!(i < s.length.expect("PIL: not an array"));
                idx = Some(i as usize);
                self.want("]");
            }
            (full, PolyID { id: s.id, ptype }, idx)
        }
        fn expr(&mut self) -> AlgebraicExpression<T> {
            let mut l = self.term();
            loop {
                let op = if self.eat("+") {
                    AlgebraicBinaryOperator::Add
                } else if self.eat("-") {
                    AlgebraicBinaryOperator::Sub
                } else {
                    return l;
                };
                let r = self.term();
                l = AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation {
                    left: Box::new(l),
                    op,
                    right: Box::new(r),
                });
            }
        }
        fn term(&mut self) -> AlgebraicExpression<T> {
            let mut l = self.atom();
            while self.eat("*") {
                let r = self.atom();
                l = AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation {
                    left: Box::new(l),
                    op: AlgebraicBinaryOperator::Mul,
                    right: Box::new(r),
                });
            }
            l
        }
        fn atom(&mut self) -> AlgebraicExpression<T> {
            if self.eat("(") {
                let e = self.expr();
                self.want(")");
                return e;
            }
            if self.eat("-") {
                let e = self.atom();
                return AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation {
                    op: AlgebraicUnaryOperator::Minus,
                    expr: Box::new(e),
                });
            }
            if self.eat(":") {
                let n = self.id();
                let n = self.abs(&n);
                assert!(self.a.public_declarations.contains_key(&n));
                return AlgebraicExpression::PublicReference(n);
            }
            if let Some(Tok::Num(_)) = self.peek() {
                return AlgebraicExpression::Number(T::from_u64(self.int()));
            }
            let (name, mut poly_id, idx) = self.reference();
            poly_id.id += idx.unwrap_or(0) as u64;
            let next = self.eat("'");
            AlgebraicExpression::Reference(AlgebraicReference { name, poly_id, next })
        }
        fn list(&mut self, close: &str) -> Vec<AlgebraicExpression<T>> {
            let mut v = vec![];
            loop {
                v.push(self.expr());
                if !self.eat(",") {
                    break;
                }
            }
            self.want(close);
            v
        }
        /// [sel] { exprs }
        fn selected(&mut self) -> SelectedExpressions<AlgebraicExpression<T>> {
            let selector = if self.is("{") { None } else { Some(self.expr()) };
            self.want("{");
            SelectedExpressions { selector, expressions: self.list("}") }
        }
        fn identity(&mut self) {
            let start = self.t[self.i].1;
            let (kind, left, right) = if self.eat("[") {
                let l = self.list("]");
                assert_eq!(self.id(), "connect");
                self.want("[");
                let r = self.list("]");
                (
                    IdentityKind::Connect,
                    SelectedExpressions { selector: None, expressions: l },
                    SelectedExpressions { selector: None, expressions: r },
                )
            } else {
                let sel = if self.is("{") { None } else { Some(self.expr()) };
                if sel.is_some() && self.eat("=") {
                    let r = self.expr();
                    let l = sel.unwrap();
                    let e = match r {
                        AlgebraicExpression::Number(n) if n == T::from_u64(0) => l,
                        r => AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation {
                            left: Box::new(l),
                            op: AlgebraicBinaryOperator::Sub,
                            right: Box::new(r),
                        }),
                    };
                    (
                        IdentityKind::Polynomial,
                        SelectedExpressions { selector: Some(e), expressions: vec![] },
                        SelectedExpressions { selector: None, expressions: vec![] },
                    )
                } else {
                    self.want("{");
                    let l = SelectedExpressions { selector: sel, expressions: self.list("}") };
                    let kind = match self.id().as_str() {
                        "in" => IdentityKind::Plookup,
                        "is" => IdentityKind::Permutation,
                        x => panic!("PIL: unexpected {x}"),
                    };
                    let r = self.selected();
                    (kind, l, r)
                }
            };
            self.want(";");
            let source = SourceRef {
                file_name: self.name.map(Arc::from),
                file_contents: Some(self.src.clone()),
                start,
                end: self.t[self.i - 1].1,
            };
            let id = self.a.identities.len();
            self.a.identities.push(Identity { kind, source, left, right });
            self.a.source_order.push(StatementIdentifier::Identity(id));
        }
        fn run(mut self) -> Analyzed<T> {
            while self.peek().is_some() {
                if self.is_id("let") {
                    self.i += 1;
                    let n = self.id();
                    self.want(":");
                    self.id();
                    self.want("=");
                    let v = self.int();
                    self.want(";");
                    self.vars.insert(n, v);
                } else if self.is_id("namespace") {
                    self.i += 1;
                    self.ns = self.id();
                    self.want("(");
                    self.a.degree = self.int();
                    self.want(")");
                    self.want(";");
                } else if self.is_id("pol") {
                    self.i += 1;
                    if self.is_id("constant") {
                        self.i += 1;
                        self.declare(PolynomialType::Constant);
                    } else if self.is_id("commit") {
                        self.i += 1;
                        self.declare(PolynomialType::Committed);
                    } else {
                        let n = self.id();
                        self.want("=");
                        let e = self.expr();
                        self.want(";");
                        let name = self.abs(&n);
                        let s = Symbol {
                            id: self.n_im,
                            absolute_name: name.clone(),
                            kind: SymbolKind::Poly(PolynomialType::Intermediate),
                            length: None,
                        };
                        self.n_im += 1;
                        self.a.intermediate_columns.insert(name.clone(), (s, vec![e]));
                        self.a.source_order.push(StatementIdentifier::Definition(name));
                    }
                } else if self.is_id("public") {
                    self.i += 1;
                    let n = self.id();
                    self.want("=");
                    let (pname, poly_id, array_index) = self.reference();
                    self.want("(");
                    let index = self.int();
                    self.want(")");
                    self.want(";");
                    let name = self.abs(&n);
                    let id = self.a.public_declarations.len() as u64;
                    self.a.public_declarations.insert(
                        name.clone(),
                        PublicDeclaration {
                            id,
                            name: name.clone(),
                            polynomial: PolynomialReference { name: pname, poly_id: Some(poly_id) },
                            array_index,
                            index,
                        },
                    );
                    self.a.source_order.push(StatementIdentifier::PublicDeclaration(name));
                } else {
                    self.identity();
                }
            }
            self.a
        }
    }

    pub fn analyze_string<T: FieldElement>(contents: &str) -> Analyzed<T> {
        analyze(contents, None)
    }
    pub fn analyze_file<T: FieldElement>(path: &Path) -> Analyzed<T> {
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path:?}: {e}"));
        analyze(&s, path.to_str())
    }
    fn analyze<T: FieldElement>(s: &str, name: Option<&str>) -> Analyzed<T> {
        Parser {
            t: lex(s),
            i: 0,
            ns: "Global".into(),
            vars: HashMap::new(),
            a: Analyzed {
                definitions: HashMap::new(),
                intermediate_columns: HashMap::new(),
                public_declarations: HashMap::new(),
                identities: vec![],
                source_order: vec![],
                degree: 0,
            },
            n_cm: 0,
            n_const: 0,
            n_im: 0,
            src: Arc::from(s),
            name,
        }
        .run()
    }
}
