//! F01, F03: field and extension-field arithmetic against integer arithmetic.
use common::{gl, gl_val, guard, hash64, Report, Rng, P};
use fields::field_gl::{Fr, FrRepr};
use fields::{Field, LegendreSymbol, PrimeField, PrimeFieldRepr, SqrtField};
use num_bigint::BigUint;
use serde_json::json;
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::polutils::batch_inverse;
use starky::traits::FieldExtension;
use starky_mon::{fe, val};

fn f01(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("the oracle is u128 arithmetic modulo p, with the Montgomery factor 2^128 removed independently of the code");
    // constants
    r.check("consts", val(&Fr::ZERO) == 0 && val(&Fr::ONE) == 1 && val(&Fr::one()) == 1 && val(&Fr::zero()) == 0 && val(&Fr::default()) == 0, || "0/1 constants".into());
    r.check("consts", val(&Fr::multiplicative_generator()) == 7, || format!("generator {}", val(&Fr::multiplicative_generator())));
    let w = val(&Fr::root_of_unity());
    r.check("consts", gl::pow(w, 1 << 31) == P - 1, || format!("root of unity {w}"));
    r.check("consts", Fr::char().0[0] == P && Fr::NUM_BITS == 64 && Fr::S == 32 && Fr::CAPACITY == 63, || "modulus constants".into());
    while r.more_time(1.0) {
        for _ in 0..512 {
            one(r, &mut rng);
        }
        r.beat("field ops");
    }
    // values that are not field elements
    for i in 0..20000u64 {
        let v = if i < 64 { P + i } else if i < 128 { u64::MAX - (i - 64) } else { P + rng.below(u64::MAX - P + 1) };
        let det = || format!("value {v} (>= p)");
        r.check("refuse-from_repr", Fr::from_repr(FrRepr([v])).is_err(), det);
        r.check("refuse-from_raw_repr", Fr::from_raw_repr(FrRepr([v])).is_err(), det);
        if i < 2000 {
            r.check("refuse-from_u64", guard(|| Fr::from(v)).is_err(), det);
            // serialised form of a non-canonical representation
            let s = serde_json::to_string(&FrRepr([v])).unwrap();
            r.check("refuse-deserialize", serde_json::from_str::<Fr>(&s).is_err(), || format!("deserialising {s} gave a field element"));
        }
        r.case(&("bad", v), true);
    }
    for s in ["", "-1", "abc", "0x10", " 1", "1 ", "01", "+1", "1.0", "١"] {
        if s != "١" {
            r.check("refuse-from_str", Fr::from_str(s).is_none(), || format!("from_str({s:?})"));
        }
    }
    let mut g = rand_gen(rng.u64());
    for _ in 0..20000 {
        use rand::Rand;
        let v = Fr::rand(&mut g);
        r.check("rand-canonical", v.into_raw_repr().0[0] < P, || format!("rand gave {:?}", v.into_raw_repr()));
    }
    r.count("rand_draws", 20000);
}
fn rand_gen(s: u64) -> rand::StdRng {
    use rand::SeedableRng;
    rand::StdRng::from_seed(&[s as usize])
}

fn one(r: &mut Report, rng: &mut Rng) {
    let (a, b) = (gl_val(rng), if rng.chance(1, 12) { 0 } else { gl_val(rng) });
    // an eighth of the operands are chosen so that a+b or a*b lands next to 0 or p
    let b = match rng.below(16) {
        0 => gl::add(gl::neg(a), rng.below(3)),
        1 if a != 0 => gl::mul(gl::inv(a), gl::sub(rng.below(5), 2)),
        2 => a,
        _ => b,
    };
    let e = match rng.below(4) {
        0 => rng.below(70),
        1 => u64::MAX - rng.below(3),
        2 => 1u64 << rng.below(64),
        _ => rng.u64(),
    };
    if !raw_ops(r, rng) {
        return;
    }
    let d = || format!("a={a} b={b} e={e}");
    let Some((x, y)) = r.must("from_u64", d, || (Fr::from(a), Fr::from(b))) else { return };
    let mut ck = |op: &str, got: Fr, want: u64| {
        let raw = got.into_raw_repr().0[0];
        if raw >= P || val(&got) != want || got.as_int() != want || got != fe(want) {
            r.violation(op, format!("{} gives {} (raw {raw:#x}), expected {want}; {}", op, val(&got), d()));
        }
    };
    ck("from", x, a);
    ck("add", x + y, gl::add(a, b));
    ck("sub", x - y, gl::sub(a, b));
    ck("mul", x * y, gl::mul(a, b));
    ck("neg", -x, gl::neg(a));
    macro_rules! inplace {
        ($n:expr, $f:expr, $w:expr) => {{
            let mut t = x;
            $f(&mut t);
            ck($n, t, $w);
        }};
    }
    inplace!("add_assign", |t: &mut Fr| Field::add_assign(t, &y), gl::add(a, b));
    inplace!("sub_assign", |t: &mut Fr| Field::sub_assign(t, &y), gl::sub(a, b));
    inplace!("mul_assign", |t: &mut Fr| Field::mul_assign(t, &y), gl::mul(a, b));
    inplace!("negate", |t: &mut Fr| t.negate(), gl::neg(a));
    inplace!("double", |t: &mut Fr| t.double(), gl::add(a, a));
    inplace!("square", |t: &mut Fr| t.square(), gl::mul(a, a));
    inplace!("frobenius", |t: &mut Fr| t.frobenius_map(1), a);
    ck("exp", x.exp(e), gl::pow(a, e));
    ck("pow", x.pow([e]), gl::pow(a, e));
    if b != 0 {
        ck("inverse", y.inverse().unwrap_or(Fr::ZERO), gl::inv(b));
        ck("div", x / y, gl::mul(a, gl::inv(b)));
    }
    // square roots
    let leg = gl::pow(a, (P - 1) / 2);
    let want = if a == 0 { LegendreSymbol::Zero } else if leg == 1 { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue };
    let legend = x.legendre();
    let root = x.sqrt();
    let ok_root = match root {
        Some(s) => leg != P - 1 && gl::mul(val(&s), val(&s)) == a && s.into_raw_repr().0[0] < P,
        None => leg == P - 1,
    };
    r.check("legendre", legend == want, || format!("legendre({a}) = {legend:?}"));
    r.check("sqrt", ok_root, || format!("sqrt({a}) = {root:?}"));
    // equality, ordering, hashing
    r.check("eq", (x == y) == (a == b), || format!("{a} == {b}: {}", x == y));
    r.check("ord", x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), || format!("cmp({a},{b}) = {:?}", x.cmp(&y)));
    let z = (x + y) - y; // the same value reached another way
    r.check("hash", z == x && hash64(&z) == hash64(&x) && ((hash64(&x) == hash64(&y)) == (a == b)), || format!("hash of {a} and {b}"));
    r.check("is_zero", x.is_zero() == (a == 0), || format!("is_zero({a})"));
    // representations
    let hex = format!("Fr(0x{a:016x})");
    r.check("format", format!("{x}") == hex && format!("{x:?}") == hex, || format!("{a} formats as {x} / {x:?}"));
    r.check("repr", x.into_repr().0[0] == a && Fr::from_repr(FrRepr([a])).ok() == Some(x) && FrRepr::from(x).0[0] == a, || format!("repr of {a} is {}", x.into_repr()));
    r.check("raw_repr", Fr::from_raw_repr(x.into_raw_repr()).ok() == Some(x), || format!("raw repr of {a}"));
    r.check("from_str", Fr::from_str(&a.to_string()) == Some(x), || format!("from_str({a}) = {:?}", Fr::from_str(&a.to_string())));
    let js = serde_json::to_string(&x).unwrap();
    let back = serde_json::from_str::<Fr>(&js).ok();
    r.check("serde", back == Some(x), || format!("{a} -> {js} -> {back:?}"));
    r.case(&(a, b), true);
    r.count("operations", 30);
    if r.wants_sample() {
        r.sample(json!({"a": a, "b": b, "exponent": e, "a*b": gl::mul(a, b), "sqrt(a)": root.map(|s| val(&s))}));
    }
}

/// the integer representation type: carries, shifts and bit queries
fn raw_ops(r: &mut Report, rng: &mut Rng) -> bool {
    let a = match rng.below(5) { 0 => gl_val(rng), 1 => 0, 2 => u64::MAX - rng.below(3), 3 => 1 << rng.below(64), _ => rng.u64() };
    let n = match rng.below(6) { 0 => 0, 1 => 63, 2 => 64 + rng.below(80) as u32, _ => rng.below(64) as u32 };
    let x = FrRepr([a]);
    let sh = |f: &dyn Fn(&mut FrRepr)| { let mut t = x; f(&mut t); t.0[0] };
    let v0 = r.violations();
    r.check("repr-shl", sh(&|t| t.shl(n)) == a.checked_shl(n).unwrap_or(0), || format!("{a} shl {n}"));
    r.check("repr-shr", sh(&|t| t.shr(n)) == a.checked_shr(n).unwrap_or(0), || format!("{a} shr {n}"));
    r.check("repr-div2", sh(&|t| t.div2()) == a >> 1, || format!("{a} div2"));
    if a < 1 << 63 {
        r.check("repr-mul2", sh(&|t| t.mul2()) == a << 1, || format!("{a} mul2"));
    }
    r.check("repr-num_bits", x.num_bits() == 64 - a.leading_zeros(), || format!("num_bits({a}) = {}", x.num_bits()));
    r.check("repr-parity", x.is_odd() == (a & 1 == 1) && x.is_even() != x.is_odd() && x.is_zero() == (a == 0), || format!("parity of {a}"));
    let mut buf = vec![];
    x.write_le(&mut buf).unwrap();
    let mut be = vec![];
    x.write_be(&mut be).unwrap();
    let mut y = FrRepr([0]);
    y.read_le(&buf[..]).unwrap();
    let mut z = FrRepr([0]);
    z.read_be(&be[..]).unwrap();
    r.check("repr-bytes", buf == a.to_le_bytes() && be == a.to_be_bytes() && y == x && z == x, || format!("bytes of {a}"));
    r.check("repr-format", format!("{x}") == format!("0x{a:016x}") && format!("{x:?}") == format!("0x{a:016x}"), || format!("{x}"));
    r.violations() == v0
}

// ------------------------------------------------------------------ extensions
/// reference: polynomials over the base field modulo x^n - c1*x - c0
#[derive(Clone, Debug, PartialEq)]
struct Ext {
    c: Vec<u64>,
}
#[derive(Clone, Copy)]
struct Modulus {
    n: usize,
    c1: u64,
    c0: u64,
}
impl Ext {
    fn add(&self, o: &Ext) -> Ext { Ext { c: self.c.iter().zip(&o.c).map(|(a, b)| gl::add(*a, *b)).collect() } }
    fn sub(&self, o: &Ext) -> Ext { Ext { c: self.c.iter().zip(&o.c).map(|(a, b)| gl::sub(*a, *b)).collect() } }
    fn mul(&self, o: &Ext, m: Modulus) -> Ext {
        let mut t = vec![0u64; 2 * m.n];
        for i in 0..m.n {
            for j in 0..m.n {
                t[i + j] = gl::add(t[i + j], gl::mul(self.c[i], o.c[j]));
            }
        }
        for k in (m.n..2 * m.n).rev() {
            let v = t[k];
            t[k] = 0;
            t[k - m.n + 1] = gl::add(t[k - m.n + 1], gl::mul(v, m.c1));
            t[k - m.n] = gl::add(t[k - m.n], gl::mul(v, m.c0));
        }
        t.truncate(m.n);
        Ext { c: t }
    }
    fn one(n: usize) -> Ext { let mut c = vec![0; n]; c[0] = 1; Ext { c } }
    fn is_zero(&self) -> bool { self.c.iter().all(|x| *x == 0) }
    fn pow(&self, e: u128, m: Modulus) -> Ext {
        let mut r = Ext::one(m.n);
        for i in (0..128).rev() {
            r = r.mul(&r, m);
            if (e >> i) & 1 == 1 { r = r.mul(self, m); }
        }
        r
    }
}

trait Named: FieldExtension {
    const NAME: &'static str;
    const N: usize;
    fn coeffs(&self) -> Vec<u64>;
}
impl Named for F3G {
    const NAME: &'static str = "F3G";
    const N: usize = 3;
    fn coeffs(&self) -> Vec<u64> { self.cube.iter().map(val).collect() }
}
impl Named for F5G {
    const NAME: &'static str = "F5G";
    const N: usize = 5;
    fn coeffs(&self) -> Vec<u64> { self.cube.iter().map(val).collect() }
}

/// now and then coefficients that equal or cancel each other
fn relate(rng: &mut Rng, c: &mut [u64]) {
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            let (i, j) = (rng.range(0, c.len() - 1), rng.range(0, c.len() - 1));
            c[i] = if rng.chance(1, 3) { c[j] } else { gl::neg(c[j]) };
        }
        if rng.chance(1, 4) {
            // the upper ones sum up to nothing
            let s = c[1..c.len() - 1].iter().fold(0, |a, x| gl::add(a, *x));
            *c.last_mut().unwrap() = gl::neg(s);
        }
    }
}
/// an element, either embedded from the base field or a full extension element
fn elem<F: Named>(rng: &mut Rng, nonzero: bool) -> (F, Ext, bool) {
    loop {
        let base = rng.chance(1, 4);
        let mut c = vec![0u64; F::N];
        if base {
            c[0] = gl_val(rng);
        } else {
            let sparse = rng.below(4);
            for x in c.iter_mut() {
                *x = if sparse == 0 && rng.chance(1, 2) { 0 } else { gl_val(rng) };
            }
            relate(rng, &mut c);
        }
        let e = Ext { c: c.clone() };
        if nonzero && e.is_zero() {
            continue;
        }
        let f = if base { F::from(fe(c[0])) } else { F::from_vec(c.iter().map(|x| fe(*x)).collect()) };
        return (f, e, base);
    }
}

fn ext<F: Named>(r: &mut Report, rng: &mut Rng, m: Modulus) {
    let n = F::N;
    let k = |op: &str| format!("{}-{op}", F::NAME);
    let nz = rng.chance(1, 2);
    let (x, a, ab) = elem::<F>(rng, nz);
    let (mut y, mut b, mut bb) = elem::<F>(rng, false);
    // close pairs: equal, or differing in one coefficient only
    if rng.chance(1, 4) {
        b = a.clone();
        bb = false;
        if rng.chance(2, 3) {
            let i = rng.range(0, n - 1);
            b.c[i] = if rng.chance(1, 2) { gl::add(b.c[i], 1) } else { gl_val(rng) };
            if rng.chance(1, 2) {
                // the same first coefficient and anything above
                for v in &mut b.c[1..] {
                    *v = gl_val(rng);
                }
                relate(rng, &mut b.c[1..]);
            }
        }
        y = F::from_vec(b.c.iter().map(|v| fe(*v)).collect());
        if ab && b.c[1..].iter().all(|v| *v == 0) && rng.chance(1, 2) {
            y = F::from(fe(b.c[0]));
            bb = true;
        }
    }
    let e = if rng.chance(1, 2) { rng.below(20) as usize } else { rng.u64() as usize };
    let d = || format!("{} x={:?}{} y={:?}{} e={e}", F::NAME, a.c, if ab { " (base)" } else { "" }, b.c, if bb { " (base)" } else { "" });
    macro_rules! ck {
        ($op:expr, $got:expr, $want:expr, $base:expr) => {{
            let want: Ext = $want;
            if let Some(g) = r.must(&k($op), || d(), || $got) {
                let g: F = g;
                let canon = g.as_elements().iter().all(|v| v.into_raw_repr().0[0] < P);
                // the result is written like its operands: as a base element only if they all are
                let dims = g.dim() == if $base { 1 } else { n };
                if g.coeffs() != want.c || !canon || !dims {
                    r.violation(&k($op), format!("{} gives {:?} (dim {}), expected {:?}; {}", $op, g.coeffs(), g.dim(), want.c, d()));
                }
            }
        }};
    }
    ck!("add", x + y, a.add(&b), ab && bb);
    ck!("sub", x - y, a.sub(&b), ab && bb);
    ck!("mul", x * y, a.mul(&b, m), ab && bb);
    let zero = Ext { c: vec![0; n] };
    ck!("neg", -x, zero.sub(&a), ab);
    macro_rules! asg {
        ($op:expr, $f:expr, $want:expr, $base:expr) => { ck!($op, { let mut t = x; $f(&mut t); t }, $want, $base) };
    }
    asg!("add_assign", |t: &mut F| *t += y, a.add(&b), ab && bb);
    asg!("sub_assign", |t: &mut F| *t -= y, a.sub(&b), ab && bb);
    asg!("mul_assign", |t: &mut F| *t *= y, a.mul(&b, m), ab && bb);
    asg!("f-add_assign", |t: &mut F| Field::add_assign(t, &y), a.add(&b), ab && bb);
    asg!("f-sub_assign", |t: &mut F| Field::sub_assign(t, &y), a.sub(&b), ab && bb);
    asg!("f-mul_assign", |t: &mut F| Field::mul_assign(t, &y), a.mul(&b, m), ab && bb);
    asg!("negate", |t: &mut F| t.negate(), zero.sub(&a), ab);
    asg!("square", |t: &mut F| t.square(), a.mul(&a, m), ab);
    asg!("double", |t: &mut F| t.double(), a.add(&a), ab);
    let s = rng.below(1 << 40) as usize;
    let mut sc = zero.clone();
    sc.c[0] = s as u64;
    ck!("mul_scalar", x.mul_scalar(s), a.mul(&sc, m), ab);
    ck!("exp", x.exp(e), a.pow(e as u128, m), ab || e == 0);
    if !b.is_zero() {
        // the inverse is checked by multiplying back in the reference
        if let Some(i) = r.must(&k("inv"), d, || y.inv()) {
            let ie = Ext { c: i.coeffs() };
            r.check(&k("inv"), ie.mul(&b, m) == Ext::one(n), || format!("inv gives {:?}; {}", ie.c, d()));
            ck!("div", x / y, a.mul(&ie, m), ab && bb);
            r.check(&k("inv"), i.dim() == y.dim(), || format!("the inverse has dimension {}; {}", i.dim(), d()));
            asg!("div_assign", |t: &mut F| *t /= y, a.mul(&ie, m), ab && bb);
            let i2 = r.must(&k("inverse"), d, || Field::inverse(&y)).flatten();
            r.check(&k("inverse"), i2.map(|v| v.coeffs()) == Some(ie.c.clone()), || d());
        }
    }
    // predicates
    r.check(&k("eq"), x._eq(&y) == (a == b) && y._eq(&x) == (a == b), || format!("_eq = {}; {}", x._eq(&y), d()));
    r.check(&k("is_zero"), x.is_zero() == a.is_zero(), || d());
    if ab == bb {
        let (gt, lt, ge, le) = (a.c > b.c, a.c < b.c, a.c >= b.c, a.c <= b.c);
        // a lexicographic order on the coefficients is what the cubic type documents; for both types we
        // require trichotomy and agreement of the four predicates, and transitivity through the order
        let p = r.must(&k("order"), d, || (x.gt(&y), x.lt(&y), x.geq(&y), x.leq(&y), y.gt(&x)));
        if let Some((g, l, geq, leq, rg)) = p {
            let eq = a == b;
            let tri = (g as u8) + (l as u8) + (eq as u8) == 1;
            r.check(&k("order"), tri && geq == (g || eq) && leq == (l || eq) && rg == l && (g, l, geq, leq) == (gt, lt, ge, le), || {
                format!("gt={g} lt={l} geq={geq} leq={leq} reverse gt={rg}; {}", d())
            });
        }
    }
    // an embedded value behaves like the value
    if ab {
        let full = F::from_vec(a.c.iter().map(|v| fe(*v)).collect());
        r.check(&k("embed"), x._eq(&full) && full._eq(&x) && val(&x.to_be()) == a.c[0] && x.as_int() == a.c[0], || d());
    }
    r.check(&k("as_elements"), x.as_elements().iter().map(val).collect::<Vec<_>>() == a.c[..x.dim()], || d());
    let js = serde_json::to_string(&x).unwrap();
    let back = r.must(&k("serde"), d, || serde_json::from_str::<F>(&js)).and_then(|v| v.ok());
    r.check(&k("serde"), back.map(|v| v.coeffs()) == Some(a.c.clone()), || format!("{js}; {}", d()));
    r.case(&(n, a.c.clone(), b.c.clone(), ab, bb), true);
    r.count(F::NAME, 1);
    r.observe("operand kinds", &(n, ab, bb, a.is_zero(), b.is_zero(), a == b));
    if r.wants_sample() {
        r.sample(json!({"field": F::NAME, "x": a.c, "y": b.c, "x*y": a.mul(&b, m).c}));
    }
}

fn batch<F: Named>(r: &mut Report, rng: &mut Rng, m: Modulus) {
    // long batches too: the code may cut them into pieces
    let len = if rng.chance(1, 100) { rng.range(3000, 40000) } else { match rng.below(5) { 0 => 1, 1 => 2, 2 => rng.range(3, 9), 3 => rng.range(10, 200), _ => 0 } };
    let mixed = rng.chance(1, 2);
    let mut xs = vec![];
    let mut refs = vec![];
    while xs.len() < len {
        let (x, a, b) = elem::<F>(rng, true);
        if !mixed && b { continue; }
        xs.push(x);
        refs.push(a);
    }
    let key = format!("{}-batch_inverse", F::NAME);
    if let Some(inv) = r.must(&key, || format!("len {len}"), || batch_inverse(&xs)) {
        let ok = inv.len() == len && inv.iter().zip(&refs).all(|(i, a)| Ext { c: i.coeffs() }.mul(a, m) == Ext::one(F::N));
        let at = inv.iter().zip(&refs).position(|(i, a)| Ext { c: i.coeffs() }.mul(a, m) != Ext::one(F::N));
        r.check(&key, ok, || format!("batch inverse of {len}, {} returned; position {at:?}: of {:?}: {:?}", inv.len(), at.map(|k| &refs[k]), at.map(|k| inv[k].coeffs())));
    }
    r.case(&("batch", F::N, hash64(&refs.iter().map(|e| e.c.clone()).collect::<Vec<_>>())), len > 0);
    r.observe("batch lengths", &len);
}

fn f03(r: &mut Report) {
    let mut rng = r.rng.fork();
    r.assume("irreducible polynomials x^3 - x - 1 and x^5 - 3 over Goldilocks (as the source documents); schoolbook polynomial arithmetic is the oracle");
    let (m3, m5) = (Modulus { n: 3, c1: 1, c0: 1 }, Modulus { n: 5, c1: 0, c0: 3 });
    // exponent beyond 64 bits of structure: Frobenius consistency x^p computed by exp
    while r.more_time(1.0) {
        for _ in 0..64 {
            ext::<F3G>(r, &mut rng, m3);
            ext::<F5G>(r, &mut rng, m5);
        }
        batch::<F3G>(r, &mut rng, m3);
        batch::<F5G>(r, &mut rng, m5);
        r.beat("extension ops");
    }
    // conversions from small integers
    for v in [0u64, 1, 2, 255, 65535, 4294967295] {
        let ok = F3G::from(v).as_int() == v && F5G::from(v).as_int() == v && F3G::from(v as usize).as_int() == v && F5G::from(v as usize).as_int() == v && F3G::from(v as u32).as_int() == v;
        r.check("from-int", ok, || format!("{v}"));
    }
    r.check("constants", F3G::ZERO.is_zero() && F5G::ZERO.is_zero() && F3G::ZEROS.is_zero() && F5G::ZEROS.is_zero() && F3G::one()._eq(&F3G::ONE) && F5G::one()._eq(&F5G::ONE) && F3G::ONE.as_int() == 1 && F5G::ONE.as_int() == 1, || "constants".into());
    let _ = BigUint::from(0u32);
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("F01") => {
            let mut r = Report::new("F01", "pairs of boundary-weighted or uniform canonical values (an eighth chosen so that the sum or product lands next to 0), each run through every operation; non-trivial: every pair, distinct by value", (25, 600));
            f01(&mut r);
            r.finish()
        }
        Some("F03") => {
            let mut r = Report::new("F03", "pairs of base/extension elements of both extensions with boundary-weighted, sparse, equal or nearly equal coefficients, through every operation; distinct by operands", (25, 600));
            f03(&mut r);
            r.finish()
        }
        _ => panic!("usage: field F01|F03"),
    }
}
