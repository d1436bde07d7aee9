//! Circuits over the Goldilocks field with custom gates, in plain integers.
use common::{gl, gl_val, Rng};
use num_bigint::BigUint;
use r1cs_mon::{Prime, Spec};
use starky_mon::ext::cubic;
use starky_mon::refhash::gl_permute_round;

pub type Lc = Vec<(usize, u64)>;
#[derive(Clone, Debug, Default, Hash)]
pub struct Circ {
    pub n_wires: usize,
    pub pub_out: usize,
    pub pub_in: usize,
    pub constraints: Vec<[Lc; 3]>,
    pub gates: Vec<(String, Vec<u64>)>,
    pub uses: Vec<(usize, Vec<usize>)>,
}

pub fn eval(l: &Lc, w: &[u64]) -> u64 {
    l.iter().fold(0, |a, (i, c)| gl::add(a, gl::mul(*c, w[*i])))
}
fn e3(v: &[u64], k: usize) -> [u64; 3] {
    [v[3 * k], v[3 * k + 1], v[3 * k + 2]]
}
/// the outputs of a gate: (index of the first output signal, values)
pub fn gate_outputs(name: &str, p: &[u64], inp: &[u64]) -> (usize, Vec<u64>) {
    match name {
        "CMulAdd" => (9, cubic::add(&cubic::mul(&e3(inp, 0), &e3(inp, 1)), &e3(inp, 2)).to_vec()),
        "EvPol4" => {
            // c0 + c1 x + c2 x^2 + c3 x^3 + acc x^4
            let x = e3(inp, 5);
            let mut xi = [1, 0, 0];
            let mut s = [0; 3];
            for k in 0..5 {
                s = cubic::add(&s, &cubic::mul(&e3(inp, k), &xi));
                xi = cubic::mul(&xi, &x);
            }
            (18, s.to_vec())
        }
        "FFT4" => {
            let (w, inc, scale, t) = (p[0], p[1], p[2], p[3]);
            let i: Vec<[u64; 3]> = (0..4).map(|k| e3(inp, k)).collect();
            let butterfly = |a: &[u64; 3], b: &[u64; 3], w: u64| {
                let t = cubic::scale(b, w);
                (cubic::add(a, &t), cubic::sub(a, &t))
            };
            let o = if t == 4 {
                let w2 = gl::mul(w, w);
                let (u0, u1) = butterfly(&i[0], &i[1], w2);
                let (u2, u3) = butterfly(&i[2], &i[3], w2);
                let (o0, o2) = butterfly(&u0, &u2, w);
                let (o1, o3) = butterfly(&u1, &u3, gl::mul(w, inc));
                [o0, o1, o2, o3]
            } else {
                let (o0, o1) = butterfly(&i[0], &i[1], w);
                let (o2, o3) = butterfly(&i[2], &i[3], gl::mul(w, inc));
                [o0, o1, o2, o3]
            };
            (12, o.iter().flat_map(|x| cubic::scale(x, scale)).collect())
        }
        "Poseidon12" => {
            let mut s: [u64; 12] = inp[..12].try_into().unwrap();
            let mut o = vec![];
            for r in 0..30 {
                gl_permute_round(&mut s, r);
                o.extend(s);
            }
            (12, o)
        }
        _ => panic!("{name}"),
    }
}
pub fn inputs_of(name: &str) -> usize {
    match name {
        "CMulAdd" => 9,
        "EvPol4" => 18,
        _ => 12,
    }
}

impl Circ {
    /// which constraints and gate uses an assignment breaks
    pub fn broken(&self, w: &[u64]) -> Vec<String> {
        let mut o = vec![];
        for (i, c) in self.constraints.iter().enumerate() {
            if gl::mul(eval(&c[0], w), eval(&c[1], w)) != eval(&c[2], w) {
                o.push(format!("constraint {i}"));
            }
        }
        for (i, (g, sig)) in self.uses.iter().enumerate() {
            let v: Vec<u64> = sig.iter().map(|s| w[*s]).collect();
            let (name, p) = &self.gates[*g];
            // every round of Poseidon is checked from the signals of the round before
            let ok = if name == "Poseidon12" {
                (0..30).all(|r| {
                    let mut s: [u64; 12] = v[12 * r..12 * r + 12].try_into().unwrap();
                    gl_permute_round(&mut s, r);
                    v[12 * r + 12..12 * r + 24] == s
                })
            } else {
                let (k, out) = gate_outputs(name, p, &v);
                v[k..k + out.len()] == out
            };
            if !ok {
                o.push(format!("gate use {i} ({name})"));
            }
        }
        o
    }
    pub fn spec(&self) -> Spec {
        let b = |x: u64| BigUint::from(x);
        let lc = |l: &Lc| l.iter().map(|(i, c)| (*i as u32, b(*c))).collect::<Vec<_>>();
        let custom = !self.gates.is_empty();
        Spec {
            prime: Prime::Gl,
            n_wires: self.n_wires as u32,
            n_pub_out: self.pub_out as u32,
            n_pub_in: self.pub_in as u32,
            n_prv_in: 0,
            n_labels: self.n_wires as u64,
            constraints: self.constraints.iter().map(|c| [lc(&c[0]), lc(&c[1]), lc(&c[2])]).collect(),
            map: (0..self.n_wires as u64).collect(),
            gates: custom.then(|| self.gates.iter().map(|(n, p)| (n.clone(), p.iter().map(|x| b(*x)).collect())).collect()),
            uses: custom.then(|| self.uses.iter().map(|(g, s)| (*g as u64, s.iter().map(|x| *x as u64).collect())).collect()),
        }
    }
    pub fn file(&self) -> Vec<u8> {
        r1cs_mon::file(&r1cs_mon::sections(&self.spec()))
    }
    pub fn publics(&self) -> usize {
        self.pub_out + self.pub_in
    }
}

pub struct Opts {
    pub constraints: usize,
    pub gates: bool,
    pub uses: usize,
    pub max_terms: usize,
    /// coefficients from a small set, so that gates share rows
    pub palette: bool,
}

/// a random circuit together with an assignment that satisfies it
/// the same circuit with its private wires spread over a larger range; the wires in between are free
pub fn scatter(r: &mut Rng, c: &mut Circ, w: &mut Vec<u64>) {
    let keep = c.publics() + 1;
    let free = c.n_wires - keep;
    let near = 1usize << r.range(5, 15);
    let n = (near + 30 - r.range(0, 60).min(near / 2)).max(c.n_wires);
    let mut at = std::collections::BTreeSet::new();
    while at.len() < free {
        at.insert(r.range(keep, n - 1));
    }
    let to: Vec<usize> = (0..keep).chain(at).collect();
    let mut v: Vec<u64> = (0..n).map(|_| gl_val(r)).collect();
    for (i, x) in w.iter().enumerate() {
        v[to[i]] = *x;
    }
    for l in c.constraints.iter_mut().flatten() {
        l.iter_mut().for_each(|t| t.0 = to[t.0]);
    }
    for (_, sig) in c.uses.iter_mut() {
        sig.iter_mut().for_each(|s| *s = to[*s]);
    }
    c.n_wires = n;
    *w = v;
}
pub fn random(r: &mut Rng, o: &Opts) -> (Circ, Vec<u64>) {
    let most = if r.chance(1, 6) { 30 } else { 5 };
    let mut c = Circ { pub_out: r.below(4) as usize, pub_in: r.below(most) as usize, ..Default::default() };
    let mut w = vec![1u64];
    // long linear combinations need as many wires
    let own = if o.max_terms > 12 { o.max_terms } else { r.range(1, 6) };
    for _ in 0..c.publics() + own {
        w.push(if r.chance(1, 4) { r.below(2) } else { gl_val(r) });
    }
    let palette: Vec<u64> = (0..3).map(|_| gl_val(r)).collect();
    let coef = |r: &mut Rng| if o.palette { [1, gl::neg(1), palette[0], palette[1]][r.below(4) as usize] } else { gl_val(r) };
    let lc = |r: &mut Rng, w: &Vec<u64>, lo: usize, hi: usize, konst: bool| -> Lc {
        let n = r.range(lo, hi);
        let mut ids: Vec<usize> = (1..w.len()).collect();
        r.shuffle(&mut ids);
        ids.truncate(n);
        if konst {
            ids.push(0);
        }
        if r.chance(2, 3) {
            ids.sort();
        }
        ids.into_iter().map(|i| (i, coef(r))).collect()
    };
    for _ in 0..o.constraints {
        let hi = if r.chance(1, 5) { o.max_terms } else { 2 };
        let k0 = r.chance(1, 3);
        let k1 = r.chance(1, 3);
        let k2 = r.chance(1, 3);
        let (a, b) = match r.below(12) {
            0 => (vec![], vec![]),
            1 => (vec![], lc(r, &w, 1, hi, k1)),
            2 => (lc(r, &w, 1, hi, k0), vec![]),
            3 => (vec![(0, coef(r))], lc(r, &w, 1, hi, k1)),
            4 => (lc(r, &w, 1, hi, k0), vec![(0, coef(r))]),
            5 => (vec![(0, coef(r))], vec![(0, coef(r))]),
            6 => (vec![(r.range(1, w.len() - 1), 0)], lc(r, &w, 1, hi, k1)),
            _ => (lc(r, &w, 1, hi, k0), lc(r, &w, 1, hi, k1)),
        };
        let mut l = lc(r, &w, 0, hi, false);
        let ab = gl::mul(eval(&a, &w), eval(&b, &w));
        let rest = gl::sub(ab, eval(&l, &w));
        if rest == 0 && r.chance(1, 2) {
            // holds as it is
        } else if r.chance(1, 4) {
            l.push((0, rest));
        } else {
            if k2 {
                l.push((0, coef(r)));
            }
            let rest = gl::sub(ab, eval(&l, &w));
            let mut k = coef(r);
            if k == 0 {
                k = 1;
            }
            l.push((w.len(), k));
            w.push(gl::mul(rest, gl::inv(k)));
        }
        c.constraints.push([a, b, l]);
    }
    if o.gates {
        let mut names = vec!["CMulAdd", "Poseidon12", "EvPol4", "FFT4", "FFT4"];
        r.shuffle(&mut names);
        names.truncate(r.range(1, 5));
        for n in names {
            let p = if n == "FFT4" { vec![gl_val(r), gl_val(r), gl_val(r), *r.pick(&[2, 4])] } else { vec![] };
            c.gates.push((n.to_string(), p));
        }
        for _ in 0..o.uses {
            let g = r.below(c.gates.len() as u64) as usize;
            let (name, p) = c.gates[g].clone();
            let mut sig = vec![];
            for _ in 0..inputs_of(&name) {
                if r.chance(2, 3) {
                    sig.push(r.range(1, w.len() - 1));
                } else {
                    sig.push(w.len());
                    w.push(gl_val(r));
                }
            }
            let inp: Vec<u64> = sig.iter().map(|s| w[*s]).collect();
            let (_, out) = gate_outputs(&name, &p, &inp);
            for v in out {
                sig.push(w.len());
                w.push(v);
            }
            c.uses.push((g, sig));
        }
        // gate outputs in ordinary constraints
        for _ in 0..r.range(0, 3) {
            let a = lc(r, &w, 1, 2, false);
            let b = lc(r, &w, 1, 2, false);
            let v = gl::mul(eval(&a, &w), eval(&b, &w));
            c.constraints.push([a, b, vec![(w.len(), 1)]]);
            w.push(v);
        }
    }
    c.n_wires = w.len();
    (c, w)
}

/// the same circuit with so many unused wires after the public ones
pub fn spread(r: &mut Rng, c: &mut Circ, w: &mut Vec<u64>, by: usize) {
    let at = c.publics() + 1;
    let to = |i: &mut usize| {
        if *i >= at {
            *i += by
        }
    };
    for l in c.constraints.iter_mut().flatten() {
        l.iter_mut().for_each(|(i, _)| to(i));
    }
    for (_, s) in c.uses.iter_mut() {
        s.iter_mut().for_each(to);
    }
    let x: Vec<u64> = (0..by).map(|_| r.below(1 << 30)).collect();
    w.splice(at..at, x);
    c.n_wires = w.len();
}

/// another assignment: one or two wires changed
pub fn altered(r: &mut Rng, w: &[u64]) -> Vec<u64> {
    let mut v = w.to_vec();
    for _ in 0..r.range(1, 2) {
        let i = r.range(1, w.len() - 1);
        v[i] = match r.below(3) {
            0 => gl::add(v[i], 1),
            1 => gl::neg(v[i]),
            _ => gl_val(r),
        };
    }
    v
}
