//! Circuits as plain integers, their R1CS file encodings, and both algebraic crates behind one face.
use common::Rng;
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub mod echo;
pub mod imp;

pub type Lc = Vec<(u32, BigUint)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Prime {
    Bn254,
    Bls381,
    Gl,
}
pub const PRIMES: [Prime; 3] = [Prime::Bn254, Prime::Bls381, Prime::Gl];
impl Prime {
    pub fn modulus(self) -> BigUint {
        let s: &[u8] = match self {
            Prime::Bn254 => b"21888242871839275222246405745257275088548364400416034343698204186575808495617",
            Prime::Bls381 => b"52435875175126190479447740508185965837690552500527637822603658699938581184513",
            Prime::Gl => b"18446744069414584321",
        };
        BigUint::parse_bytes(s, 10).unwrap()
    }
    pub fn bytes(self) -> usize {
        if self == Prime::Gl {
            8
        } else {
            32
        }
    }
    pub fn elem(self, r: &mut Rng) -> BigUint {
        let p = self.modulus();
        match r.below(10) {
            0 => BigUint::zero(),
            1 => BigUint::one(),
            2 => &p - 1u32,
            3 => &p - (1 + r.below(1000)),
            4 => BigUint::from(r.below(1000)),
            5 => (BigUint::one() << r.range(1, self.bytes() * 8 - 2)) % &p,
            6 => {
                // some limbs zero or all ones
                let mut b = r.bytes(self.bytes());
                for ch in b.chunks_mut(4) {
                    match r.below(3) {
                        0 => ch.fill(0),
                        1 => ch.fill(0xff),
                        _ => {}
                    }
                }
                BigUint::from_bytes_le(&b) % &p
            }
            _ => BigUint::from_bytes_le(&r.bytes(self.bytes() + 8)) % &p,
        }
    }
    pub fn nonzero(self, r: &mut Rng) -> BigUint {
        loop {
            let x = self.elem(r);
            if !x.is_zero() {
                return x;
            }
        }
    }
    pub fn le(self, x: &BigUint) -> Vec<u8> {
        let mut b = x.to_bytes_le();
        b.resize(self.bytes(), 0);
        b
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub prime: Prime,
    pub n_wires: u32,
    pub n_pub_out: u32,
    pub n_pub_in: u32,
    pub n_prv_in: u32,
    pub n_labels: u64,
    pub constraints: Vec<[Lc; 3]>,
    pub map: Vec<u64>,
    pub gates: Option<Vec<(String, Vec<BigUint>)>>,
    pub uses: Option<Vec<(u64, Vec<u64>)>>,
}

fn lc(r: &mut Rng, p: Prime, wires: u32, max: usize) -> Lc {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        _ => r.range(1, max),
    };
    let mut ids: Vec<u32> = (0..wires).collect();
    r.shuffle(&mut ids);
    ids.truncate(n);
    // circom writes wires in ascending order, other writers need not
    if r.chance(1, 2) {
        ids.sort();
    }
    ids.into_iter().map(|i| (i, p.elem(r))).collect()
}

/// a circuit with long linear combinations, as sums of hundreds or thousands of signals give
pub fn broad(r: &mut Rng, prime: Prime) -> Spec {
    let mut s = random(r, prime, false);
    let longest = 1usize << r.range(4, 14);
    s.n_wires = s.n_wires.max(1 + longest as u32 + r.below(40) as u32);
    s.n_labels = s.n_wires as u64;
    s.map = (0..s.n_wires as u64).collect();
    s.constraints = (0..r.range(1, 3))
        .map(|_| {
            let at = r.below(3);
            let c: Vec<Lc> = (0..3)
                .map(|k| {
                    let n = if k == at { longest + r.range(0, 9) } else { r.range(0, longest.min(300)) };
                    let mut ids: Vec<u32> = (0..s.n_wires).collect();
                    r.shuffle(&mut ids);
                    ids.truncate(n);
                    if r.chance(2, 3) {
                        ids.sort();
                    }
                    ids.into_iter().map(|i| (i, prime.elem(r))).collect()
                })
                .collect();
            c.try_into().unwrap()
        })
        .collect();
    s
}

/// a circuit with wires past the sixteen-bit numbers, in few constraints
pub fn tall(r: &mut Rng, prime: Prime) -> Spec {
    let mut s = random(r, prime, false);
    s.n_wires = 65_536 + r.range(0, 70_000) as u32;
    s.n_labels = s.n_wires as u64;
    s.map = (0..s.n_wires as u64).collect();
    s.constraints = (0..r.range(1, 5))
        .map(|_| {
            [(); 3].map(|_| {
                let mut v: Lc = vec![];
                for _ in 0..r.range(0, 6) {
                    let i = if r.chance(1, 3) { r.below(20) } else { s.n_wires as u64 - 1 - r.below(66_000).min(s.n_wires as u64 - 1) } as u32;
                    if v.iter().all(|x| x.0 != i) {
                        v.push((i, prime.elem(r)));
                    }
                }
                v
            })
        })
        .collect();
    s
}

pub fn random(r: &mut Rng, prime: Prime, big: bool) -> Spec {
    let many = r.chance(1, 25);
    let mut few = || if many || r.chance(1, 12) { r.below(400) } else { r.below(4) } as u32;
    let n_pub_out = few();
    let n_pub_in = few();
    let n_prv_in = few();
    let inner = if big { r.range(50, 400) } else { r.range(0, 12) } as u32;
    let n_wires = 1 + n_pub_out + n_pub_in + n_prv_in + inner;
    let m = if big { r.range(50, 300) } else { r.range(0, 9) };
    let constraints = (0..m)
        .map(|_| [lc(r, prime, n_wires, 6), lc(r, prime, n_wires, 6), lc(r, prime, n_wires, 9)])
        .collect();
    let n_labels = n_wires as u64 + r.below(5000);
    let mut map: Vec<u64> = (0..n_wires as u64).map(|i| if i == 0 { 0 } else { 1 + r.below(n_labels) }).collect();
    if r.chance(1, 8) && n_wires > 1 {
        map[1] = u64::MAX - r.below(5);
    }
    let custom = r.chance(1, 2);
    let names = ["CMulAdd", "Poseidon12", "FFT4", "EvPol4", "x", "", "a_rather_long_template_name_with_digits_0123456789"];
    let gates = custom.then(|| {
        (0..if r.chance(1, 25) { 300 } else { r.range(0, 5) })
            .map(|_| {
                let k = if r.chance(1, 20) { r.range(30, 400) } else { r.range(0, 6) };
                (r.pick(&names).to_string(), (0..k).map(|_| prime.elem(r)).collect())
            })
            .collect()
    });
    let uses = custom.then(|| {
        (0..if r.chance(1, 25) { 300 } else { r.range(0, 6) })
            .map(|_| {
                let k = if r.chance(1, 20) { r.range(30, 400) } else { r.range(0, 9) };
                let sig = (0..k)
                    .map(|_| match r.below(4) {
                        0 => r.u64() >> r.below(64),
                        1 => 0x1_0000_0000 + r.below(10),
                        _ => r.below(n_wires as u64),
                    })
                    .collect();
                (r.below(8) as u64, sig)
            })
            .collect()
    });
    Spec { prime, n_wires, n_pub_out, n_pub_in, n_prv_in, n_labels, constraints, map, gates, uses }
}

pub fn u32le(o: &mut Vec<u8>, v: u32) {
    o.extend(v.to_le_bytes())
}
pub fn u64le(o: &mut Vec<u8>, v: u64) {
    o.extend(v.to_le_bytes())
}

/// the sections of a file: (type, body)
pub fn sections(s: &Spec) -> Vec<(u32, Vec<u8>)> {
    let p = s.prime;
    let mut h = vec![];
    u32le(&mut h, p.bytes() as u32);
    h.extend(p.le(&p.modulus()));
    for v in [s.n_wires, s.n_pub_out, s.n_pub_in, s.n_prv_in] {
        u32le(&mut h, v);
    }
    u64le(&mut h, s.n_labels);
    u32le(&mut h, s.constraints.len() as u32);
    let mut c = vec![];
    for con in &s.constraints {
        for l in con {
            u32le(&mut c, l.len() as u32);
            for (i, v) in l {
                u32le(&mut c, *i);
                c.extend(p.le(v));
            }
        }
    }
    let mut m = vec![];
    for v in &s.map {
        u64le(&mut m, *v);
    }
    let mut out = vec![(1, h), (2, c), (3, m)];
    if let Some(g) = &s.gates {
        let mut b = vec![];
        u32le(&mut b, g.len() as u32);
        for (name, params) in g {
            b.extend(name.as_bytes());
            b.push(0);
            u32le(&mut b, params.len() as u32);
            for v in params {
                b.extend(p.le(v));
            }
        }
        out.push((4, b));
    }
    if let Some(u) = &s.uses {
        let mut b = vec![];
        u32le(&mut b, u.len() as u32);
        for (id, sig) in u {
            u32le(&mut b, *id as u32);
            u32le(&mut b, sig.len() as u32);
            for v in sig {
                u64le(&mut b, *v);
            }
        }
        out.push((5, b));
    }
    out
}
pub fn file(sections: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut o = b"r1cs".to_vec();
    u32le(&mut o, 1);
    u32le(&mut o, sections.len() as u32);
    for (t, b) in sections {
        u32le(&mut o, *t);
        u64le(&mut o, b.len() as u64);
        o.extend(b);
    }
    o
}

/// what a reader made of a file, as integers
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Decoded {
    pub header: [u64; 6],
    pub use_custom_gates: bool,
    pub constraints: Vec<[Vec<(usize, BigUint)>; 3]>,
    pub map: Vec<u64>,
    pub gates: Vec<(String, Vec<BigUint>)>,
    pub uses: Vec<(u64, Vec<u64>)>,
}
pub fn sorted(l: &Lc) -> Vec<(usize, BigUint)> {
    let mut v: Vec<_> = l.iter().map(|(i, c)| (*i as usize, c.clone())).collect();
    v.sort_by_key(|x| x.0);
    v
}
pub fn expected(s: &Spec) -> Decoded {
    Decoded {
        header: [
            s.n_wires as u64,
            s.n_pub_out as u64,
            s.n_pub_in as u64,
            s.n_prv_in as u64,
            s.n_labels,
            s.constraints.len() as u64,
        ],
        use_custom_gates: s.gates.is_some() && s.uses.is_some(),
        constraints: s.constraints.iter().map(|c| [sorted(&c[0]), sorted(&c[1]), sorted(&c[2])]).collect(),
        map: s.map.clone(),
        gates: s.gates.clone().unwrap_or_default(),
        uses: s.uses.clone().unwrap_or_default(),
    }
}

/// the R1CS held in memory, as the readers return it
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Loaded {
    pub num_inputs: usize,
    pub num_aux: usize,
    pub num_variables: usize,
    pub num_outputs: usize,
    pub constraints: Vec<[Vec<(usize, BigUint)>; 3]>,
    pub gates: Vec<(String, Vec<BigUint>)>,
    pub uses: Vec<(u64, Vec<u64>)>,
    pub map: Vec<usize>,
}
pub fn expected_loaded(s: &Spec) -> Loaded {
    let d = expected(s);
    let ni = (1 + s.n_pub_in + s.n_pub_out) as usize;
    Loaded {
        num_inputs: ni,
        num_aux: s.n_wires as usize - ni,
        num_variables: s.n_wires as usize,
        num_outputs: s.n_pub_out as usize,
        constraints: d.constraints,
        gates: d.gates,
        uses: d.uses,
        map: s.map.iter().map(|x| *x as usize).collect(),
    }
}

pub fn eval(l: &[(usize, BigUint)], w: &[BigUint], p: &BigUint) -> BigUint {
    l.iter().fold(BigUint::zero(), |s, (i, c)| (s + c * &w[*i]) % p)
}
pub fn holds(c: &[Vec<(usize, BigUint)>; 3], w: &[BigUint], p: &BigUint) -> bool {
    (eval(&c[0], w, p) * eval(&c[1], w, p)) % p == eval(&c[2], w, p)
}
pub fn inv(x: &BigUint, p: &BigUint) -> BigUint {
    x.modpow(&(p - 2u32), p)
}

/// what the constraint system received
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Synth {
    /// values of the inputs (without the constant) and of the auxiliary variables allocated by the circuit
    pub inputs: Vec<BigUint>,
    pub aux: Vec<BigUint>,
    /// terms: (is_input, index, coefficient)
    pub constraints: Vec<[Vec<(bool, usize, BigUint)>; 3]>,
    pub public: Vec<BigUint>,
    pub public_json: Vec<String>,
}
