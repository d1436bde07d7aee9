//! Reference hashes, written from the specifications: textbook Goldilocks Poseidon, and Poseidon over
//! 256-bit prime fields with parameters regenerated by the Grain LFSR.
use crate::gl_rc::GL_RC;
use common::gl;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::collections::HashMap;
use std::sync::Mutex;

/// the plain MDS matrix: circulant plus 8 on the first diagonal entry
const CIRC: [u64; 12] = [17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20];

pub fn gl_permute(s: &mut [u64; 12]) {
    for r in 0..30 {
        gl_permute_round(s, r);
    }
}
pub fn gl_permute_round(s: &mut [u64; 12], r: usize) {
    for i in 0..12 {
        s[i] = gl::add(s[i], GL_RC[r * 12 + i]);
    }
    let n = if (4..26).contains(&r) { 1 } else { 12 };
    for x in s.iter_mut().take(n) {
        *x = gl::pow(*x, 7);
    }
    let mut o = [0u64; 12];
    for (i, oi) in o.iter_mut().enumerate() {
        let mut acc: u128 = 0;
        for j in 0..12 {
            acc += s[(i + j) % 12] as u128 * CIRC[j] as u128;
        }
        if i == 0 {
            acc += s[0] as u128 * 8;
        }
        *oi = (acc % common::P as u128) as u64;
    }
    *s = o;
}
/// the inverse of the first `rounds` rounds up to the S-boxes of the next one: the input that reaches `s` there
pub fn gl_unpermute(s: &mut [u64; 12], rounds: usize) {
    // inverse of the MDS matrix by Gaussian elimination, once
    static INV: std::sync::OnceLock<[[u64; 12]; 12]> = std::sync::OnceLock::new();
    let inv = INV.get_or_init(|| {
        let mut a = [[0u64; 24]; 12];
        for i in 0..12 {
            for j in 0..12 {
                a[i][(i + j) % 12] = CIRC[j];
            }
            a[i][12 + i] = 1;
        }
        a[0][0] += 8;
        for c in 0..12 {
            let p = (c..12).find(|r| a[*r][c] != 0).unwrap();
            a.swap(c, p);
            let k = gl::inv(a[c][c]);
            for x in a[c].iter_mut() {
                *x = gl::mul(*x, k);
            }
            for r in 0..12 {
                if r != c && a[r][c] != 0 {
                    let k = a[r][c];
                    for x in 0..24 {
                        a[r][x] = gl::sub(a[r][x], gl::mul(k, a[c][x]));
                    }
                }
            }
        }
        let mut o = [[0; 12]; 12];
        for i in 0..12 {
            o[i].copy_from_slice(&a[i][12..]);
        }
        o
    });
    // 7^-1 mod p-1
    const INV7: u64 = 10540996611094048183;
    for i in 0..12 {
        s[i] = gl::sub(s[i], GL_RC[rounds * 12 + i]);
    }
    for r in (0..rounds).rev() {
        let mut o = [0u64; 12];
        for i in 0..12 {
            o[i] = (0..12).fold(0, |a, j| gl::add(a, gl::mul(inv[i][j], s[j])));
        }
        let n = if (4..26).contains(&r) { 1 } else { 12 };
        for x in o.iter_mut().take(n) {
            *x = gl::pow(*x, INV7);
        }
        for i in 0..12 {
            s[i] = gl::sub(o[i], GL_RC[r * 12 + i]);
        }
    }
}
/// 8 rate elements first, then 4 capacity elements
pub fn gl_hash(inp: &[u64], cap: &[u64; 4]) -> [u64; 12] {
    let mut s = [0u64; 12];
    s[..8].copy_from_slice(inp);
    s[8..].copy_from_slice(cap);
    gl_permute(&mut s);
    s
}
/// sponge over the rows of a matrix; at most four elements are their own digest
pub fn gl_sponge(v: &[u64]) -> [u64; 4] {
    let mut st = [0u64; 4];
    if v.len() <= 4 {
        st[..v.len()].copy_from_slice(v);
        return st;
    }
    for c in v.chunks(8) {
        let mut b = [0u64; 8];
        b[..c.len()].copy_from_slice(c);
        let h = gl_hash(&b, &st);
        st.copy_from_slice(&h[..4]);
    }
    st
}
pub fn gl_linear(v: &[u64], batch: usize) -> [u64; 4] {
    if v.len() <= 4 {
        return gl_sponge(v);
    }
    let bs = if batch == 0 { std::cmp::max(8, (v.len() + 3) / 4) } else { batch };
    let hs: Vec<u64> = v.chunks(bs).flat_map(gl_sponge).collect();
    gl_sponge(&hs)
}
/// binary tree over row digests; a missing sibling is the zero digest
pub fn gl_root(rows: &[Vec<u64>]) -> [u64; 4] {
    let mut l: Vec<[u64; 4]> = rows.iter().map(|r| gl_linear(r, 0)).collect();
    while l.len() > 1 {
        l = l
            .chunks(2)
            .map(|p| {
                let mut b = [0u64; 8];
                b[..4].copy_from_slice(&p[0]);
                if p.len() == 2 {
                    b[4..].copy_from_slice(&p[1]);
                }
                gl_sponge(&b)
            })
            .collect();
    }
    l[0]
}

// ------------------------------------------------------------------ 256-bit fields
/// Montgomery arithmetic modulo an odd 256-bit modulus (below 2^255), independent of the crates in use.
#[derive(Clone)]
pub struct Mod256 {
    pub p: [u64; 4],
    inv: u64,
    r2: [u64; 4],
}
pub type U256 = [u64; 4];
pub fn to_big(x: &U256) -> BigUint {
    BigUint::from_bytes_le(&x.iter().flat_map(|l| l.to_le_bytes()).collect::<Vec<_>>())
}
pub fn from_big(x: &BigUint) -> U256 {
    let mut b = x.to_bytes_le();
    assert!(b.len() <= 32);
    b.resize(32, 0);
    let mut o = [0u64; 4];
    for i in 0..4 {
        o[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    o
}
fn geq(a: &U256, b: &U256) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub(a: &U256, b: &U256) -> U256 {
    let mut o = [0u64; 4];
    let mut bw = 0i128;
    for i in 0..4 {
        let d = a[i] as i128 - b[i] as i128 + bw;
        o[i] = d as u64;
        bw = d >> 64;
    }
    o
}
impl Mod256 {
    pub fn new(p: &BigUint) -> Self {
        let pl = from_big(p);
        let mut inv = 1u64;
        for _ in 0..63 {
            inv = inv.wrapping_mul(inv).wrapping_mul(pl[0]);
        }
        let r2 = from_big(&((BigUint::one() << 512usize) % p));
        Mod256 { p: pl, inv: inv.wrapping_neg(), r2 }
    }
    pub fn add(&self, a: &U256, b: &U256) -> U256 {
        let mut o = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let t = a[i] as u128 + b[i] as u128 + c;
            o[i] = t as u64;
            c = t >> 64;
        }
        if c > 0 || geq(&o, &self.p) {
            o = sub(&o, &self.p);
        }
        o
    }
    /// a*b/2^256 mod p
    pub fn mmul(&self, a: &U256, b: &U256) -> U256 {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let v = t[j] as u128 + a[i] as u128 * b[j] as u128 + c;
                t[j] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[4] = v as u64;
            t[5] = (v >> 64) as u64;
            let m = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u128 + m as u128 * self.p[0] as u128) >> 64;
            for j in 1..4 {
                let v = t[j] as u128 + m as u128 * self.p[j] as u128 + c;
                t[j - 1] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[3] = v as u64;
            t[4] = t[5] + (v >> 64) as u64;
        }
        let mut o = [t[0], t[1], t[2], t[3]];
        if t[4] > 0 || geq(&o, &self.p) {
            o = sub(&o, &self.p);
        }
        o
    }
    pub fn to_mont(&self, a: &U256) -> U256 {
        self.mmul(a, &self.r2)
    }
    pub fn from_mont(&self, a: &U256) -> U256 {
        self.mmul(a, &[1, 0, 0, 0])
    }
}

struct Grain {
    s: [bool; 80],
    n: usize,
}
impl Grain {
    fn new(sbox: u64, n: usize, t: usize, rf: usize, rp: usize) -> Self {
        let mut bits = vec![];
        let mut push = |v: u64, w: usize| (0..w).rev().for_each(|i| bits.push((v >> i) & 1 == 1));
        push(1, 2);
        push(sbox, 4);
        push(n as u64, 12);
        push(t as u64, 12);
        push(rf as u64, 10);
        push(rp as u64, 10);
        push((1 << 30) - 1, 30);
        let mut g = Grain { s: bits.try_into().unwrap(), n };
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let b = self.s[62] ^ self.s[51] ^ self.s[38] ^ self.s[23] ^ self.s[13] ^ self.s[0];
        self.s.rotate_left(1);
        self.s[79] = b;
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let a = self.step();
            let b = self.step();
            if a {
                return b;
            }
        }
    }
    fn int(&mut self) -> BigUint {
        let mut v = BigUint::zero();
        for _ in 0..self.n {
            v <<= 1usize;
            if self.bit() {
                v += BigUint::one();
            }
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Curve {
    Bn254,
    Bls12381,
}
pub struct Params {
    t: usize,
    rf: usize,
    rp: usize,
    c: Vec<U256>,
    m: Vec<Vec<U256>>,
}
pub struct RefPoseidon {
    pub curve: Curve,
    pub p: BigUint,
    pub f: Mod256,
    cache: Mutex<HashMap<usize, &'static Params>>,
}
const RP_BN: [usize; 16] = [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68];
const RP_BLS: [usize; 16] = [55, 55, 56, 56, 56, 56, 57, 57, 57, 57, 57, 57, 57, 57, 59, 59];
impl RefPoseidon {
    pub fn new(curve: Curve) -> Self {
        let p: BigUint = match curve {
            Curve::Bn254 => "21888242871839275222246405745257275088548364400416034343698204186575808495617",
            Curve::Bls12381 => "52435875175126190479447740508185965837690552500527637822603658699938581184513",
        }
        .parse()
        .unwrap();
        RefPoseidon { curve, f: Mod256::new(&p), p, cache: Default::default() }
    }
    fn params(&self, t: usize) -> &'static Params {
        let mut c = self.cache.lock().unwrap();
        c.entry(t).or_insert_with(|| Box::leak(Box::new(self.gen(t))))
    }
    /// BN254: the reference script's constants and Cauchy matrix drawn from the same stream.
    /// BLS12-381: Neptune's parameters (same stream for the constants, Cauchy matrix 1/(i + t + j)).
    fn gen(&self, t: usize) -> Params {
        let (rf, rp, n, sbox) = match self.curve {
            Curve::Bn254 => (8, RP_BN[t - 2], 254, 0),
            Curve::Bls12381 => (8, RP_BLS[t - 2], 255, 1),
        };
        let mut g = Grain::new(sbox, n, t, rf, rp);
        let mut c = vec![];
        while c.len() < (rf + rp) * t {
            let v = g.int();
            if v < self.p {
                c.push(self.f.to_mont(&from_big(&v)));
            }
        }
        let xy: Vec<BigUint> = match self.curve {
            Curve::Bn254 => loop {
                let v: Vec<BigUint> = (0..2 * t).map(|_| g.int() % &self.p).collect();
                let mut s = v.clone();
                s.sort();
                s.dedup();
                if s.len() == 2 * t {
                    break v;
                }
            },
            Curve::Bls12381 => (0..2 * t).map(|i| BigUint::from(i as u64)).collect(),
        };
        let e = &self.p - 2u32;
        let m = (0..t)
            .map(|i| (0..t).map(|j| self.f.to_mont(&from_big(&((&xy[i] + &xy[t + j]) % &self.p).modpow(&e, &self.p)))).collect())
            .collect();
        Params { t, rf, rp, c, m }
    }
    /// the whole permuted state; `init` goes first, then the inputs (canonical integers)
    pub fn permute(&self, inp: &[BigUint], init: &BigUint) -> Vec<BigUint> {
        let pr = self.params(inp.len() + 1);
        let f = &self.f;
        let mut s: Vec<U256> = std::iter::once(init).chain(inp).map(|x| f.to_mont(&from_big(x))).collect();
        for r in 0..pr.rf + pr.rp {
            for i in 0..pr.t {
                s[i] = f.add(&s[i], &pr.c[r * pr.t + i]);
            }
            let full = r < pr.rf / 2 || r >= pr.rf / 2 + pr.rp;
            for x in s.iter_mut().take(if full { pr.t } else { 1 }) {
                let x2 = f.mmul(x, x);
                let x4 = f.mmul(&x2, &x2);
                *x = f.mmul(&x4, x);
            }
            s = (0..pr.t)
                .map(|i| (0..pr.t).fold([0; 4], |a, j| f.add(&a, &f.mmul(&pr.m[i][j], &s[j]))))
                .collect();
        }
        s.iter().map(|x| to_big(&f.from_mont(x))).collect()
    }
    /// the element the back end uses as digest
    pub fn hash(&self, inp: &[BigUint], init: &BigUint) -> BigUint {
        let s = self.permute(inp, init);
        match self.curve {
            Curve::Bn254 => s[0].clone(),
            Curve::Bls12381 => s[1].clone(),
        }
    }
    /// rows of Goldilocks elements: three 64-bit limbs to a field element, then chained blocks of 16
    pub fn linear(&self, row: &[u64]) -> BigUint {
        let packed: Vec<BigUint> = row
            .chunks(3)
            .map(|c| c.iter().rev().fold(BigUint::zero(), |a, x| (a << 64usize) + BigUint::from(*x)))
            .collect();
        match packed.len() {
            0 => BigUint::zero(),
            1 => packed[0].clone(),
            _ => packed.chunks(16).fold(BigUint::zero(), |st, c| self.hash(c, &st)),
        }
    }
    /// 16-ary tree over row digests; missing siblings are zero
    pub fn root(&self, rows: &[Vec<u64>]) -> BigUint {
        let mut l: Vec<BigUint> = rows.iter().map(|r| self.linear(r)).collect();
        while l.len() > 1 {
            l = l
                .chunks(16)
                .map(|c| {
                    let mut v = c.to_vec();
                    v.resize(16, BigUint::zero());
                    self.hash(&v, &BigUint::zero())
                })
                .collect();
        }
        l[0].clone()
    }
}
