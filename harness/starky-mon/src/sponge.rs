//! Reference Fiat-Shamir transcripts, as the protocol defines them: a sponge whose every output element may
//! be read once, whose unread output is dropped by absorbing, and whose partial blocks are padded with zeros.
use crate::refhash::*;
use common::P;
use num_bigint::BigUint;
use num_traits::Zero;

#[derive(Clone, Debug, PartialEq)]
pub enum Absorb {
    /// one base-field element
    One(u64),
    /// one digest; in the curve transcripts the scalar its limbs are the Montgomery form of
    Four([u64; 4]),
    /// several elements in one array (Goldilocks transcript only)
    Many(Vec<u64>),
}

pub trait RefTranscript {
    fn absorb(&mut self, a: &Absorb);
    fn field1(&mut self) -> u64;
    fn positions(&mut self, n: usize, nbits: usize) -> Vec<usize>;
    fn permutations(&self) -> u64;
    fn phase(&self) -> (usize, usize, usize);
}

fn positions(words: Vec<BigUint>, per_word: usize, n: usize, nbits: usize) -> Vec<usize> {
    let bits: Vec<bool> = words.iter().flat_map(|w| (0..per_word).map(move |i| w.bit(i as u64))).collect();
    (0..n).map(|i| (0..nbits).filter(|j| bits[i * nbits + j]).map(|j| 1usize << j).sum()).collect()
}

#[derive(Default)]
pub struct GlT {
    cap: [u64; 4],
    block: Vec<u64>,
    unread: Vec<u64>,
    perms: u64,
}
impl GlT {
    fn squeeze(&mut self) {
        self.block.resize(8, 0);
        let o = gl_hash(&self.block, &self.cap);
        self.block.clear();
        self.cap.copy_from_slice(&o[..4]);
        self.unread = o.iter().rev().copied().collect();
        self.perms += 1;
    }
}
impl RefTranscript for GlT {
    fn absorb(&mut self, a: &Absorb) {
        let v: Vec<u64> = match a {
            Absorb::One(x) => vec![*x],
            Absorb::Four(x) => x.to_vec(),
            Absorb::Many(x) => x.clone(),
        };
        for x in v {
            self.unread.clear();
            self.block.push(x);
            if self.block.len() == 8 {
                self.squeeze();
            }
        }
    }
    fn field1(&mut self) -> u64 {
        if self.unread.is_empty() {
            self.squeeze();
        }
        self.unread.pop().unwrap()
    }
    fn positions(&mut self, n: usize, nbits: usize) -> Vec<usize> {
        let k = (n * nbits + 62) / 63;
        let w = (0..k).map(|_| BigUint::from(self.field1())).collect();
        positions(w, 63, n, nbits)
    }
    fn permutations(&self) -> u64 {
        self.perms
    }
    fn phase(&self) -> (usize, usize, usize) {
        (self.block.len(), self.unread.len(), 0)
    }
}

pub struct CurveT {
    h: &'static RefPoseidon,
    cap: BigUint,
    block: Vec<BigUint>,
    unread: Vec<BigUint>,
    limbs: Vec<u64>,
    perms: u64,
}
impl CurveT {
    pub fn new(h: &'static RefPoseidon) -> Self {
        CurveT { h, cap: BigUint::zero(), block: vec![], unread: vec![], limbs: vec![], perms: 0 }
    }
    fn squeeze(&mut self) {
        self.block.resize(16, BigUint::zero());
        let mut o = self.h.permute(&self.block, &self.cap);
        self.block.clear();
        self.limbs.clear();
        self.cap = o[0].clone();
        o.reverse();
        self.unread = o;
        self.perms += 1;
    }
    fn word(&mut self) -> BigUint {
        if self.unread.is_empty() {
            self.squeeze();
        }
        self.unread.pop().unwrap()
    }
}
impl RefTranscript for CurveT {
    fn absorb(&mut self, a: &Absorb) {
        let x = match a {
            Absorb::One(x) => BigUint::from(*x),
            Absorb::Four(l) => to_big(&self.h.f.from_mont(l)),
            Absorb::Many(_) => unreachable!(),
        };
        self.unread.clear();
        self.limbs.clear();
        self.block.push(x);
        if self.block.len() == 16 {
            self.squeeze();
        }
    }
    fn field1(&mut self) -> u64 {
        if self.limbs.is_empty() {
            let w = self.word();
            self.limbs = from_big(&w)[..3].iter().rev().map(|l| l % P).collect();
        }
        self.limbs.pop().unwrap()
    }
    fn positions(&mut self, n: usize, nbits: usize) -> Vec<usize> {
        let k = (n * nbits + 252) / 253;
        let w = (0..k).map(|_| self.word()).collect();
        positions(w, 253, n, nbits)
    }
    fn permutations(&self) -> u64 {
        self.perms
    }
    fn phase(&self) -> (usize, usize, usize) {
        (self.block.len(), self.unread.len(), self.limbs.len())
    }
}
