//! Setting up, proving and verifying whole STARKs, and small ways of altering proofs.
use crate::backend::*;
use crate::pilgen::{brief, Prog, Shape, KINDS};
use crate::*;
use common::{gl, gl_val, guard, Rng};
use starky::f3g::F3G;
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::stark_verify::stark_verify;
use starky::starkinfo::StarkInfo;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree, Transcript};
use starky::types::PIL;

pub type Proof<B> = StarkProof<<B as Backend>::M>;
pub type Setup<B> = StarkSetup<<B as Backend>::M>;

pub fn pols(pil: &PIL, kind: PolKind, cols: &[Vec<u64>]) -> PolsArray {
    let mut a = PolsArray::new(pil, kind);
    for (c, v) in cols.iter().enumerate() {
        a.array[c] = fes(v);
    }
    a
}
pub fn flat<T>(r: Result<anyhow::Result<T>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}
pub fn setup<B: Backend>(p: &Prog) -> Result<Setup<B>, String> {
    flat(guard(|| {
        let mut pil = p.pil.clone();
        let c = pols(&pil, PolKind::Constant, &p.consts);
        Setup::<B>::new(&c, &mut pil, &p.ss, None)
    }))
}
pub fn prove_with<B: Backend>(p: &Prog, s: &Setup<B>, info: &StarkInfo, cms: &[Vec<u64>], addr: &str) -> Result<Proof<B>, String> {
    flat(guard(|| {
        Proof::<B>::stark_gen::<B::T>(
            pols(&p.pil, PolKind::Commit, cms),
            pols(&p.pil, PolKind::Constant, &p.consts),
            &s.const_tree,
            info,
            &s.program,
            &p.pil,
            &p.ss,
            addr,
        )
    }))
}
pub fn prove<B: Backend>(p: &Prog, s: &Setup<B>, cms: &[Vec<u64>]) -> Result<Proof<B>, String> {
    prove_with::<B>(p, s, &s.starkinfo, cms, ADDR)
}
pub const ADDR: &str = "273030697313060285579891744179749754319274977764";

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Verdict {
    Accept,
    Reject,
    Refused(String),
}
pub fn verify_root<B: Backend>(p: &Prog, s: &Setup<B>, proof: &Proof<B>, root: &<B::M as MerkleTree>::MTNode) -> Verdict {
    match flat(guard(|| stark_verify::<B::M, B::T>(proof, root, &s.starkinfo, &p.ss, &s.program))) {
        Ok(true) => Verdict::Accept,
        Ok(false) => Verdict::Reject,
        Err(e) => Verdict::Refused(e),
    }
}
pub fn verify<B: Backend>(p: &Prog, s: &Setup<B>, proof: &Proof<B>) -> Verdict {
    verify_root::<B>(p, s, proof, &s.const_root)
}
thread_local! {
    static DRAWS: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}
/// a transcript that records every field element drawn from it, and at the end what its next draw would be
pub struct Spy<T>(T);
impl<T: Transcript> Transcript for Spy<T> {
    fn new() -> Self {
        DRAWS.with(|d| d.borrow_mut().clear());
        Spy(T::new())
    }
    fn get_field<F: FieldExtension>(&mut self) -> F {
        let x: F = self.0.get_field();
        DRAWS.with(|d| d.borrow_mut().extend(vals(&x.as_elements())));
        x
    }
    fn get_fields1(&mut self) -> anyhow::Result<fields::field_gl::Fr> {
        let x = self.0.get_fields1()?;
        DRAWS.with(|d| d.borrow_mut().push(val(&x)));
        Ok(x)
    }
    fn put(&mut self, es: &[Vec<fields::field_gl::Fr>]) -> anyhow::Result<()> {
        self.0.put(es)
    }
    fn get_permutations(&mut self, n: usize, nbits: usize) -> anyhow::Result<Vec<usize>> {
        let x = self.0.get_permutations(n, nbits)?;
        // the positions may agree by chance; an element drawn from the same state does not
        let y = self.get_fields1()?;
        let _ = y;
        DRAWS.with(|d| d.borrow_mut().extend(x.iter().map(|i| *i as u64)));
        Ok(x)
    }
}
/// the field elements the verifier draws while it looks at this proof
pub fn draws<B: Backend>(p: &Prog, s: &Setup<B>, proof: &Proof<B>) -> Vec<u64> {
    DRAWS.with(|d| d.borrow_mut().clear());
    let _ = guard(|| stark_verify::<B::M, Spy<B::T>>(proof, &s.const_root, &s.starkinfo, &p.ss, &s.program));
    DRAWS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}
/// about one curve digest in 2^30 cannot be held by a node: a recorded finding of D01
pub fn unlucky<B: Backend>(e: &str) -> bool {
    B::ARITY == 16 && e.contains("NotInField")
}

pub fn shape<B: Backend>(rng: &mut Rng) -> Shape {
    let slow = B::ARITY == 16;
    let nbits = match rng.below(10) {
        0 => 1,
        1 => 2,
        2 | 3 => 3,
        4 | 5 => 4,
        6 => if slow { 3 } else { 6 },
        7 => if slow { 4 } else { 7 },
        _ => rng.range(2, 5),
    };
    let ext = match rng.below(8) {
        0..=3 => 1,
        4..=6 => 2,
        _ => if slow { 2 } else { 3 },
    };
    let mut only = vec![];
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            only.push(*rng.pick(&KINDS[..KINDS.len() - 2]));
        }
    }
    Shape {
        nbits,
        ext,
        parts: rng.range(1, 7),
        hash: B::NAME,
        only,
        min_last: if rng.chance(3, 4) { ext } else { rng.range(0, 2).min(nbits + ext) },
        queries: match rng.below(8) {
            0 => 1,
            1 => rng.range(9, 40),
            _ => rng.range(2, 8),
        },
    }
}
/// soundness is judged with enough queries that a cheat of the tested kinds slips through with negligible probability
pub fn sound_shape<B: Backend>(rng: &mut Rng) -> Shape {
    let mut s = shape::<B>(rng);
    s.queries = rng.range(24, 40);
    s.min_last = s.ext.max(s.min_last).min(s.nbits + s.ext);
    s
}
pub fn text(p: &Prog) -> String {
    format!("{} pil={} consts={:?} cms={:?}", brief(p), serde_json::to_string(&p.pil).unwrap(), p.consts, p.cms)
}
pub fn elems(x: &F3G) -> Vec<u64> {
    vals(&x.as_elements())
}

pub fn bump(rng: &mut Rng, x: u64) -> u64 {
    loop {
        let y = match rng.below(5) {
            0 => gl::add(x, 1),
            1 => gl::neg(x),
            2 => 0,
            3 => x ^ (1 << rng.below(63)),
            _ => gl_val(rng),
        };
        if y < common::P && y != x {
            return y;
        }
    }
}
pub fn other_node<B: Backend>(rng: &mut Rng, n: &<B::M as MerkleTree>::MTNode) -> <B::M as MerkleTree>::MTNode {
    loop {
        let mut l: [u64; 4] = vals(n.as_elements()).try_into().unwrap();
        let k = rng.range(0, 3);
        l[k] = bump(rng, l[k]);
        let m = guard(|| <B::M as MerkleTree>::MTNode::new(&l.map(fe)));
        // for the curves the limbs must still be below the scalar field's modulus
        if let Ok(m) = m {
            if guard(|| B::node(&m)).is_ok() && B::make(&B::node(&m)).is_some_and(|c| vals(c.as_elements()) == vals(m.as_elements())) {
                return m;
            }
        }
    }
}
pub fn bump_f(rng: &mut Rng, x: &F3G) -> F3G {
    let e = elems(x);
    let mut c = e.clone();
    let k = rng.range(0, c.len() - 1);
    c[k] = bump(rng, c[k]);
    if c.len() == 1 {
        F3G::from(fe(c[0]))
    } else {
        F3G::from_vec(fes(&c))
    }
}

/// a trace altered in one to four places, and how
pub fn corrupt(rng: &mut Rng, p: &Prog) -> (Vec<Vec<u64>>, String) {
    let mut cms = p.cms.clone();
    let n = cms[0].len();
    let tied: Vec<usize> = p.tied.iter().copied().collect();
    let mut what = vec![];
    for _ in 0..if rng.chance(2, 3) { 1 } else { rng.range(1, 4) } {
        let c = if !tied.is_empty() && rng.chance(9, 10) { *rng.pick(&tied) } else { rng.range(0, cms.len() - 1) };
        let i = match rng.below(4) {
            0 => 0,
            1 => n - 1,
            _ => rng.range(0, n - 1),
        };
        if !p.tuples.is_empty() && rng.chance(1, 5) {
            // a tuple whose parts change against each other: the sums, or the values in the row, stay
            let t = rng.pick(&p.tuples).clone();
            let a = rng.range(0, t.len() - 2);
            let (a, b) = (t[a], t[a + 1]);
            if rng.chance(1, 2) {
                let d = 1 + rng.below(1 << 20);
                cms[a][i] = gl::add(cms[a][i], d);
                cms[b][i] = gl::sub(cms[b][i], d);
                what.push(format!("row {i}: {d} moved from column {b} to {a}"));
            } else {
                let x = cms[a][i];
                cms[a][i] = cms[b][i];
                cms[b][i] = x;
                what.push(format!("row {i}: columns {a} and {b} exchanged"));
            }
            continue;
        }
        match rng.below(8) {
            0 if cms[c].iter().all(|v| *v < 2) => {
                cms[c][i] = 1 - cms[c][i];
                what.push(format!("column {c} row {i} flipped"));
            }
            0..=2 => {
                cms[c][i] = gl::add(cms[c][i], 1 + rng.below(3));
                what.push(format!("column {c} row {i} increased"));
            }
            3 => {
                cms[c][i] = gl_val(rng);
                what.push(format!("column {c} row {i} replaced"));
            }
            4 => {
                cms[c][i] = 0;
                what.push(format!("column {c} row {i} cleared"));
            }
            5 => {
                let j = rng.range(0, n - 1);
                cms[c].swap(i, j);
                what.push(format!("column {c} rows {i} and {j} swapped"));
            }
            6 => {
                let d = rng.range(0, cms.len() - 1);
                cms[c][i] = cms[d][i];
                what.push(format!("column {c} row {i} copied from column {d}"));
            }
            _ => {
                cms[c].rotate_left(1);
                what.push(format!("column {c} rotated"));
            }
        }
    }
    (cms, what.join(", "))
}
