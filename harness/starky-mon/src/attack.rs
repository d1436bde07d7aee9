//! A prover that does not follow the protocol, working through the guarded hooks of the repository.
use crate::backend::*;
use crate::ext::cubic;
use crate::pilgen::Prog;
use crate::starks::*;
use crate::*;
use common::{gl, guard};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use starky::polsarray::PolKind;
use starky::stark_gen::{verif, StarkProof};
use starky::starkinfo::StarkInfo;
use starky::traits::{MTNodeType, MerkleTree};
use std::cell::RefCell;
use std::collections::HashMap;

pub type E = cubic::E;
pub fn to_e(x: &[u64]) -> E {
    let mut e = [0; 3];
    e[..x.len()].copy_from_slice(x);
    e
}
pub fn e_pow(b: &E, mut k: u64) -> E {
    let (mut r, mut b) = (cubic::base(1), *b);
    while k > 0 {
        if k & 1 == 1 {
            r = cubic::mul(&r, &b);
        }
        b = cubic::mul(&b, &b);
        k >>= 1;
    }
    r
}
pub fn e_inv(a: &E) -> E {
    // a^(p^3-2) = a^((p-1)(p^2+p+1) - 1 + ...): use the norm instead: a^(p+p^2) is the norm over a
    let ap = e_pow(a, common::P);
    let app = e_pow(&ap, common::P);
    let b = cubic::mul(&ap, &app);
    let n = cubic::mul(a, &b);
    assert!(n[1] == 0 && n[2] == 0 && n[0] != 0);
    cubic::scale(&b, gl::inv(n[0]))
}
/// What the verifier will compute from the claimed evaluations (the adversary reads the verifier's own program).
pub fn constraint_at<B: Backend>(p: &Prog, s: &Setup<B>, evals: &[E], publics: &[E], ch: &[E]) -> E {
    let mut tmp: HashMap<usize, E> = HashMap::new();
    let x_n = e_pow(&ch[7], 1 << p.ss.nBits);
    let z = cubic::sub(&x_n, &cubic::base(1));
    let mut last = [0; 3];
    for c in &s.program.verifier_code.first {
        let v: Vec<E> = c
            .src
            .iter()
            .map(|n| match n.type_.as_str() {
                "tmp" => tmp[&n.id],
                "eval" => evals[n.id],
                "number" => cubic::base(pilref::number(n.value.as_ref().unwrap())),
                "public" => publics[n.id],
                "challenge" => ch[n.id],
                "x" => ch[7],
                "Z" => z,
                t => panic!("verifier operand {t}"),
            })
            .collect();
        last = match c.op.as_str() {
            "add" => cubic::add(&v[0], &v[1]),
            "sub" => cubic::sub(&v[0], &v[1]),
            "mul" => cubic::mul(&v[0], &v[1]),
            "muladd" => cubic::add(&cubic::mul(&v[0], &v[1]), &v[2]),
            "copy" => v[0],
            o => panic!("verifier operation {o}"),
        };
        tmp.insert(c.dest.id, last);
    }
    last
}
pub fn q_index<B: Backend>(s: &Setup<B>) -> Vec<usize> {
    s.starkinfo.qs.iter().map(|q| *s.starkinfo.ev_idx.get("cm", 0, *q).unwrap()).collect()
}
/// changes the first quotient evaluation so that the claimed evaluations satisfy the constraint equation
pub fn balance<B: Backend>(p: &Prog, s: &Setup<B>, evals: &mut [E], publics: &[E], ch: &[E]) -> bool {
    let qi = q_index::<B>(s);
    if qi.is_empty() {
        return false;
    }
    let x_n = e_pow(&ch[7], 1 << p.ss.nBits);
    let z = cubic::sub(&x_n, &cubic::base(1));
    let want = cubic::mul(&constraint_at::<B>(p, s, evals, publics, ch), &e_inv(&z));
    let mut q = [0; 3];
    let mut acc = cubic::base(1);
    for i in &qi {
        q = cubic::add(&q, &cubic::mul(&acc, &evals[*i]));
        acc = cubic::mul(&acc, &x_n);
    }
    let d = cubic::sub(&want, &q);
    evals[qi[0]] = cubic::add(&evals[qi[0]], &d);
    true
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cheat {
    None,
    /// looked-up values outside the table are slipped into h1, h2
    H,
    /// the table is kept and the missing value replaced
    Hswap,
    /// grand products: run on without the closing check, all zero, all one, or closed by hand
    Zrun,
    Zzero,
    Zone,
    Zclose,
}
pub const CHEATS: [Cheat; 7] = [Cheat::None, Cheat::H, Cheat::Hswap, Cheat::Zrun, Cheat::Zzero, Cheat::Zone, Cheat::Zclose];

pub fn set_cheat(c: Cheat) {
    let lookups = c != Cheat::None;
    verif::H1H2.with(|h| {
        *h.borrow_mut() = lookups.then(|| {
            Box::new(move |f: &[Vec<_>], t: &[Vec<_>]| {
                let pos: HashMap<Vec<u64>, usize> = t.iter().enumerate().map(|(i, x)| (pad(x), i)).collect();
                let mut s: Vec<(usize, usize, usize)> = (0..t.len()).map(|i| (i, 0, i)).collect();
                for (k, x) in f.iter().enumerate() {
                    match pos.get(&pad(x)) {
                        Some(i) => s.push((*i, 1, *i)),
                        None if c == Cheat::Hswap => s.push((k, 1, k)),
                        None => s.push((k, 2, k)),
                    }
                }
                s.sort();
                let at = |e: &(usize, usize, usize)| if e.1 == 2 { f[e.2].clone() } else { t[e.2].clone() };
                Some((s.iter().step_by(2).map(at).collect(), s.iter().skip(1).step_by(2).map(at).collect()))
            }) as verif::H
        })
    });
    let wide = |e: E| -> Vec<_> { fes(&e) };
    verif::Z.with(|z| {
        *z.borrow_mut() = lookups.then(|| {
            Box::new(move |num: &[Vec<_>], den: &[Vec<_>]| {
                let n = num.len();
                let (a, b): (Vec<E>, Vec<E>) = (num.iter().map(|x| to_e(&vals(x))).collect(), den.iter().map(|x| to_e(&vals(x))).collect());
                let mut v = vec![cubic::base(1)];
                for i in 0..n - 1 {
                    let k = if b[i] == [0; 3] { [0; 3] } else { cubic::mul(&a[i], &e_inv(&b[i])) };
                    v.push(cubic::mul(&v[i], &k));
                }
                Some(match c {
                    Cheat::Zzero => vec![wide([0; 3]); n],
                    Cheat::Zone => vec![wide([1, 0, 0]); n],
                    Cheat::Zclose => {
                        // walk back from the end so that only the first step is wrong
                        let mut w = vec![cubic::base(1); n];
                        for i in (1..n).rev() {
                            let next = w[(i + 1) % n];
                            w[i] = if a[i] == [0; 3] { [0; 3] } else { cubic::mul(&next, &cubic::mul(&b[i], &e_inv(&a[i]))) };
                        }
                        w.into_iter().map(wide).collect()
                    }
                    _ => v.into_iter().map(wide).collect(),
                })
            }) as verif::Z
        })
    });
}
pub fn pad(x: &[fields::field_gl::Fr]) -> Vec<u64> {
    let mut v = vals(x);
    v.resize(3, 0);
    v
}
/// proves with the evaluations replaced by what `f` makes of them
pub fn prove_forged<B: Backend>(p: &Prog, s: &Setup<B>, info: &StarkInfo, cms: &[Vec<u64>], f: impl Fn(&mut Vec<E>, &[E]) + 'static) -> Result<Proof<B>, String> {
    verif::EVALS.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |ev: &[Vec<_>], ch: &[Vec<_>]| {
            let mut e: Vec<E> = ev.iter().map(|x| to_e(&vals(x))).collect();
            let was = e.clone();
            let c: Vec<E> = ch.iter().map(|x| to_e(&vals(x))).collect();
            f(&mut e, &c);
            // the number of elements of an evaluation is part of what the transcript absorbs: keep it where the value stayed
            e.iter().zip(&was).zip(ev).map(|((n, o), x)| if n == o { x.clone() } else { fes(n) }).collect()
        }))
    });
    let r = prove_with::<B>(p, s, info, cms, ADDR);
    verif::EVALS.with(|h| *h.borrow_mut() = None);
    r
}

// ---------------------------------------------------------------- a tree whose claimed root is not its root
struct Plan {
    /// which tree of the proof lies, counted in the order they are built
    at: usize,
    built: usize,
    /// which limb of the root is moved, and by how much
    limb: usize,
    by: u64,
    truth: Option<Vec<u64>>,
}
thread_local!(static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) });

/// `B`'s tree, lying about its root when the plan says so
#[repr(transparent)]
pub struct Lie<B: Backend>(B::M);
impl<B: Backend> Default for Lie<B> {
    fn default() -> Self {
        Lie(B::M::default())
    }
}
impl<B: Backend> Serialize for Lie<B> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, B: Backend> Deserialize<'de> for Lie<B> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        B::M::deserialize(d).map(Lie)
    }
}
type NodeOf<B> = <<B as Backend>::M as MerkleTree>::MTNode;
fn moved<B: Backend>(n: &NodeOf<B>, limb: usize, by: u64) -> Option<NodeOf<B>> {
    if B::ARITY == 2 {
        let mut l: [u64; 4] = vals(n.as_elements()).try_into().unwrap();
        l[limb] = gl::add(l[limb], by);
        return Some(NodeOf::<B>::new(&l.map(fe)));
    }
    // a curve's root is one field element: another one that a node can hold
    (0..64u64).find_map(|k| B::make(&(B::node(n) + by % (1 << 40) + k + 1u64)))
}
impl<B: Backend> MerkleTree for Lie<B> {
    type MTNode = NodeOf<B>;
    type ExtendField = starky::f3g::F3G;
    type BaseField = <B::M as MerkleTree>::BaseField;
    fn new() -> Self {
        Lie(B::M::new())
    }
    fn to_extend(&self, p_be: &mut Vec<Self::ExtendField>) {
        self.0.to_extend(p_be)
    }
    fn to_basefield(node: &Self::MTNode) -> Vec<Self::BaseField> {
        B::M::to_basefield(node)
    }
    fn from_basefield(node: &Self::BaseField) -> Self::MTNode {
        B::M::from_basefield(node)
    }
    fn merkelize(&mut self, buff: Vec<fields::field_gl::Fr>, width: usize, height: usize) -> anyhow::Result<()> {
        let r = self.0.merkelize(buff, width, height);
        PLAN.with(|p| {
            if let Some(p) = p.borrow_mut().as_mut() {
                if p.built == p.at {
                    p.truth = Some(vals(self.0.root().as_elements()));
                }
                p.built += 1;
            }
        });
        r
    }
    fn get_element(&self, idx: usize, sub_idx: usize) -> fields::field_gl::Fr {
        self.0.get_element(idx, sub_idx)
    }
    fn get_group_proof(&self, idx: usize) -> anyhow::Result<(Vec<fields::field_gl::Fr>, Vec<Vec<Self::BaseField>>)> {
        self.0.get_group_proof(idx)
    }
    fn verify_group_proof(&self, root: &Self::MTNode, mp: &[Vec<Self::BaseField>], idx: usize, group: &[fields::field_gl::Fr]) -> anyhow::Result<bool> {
        self.0.verify_group_proof(root, mp, idx, group)
    }
    fn root(&self) -> Self::MTNode {
        let t = self.0.root();
        PLAN.with(|p| match p.borrow().as_ref() {
            Some(p) if p.truth.as_ref() == Some(&vals(t.as_elements())) => moved::<B>(&t, p.limb, p.by).unwrap_or(t),
            _ => t,
        })
    }
    fn eq_root(&self, a: &Self::MTNode, b: &Self::MTNode) -> bool {
        self.0.eq_root(a, b)
    }
    fn element_size(&self) -> usize {
        self.0.element_size()
    }
}
/// Proves honestly, except that the root of the tree built as number `at` is claimed to be another one, from the
/// moment it is committed to: the challenges, the queries and the openings all follow from the claim.
/// None if no such tree is built.
pub fn prove_root<B: Backend>(p: &Prog, s: &Setup<B>, at: usize, limb: usize, by: u64) -> Result<Option<Proof<B>>, String> {
    PLAN.with(|x| *x.borrow_mut() = Some(Plan { at, built: 0, limb, by, truth: None }));
    // the same thing in memory: Lie is transparent
    let tree = unsafe { &*(&s.const_tree as *const B::M as *const Lie<B>) };
    let r = flat(guard(|| {
        StarkProof::<Lie<B>>::stark_gen::<B::T>(pols(&p.pil, PolKind::Commit, &p.cms), pols(&p.pil, PolKind::Constant, &p.consts), tree, &s.starkinfo, &s.program, &p.pil, &p.ss, ADDR)
    }));
    let lied = PLAN.with(|x| x.borrow_mut().take()).is_some_and(|p| p.truth.is_some());
    r.map(|x| {
        lied.then(|| StarkProof {
            root1: x.root1,
            root2: x.root2,
            root3: x.root3,
            root4: x.root4,
            fri_proof: verif::FRIProof { queries: x.fri_proof.queries, last: x.fri_proof.last },
            evals: x.evals,
            publics: x.publics,
            rootC: x.rootC,
            prover_addr: x.prover_addr,
        })
    })
}
