//! Points in bellman's manner (coordinates and a flag), computed with by arkworks.
use crate::ff::{PrimeField, PrimeFieldRepr};
use ark_ec::{pairing::Pairing, short_weierstrass as sw, AffineRepr};
use ark_ff::BigInteger;
use std::fmt::Debug;
use std::io::{self, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fq2<F> {
    pub c0: F,
    pub c1: F,
}
/// a coordinate: one or two elements of the prime field
pub trait Coord: Copy + Clone + Debug + PartialEq + Eq + Send + Sync + 'static {
    fn zero() -> Self;
    fn one() -> Self;
    /// big-endian, the higher part first
    fn write(&self, w: &mut Vec<u8>);
    fn read(r: &mut &[u8]) -> io::Result<Self>;
}
macro_rules! prime {
    ($t:ty) => {
        impl Coord for $t {
            fn zero() -> Self {
                <$t as crate::ff::Field>::zero()
            }
            fn one() -> Self {
                <$t as crate::ff::Field>::one()
            }
            fn write(&self, w: &mut Vec<u8>) {
                self.into_repr().write_be(w).unwrap();
            }
            fn read(r: &mut &[u8]) -> io::Result<Self> {
                let mut x = <$t as PrimeField>::Repr::default();
                x.read_be(r)?;
                <$t>::from_repr(x).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e.to_string()))
            }
        }
    };
}
prime!(crate::bellman::pairing::bn256::Fq);
prime!(crate::bellman::pairing::bls12_381::Fq);
impl<F: Coord> Coord for Fq2<F> {
    fn zero() -> Self {
        Fq2 { c0: F::zero(), c1: F::zero() }
    }
    fn one() -> Self {
        Fq2 { c0: F::one(), c1: F::zero() }
    }
    fn write(&self, w: &mut Vec<u8>) {
        self.c1.write(w);
        self.c0.write(w);
    }
    fn read(r: &mut &[u8]) -> io::Result<Self> {
        let c1 = F::read(r)?;
        Ok(Fq2 { c0: F::read(r)?, c1 })
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Point<C> {
    x: C,
    y: C,
    infinity: bool,
}
/// coordinates that know their curve
pub trait OnCurve: Coord {
    fn check(x: &Self, y: &Self) -> bool;
    fn subgroup(x: &Self, y: &Self) -> bool;
}
#[derive(Debug)]
pub enum GroupDecodingError {
    NotOnCurve,
    NotInSubgroup,
}
impl std::fmt::Display for GroupDecodingError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for GroupDecodingError {}
/// the uncompressed encoding of a point; reading it checks the curve and the group
pub trait EncodedPoint: Sized {
    type Affine;
    fn into_affine(&self) -> Result<Self::Affine, GroupDecodingError>;
}
pub struct Uncompressed<P>(Vec<u8>, std::marker::PhantomData<P>);
impl<P: CurveAffine> EncodedPoint for Uncompressed<P> {
    type Affine = P;
    fn into_affine(&self) -> Result<P, GroupDecodingError> {
        P::read_raw(&mut &self.0[..], true).map_err(|_| GroupDecodingError::NotOnCurve)
    }
}
pub trait CurveAffine: Copy + Clone + Sized + Send + Sync + Debug + PartialEq + Eq + 'static {
    type Base;
    type Uncompressed: EncodedPoint<Affine = Self>;
    fn into_uncompressed(&self) -> Self::Uncompressed;
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
    fn into_xy_unchecked(&self) -> (Self::Base, Self::Base);
    fn from_xy_unchecked(x: Self::Base, y: Self::Base) -> Self;
    fn from_xy_checked(x: Self::Base, y: Self::Base) -> Result<Self, GroupDecodingError>;
    fn write_raw(&self, w: &mut Vec<u8>);
    fn read_raw(r: &mut dyn Read, checked: bool) -> io::Result<Self>;
}
impl<C: OnCurve> CurveAffine for Point<C> {
    type Base = C;
    type Uncompressed = Uncompressed<Self>;
    fn into_uncompressed(&self) -> Uncompressed<Self> {
        let mut b = vec![];
        self.write_raw(&mut b);
        Uncompressed(b, std::marker::PhantomData)
    }
    fn zero() -> Self {
        Point { x: C::zero(), y: C::one(), infinity: true }
    }
    fn is_zero(&self) -> bool {
        self.infinity
    }
    fn into_xy_unchecked(&self) -> (C, C) {
        (self.x, self.y)
    }
    fn from_xy_unchecked(x: C, y: C) -> Self {
        Point { x, y, infinity: false }
    }
    fn from_xy_checked(x: C, y: C) -> Result<Self, GroupDecodingError> {
        if C::check(&x, &y) {
            Ok(Point { x, y, infinity: false })
        } else {
            Err(GroupDecodingError::NotOnCurve)
        }
    }
    fn write_raw(&self, w: &mut Vec<u8>) {
        let at = w.len();
        let p = if self.infinity { (C::zero(), C::zero()) } else { (self.x, self.y) };
        p.0.write(w);
        p.1.write(w);
        w[at] |= (self.infinity as u8) << 6;
    }
    fn read_raw(r: &mut dyn Read, checked: bool) -> io::Result<Self> {
        let bad = |s: &str| io::Error::new(io::ErrorKind::InvalidData, s.to_string());
        let mut len = vec![];
        C::zero().write(&mut len);
        let mut b = vec![0; 2 * len.len()];
        r.read_exact(&mut b)?;
        let flag = b[0] & 0xc0;
        b[0] &= 0x3f;
        match flag {
            0x40 if b.iter().all(|x| *x == 0) => return Ok(Self::zero()),
            0 => {}
            _ => return Err(bad("not an uncompressed point")),
        }
        let mut s = &b[..];
        let (x, y) = (C::read(&mut s)?, C::read(&mut s)?);
        if checked && !C::check(&x, &y) {
            return Err(bad("not on the curve"));
        }
        if checked && !C::subgroup(&x, &y) {
            return Err(bad("not in the subgroup"));
        }
        Ok(Point { x, y, infinity: false })
    }
}
/// for engines without a curve
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NoPoint<F>(std::marker::PhantomData<F>);
impl<F: PrimeField> CurveAffine for NoPoint<F> {
    type Base = F;
    type Uncompressed = Uncompressed<Self>;
    fn into_uncompressed(&self) -> Uncompressed<Self> {
        unimplemented!()
    }
    fn zero() -> Self {
        unimplemented!()
    }
    fn is_zero(&self) -> bool {
        unimplemented!()
    }
    fn into_xy_unchecked(&self) -> (F, F) {
        unimplemented!()
    }
    fn from_xy_unchecked(_: F, _: F) -> Self {
        unimplemented!()
    }
    fn from_xy_checked(_: F, _: F) -> Result<Self, GroupDecodingError> {
        unimplemented!()
    }
    fn write_raw(&self, _: &mut Vec<u8>) {
        unimplemented!()
    }
    fn read_raw(_: &mut dyn Read, _: bool) -> io::Result<Self> {
        unimplemented!()
    }
}

/// the arithmetic behind an engine
pub trait Curve: 'static {
    type P: Pairing;
    type Fr: PrimeField;
    type G1: CurveAffine;
    type G2: CurveAffine;
    fn fr(x: &Self::Fr) -> <Self::P as Pairing>::ScalarField;
    fn g1(x: &Self::G1) -> <Self::P as Pairing>::G1Affine;
    fn g2(x: &Self::G2) -> <Self::P as Pairing>::G2Affine;
    fn from_g1(x: &<Self::P as Pairing>::G1Affine) -> Self::G1;
    fn from_g2(x: &<Self::P as Pairing>::G2Affine) -> Self::G2;
}
fn to_ark<F: PrimeField, G: ark_ff::PrimeField>(x: &F) -> G {
    let mut b = vec![];
    x.into_repr().write_le(&mut b).unwrap();
    G::from_le_bytes_mod_order(&b)
}
fn of_ark<F: PrimeField, G: ark_ff::PrimeField>(x: &G) -> F {
    let mut r = F::Repr::default();
    r.read_le(&x.into_bigint().to_bytes_le()[..]).unwrap();
    F::from_repr(r).unwrap()
}
macro_rules! curve {
    ($name:ident, $m:ident, $P:ty, $fq:ty, $fq2:ty, $g1:ty, $g2:ty) => {
        pub struct $name;
        const _: () = {
            use crate::bellman::pairing::$m as b;
            type C2 = Fq2<b::Fq>;
            fn q2(x: &C2) -> $fq2 {
                <$fq2>::new(to_ark(&x.c0), to_ark(&x.c1))
            }
            impl OnCurve for b::Fq {
                fn check(x: &Self, y: &Self) -> bool {
                    sw::Affine::<$g1>::new_unchecked(to_ark(x), to_ark(y)).is_on_curve()
                }
                fn subgroup(x: &Self, y: &Self) -> bool {
                    sw::Affine::<$g1>::new_unchecked(to_ark(x), to_ark(y)).is_in_correct_subgroup_assuming_on_curve()
                }
            }
            impl OnCurve for C2 {
                fn check(x: &Self, y: &Self) -> bool {
                    sw::Affine::<$g2>::new_unchecked(q2(x), q2(y)).is_on_curve()
                }
                fn subgroup(x: &Self, y: &Self) -> bool {
                    sw::Affine::<$g2>::new_unchecked(q2(x), q2(y)).is_in_correct_subgroup_assuming_on_curve()
                }
            }
            impl Curve for $name {
                type P = $P;
                type Fr = b::Fr;
                type G1 = b::G1Affine;
                type G2 = b::G2Affine;
                fn fr(x: &b::Fr) -> <$P as Pairing>::ScalarField {
                    to_ark(x)
                }
                fn g1(p: &b::G1Affine) -> sw::Affine<$g1> {
                    if p.infinity {
                        return sw::Affine::identity();
                    }
                    sw::Affine::new_unchecked(to_ark(&p.x), to_ark(&p.y))
                }
                fn g2(p: &b::G2Affine) -> sw::Affine<$g2> {
                    if p.infinity {
                        return sw::Affine::identity();
                    }
                    sw::Affine::new_unchecked(q2(&p.x), q2(&p.y))
                }
                fn from_g1(p: &sw::Affine<$g1>) -> b::G1Affine {
                    match p.xy() {
                        Some((x, y)) => Point { x: of_ark(&x), y: of_ark(&y), infinity: false },
                        None => Point::zero(),
                    }
                }
                fn from_g2(p: &sw::Affine<$g2>) -> b::G2Affine {
                    let c = |x: &$fq2| Fq2 { c0: of_ark(&x.c0), c1: of_ark(&x.c1) };
                    match p.xy() {
                        Some((x, y)) => Point { x: c(&x), y: c(&y), infinity: false },
                        None => Point::zero(),
                    }
                }
            }
        };
    };
}
curve!(BnCurve, bn256, bn254_ark::Bn254, bn254_ark::Fq, bn254_ark::Fq2, bn254_ark::G1Config, bn254_ark::G2Config);
curve!(BlsCurve, bls12_381, ark_bls12_381::Bls12_381, ark_bls12_381::Fq, ark_bls12_381::Fq2, ark_bls12_381::g1::Config, ark_bls12_381::g2::Config);
/// for engines without a curve; the scalars are not used
pub struct NoCurve<F>(std::marker::PhantomData<F>);
impl<F: PrimeField> Curve for NoCurve<F> {
    type P = ark_bls12_381::Bls12_381;
    type Fr = F;
    type G1 = NoPoint<F>;
    type G2 = NoPoint<F>;
    fn fr(_: &F) -> ark_bls12_381::Fr {
        unimplemented!()
    }
    fn g1(_: &NoPoint<F>) -> ark_bls12_381::G1Affine {
        unimplemented!()
    }
    fn g2(_: &NoPoint<F>) -> ark_bls12_381::G2Affine {
        unimplemented!()
    }
    fn from_g1(_: &ark_bls12_381::G1Affine) -> NoPoint<F> {
        unimplemented!()
    }
    fn from_g2(_: &ark_bls12_381::G2Affine) -> NoPoint<F> {
        unimplemented!()
    }
}
pub fn write_all<W: Write>(mut w: W, b: &[u8]) -> io::Result<()> {
    w.write_all(b)
}
