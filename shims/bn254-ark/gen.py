q=21888242871839275222246405745257275088696311157297823662689037894645226208583
r=21888242871839275222246405745257275088548364400416034343698204186575808495617
x=4965661367192848881
assert 36*x**4+36*x**3+24*x*x+6*x+1==q and 36*x**4+36*x**3+18*x*x+6*x+1==r
def mul(a,b): return ((a[0]*b[0]-a[1]*b[1])%q,(a[0]*b[1]+a[1]*b[0])%q)
def inv(a):
    n=pow(a[0]*a[0]+a[1]*a[1],-1,q); return (a[0]*n%q,-a[1]*n%q)
def pw(a,e):
    o=(1,0)
    while e:
        if e&1:o=mul(o,a)
        a=mul(a,a);e>>=1
    return o
nr=(9,1)
f2=lambda a:f'Fq2::new(MontFp!("{a[0]}"), MontFp!("{a[1]}"))'
lst=lambda l:'&[\n        '+',\n        '.join(map(f2,l))+',\n    ]'
c1=[pw(nr,(q**i-1)//3) for i in range(6)]
c2=[pw(nr,(2*q**i-2)//3) for i in range(6)]
c12=[pw(nr,(q**i-1)//6) for i in range(12)]
tx=pw(nr,(q-1)//3); ty=pw(nr,(q-1)//2)
n=6*x+2; naf=[]
while n:
    if n&1:
        d=2-(n%4); n-=d
    else: d=0
    naf.append(d); n//=2
b2=mul((3,0),inv(nr))
cof=2*q-r
limbs=lambda v:'&['+', '.join(hex(v>>64*i&(2**64-1)) for i in range((v.bit_length()+63)//64))+']'
print(f'''//! The curve BN254 for arkworks' generic models. Generated by gen.py from the defining numbers
//! (the field, the order, the non-residue 9 + u).
use ark_ec::{{
    bn::{{Bn, BnConfig, TwistType}},
    short_weierstrass::{{Affine, SWCurveConfig}},
    CurveConfig,
}};
use ark_ff::{{fields::*, MontFp}};

#[derive(MontConfig)]
#[modulus = "{q}"]
#[generator = "3"]
pub struct FqConfig;
pub type Fq = Fp256<MontBackend<FqConfig, 4>>;
#[derive(MontConfig)]
#[modulus = "{r}"]
#[generator = "5"]
pub struct FrConfig;
pub type Fr = Fp256<MontBackend<FrConfig, 4>>;

pub struct Fq2Config;
pub type Fq2 = Fp2<Fq2Config>;
impl Fp2Config for Fq2Config {{
    type Fp = Fq;
    const NONRESIDUE: Fq = MontFp!("-1");
    const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[Fq::ONE, MontFp!("-1")];
}}
#[derive(Clone, Copy)]
pub struct Fq6Config;
pub type Fq6 = Fp6<Fq6Config>;
impl Fp6Config for Fq6Config {{
    type Fp2Config = Fq2Config;
    const NONRESIDUE: Fq2 = Fq2::new(MontFp!("9"), Fq::ONE);
    const FROBENIUS_COEFF_FP6_C1: &'static [Fq2] = {lst(c1)};
    const FROBENIUS_COEFF_FP6_C2: &'static [Fq2] = {lst(c2)};
}}
#[derive(Clone, Copy)]
pub struct Fq12Config;
pub type Fq12 = Fp12<Fq12Config>;
impl Fp12Config for Fq12Config {{
    type Fp6Config = Fq6Config;
    const NONRESIDUE: Fq6 = Fq6::new(Fq2::ZERO, Fq2::ONE, Fq2::ZERO);
    const FROBENIUS_COEFF_FP12_C1: &'static [Fq2] = {lst(c12)};
}}

#[derive(Clone, Default, PartialEq, Eq)]
pub struct G1Config;
impl CurveConfig for G1Config {{
    type BaseField = Fq;
    type ScalarField = Fr;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: Fr = Fr::ONE;
}}
impl SWCurveConfig for G1Config {{
    const COEFF_A: Fq = Fq::ZERO;
    const COEFF_B: Fq = MontFp!("3");
    const GENERATOR: Affine<Self> = Affine::new_unchecked(Fq::ONE, MontFp!("2"));
}}
#[derive(Clone, Default, PartialEq, Eq)]
pub struct G2Config;
impl CurveConfig for G2Config {{
    type BaseField = Fq2;
    type ScalarField = Fr;
    const COFACTOR: &'static [u64] = {limbs(cof)};
    const COFACTOR_INV: Fr = MontFp!("{pow(cof,-1,r)}");
}}
impl SWCurveConfig for G2Config {{
    const COEFF_A: Fq2 = Fq2::ZERO;
    const COEFF_B: Fq2 = {f2(b2)};
    const GENERATOR: Affine<Self> = Affine::new_unchecked(
        Fq2::new(
            MontFp!("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
            MontFp!("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
        ),
        Fq2::new(
            MontFp!("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
            MontFp!("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
        ),
    );
}}
pub struct Config;
pub type Bn254 = Bn<Config>;
impl BnConfig for Config {{
    const X: &'static [u64] = &[{x}];
    const X_IS_NEGATIVE: bool = false;
    const ATE_LOOP_COUNT: &'static [i8] = &{naf};
    const TWIST_TYPE: TwistType = TwistType::D;
    const TWIST_MUL_BY_Q_X: Fq2 = {f2(tx)};
    const TWIST_MUL_BY_Q_Y: Fq2 = {f2(ty)};
    type Fp = Fq;
    type Fp2Config = Fq2Config;
    type Fp6Config = Fq6Config;
    type Fp12Config = Fq12Config;
    type G1Config = G1Config;
    type G2Config = G2Config;
}}
pub type G1Affine = ark_ec::bn::G1Affine<Config>;
pub type G2Affine = ark_ec::bn::G2Affine<Config>;

#[cfg(test)]
mod tests {{
    use super::*;
    use ark_ec::{{pairing::Pairing, AffineRepr, CurveGroup}};
    #[test]
    fn bilinear() {{
        let (g, h) = (G1Affine::generator(), G2Affine::generator());
        assert!(g.is_on_curve() && h.is_on_curve() && h.is_in_correct_subgroup_assuming_on_curve());
        let (a, b) = (Fr::from(123456789u64), Fr::from(987654321u64));
        let e = Bn254::pairing(g, h);
        assert_eq!(Bn254::pairing((g * a).into_affine(), (h * b).into_affine()), e * (a * b));
        assert!(e.0 != Fq12::ONE);
        use ark_ff::Field;
        let r: num_bigint::BigUint = Fr::MODULUS.into();
        assert_eq!(e.0.pow(r.to_u64_digits()), Fq12::ONE);
    }}
}}''')
