//! The curve BN254 for arkworks' generic models. Generated by gen.py from the defining numbers
//! (the field, the order, the non-residue 9 + u).
use ark_ec::{
    bn::{Bn, BnConfig, TwistType},
    short_weierstrass::{Affine, SWCurveConfig},
    CurveConfig,
};
use ark_ff::{fields::*, MontFp};

#[derive(MontConfig)]
#[modulus = "21888242871839275222246405745257275088696311157297823662689037894645226208583"]
#[generator = "3"]
pub struct FqConfig;
pub type Fq = Fp256<MontBackend<FqConfig, 4>>;
#[derive(MontConfig)]
#[modulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
#[generator = "5"]
pub struct FrConfig;
pub type Fr = Fp256<MontBackend<FrConfig, 4>>;

pub struct Fq2Config;
pub type Fq2 = Fp2<Fq2Config>;
impl Fp2Config for Fq2Config {
    type Fp = Fq;
    const NONRESIDUE: Fq = MontFp!("-1");
    const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[Fq::ONE, MontFp!("-1")];
}
#[derive(Clone, Copy)]
pub struct Fq6Config;
pub type Fq6 = Fp6<Fq6Config>;
impl Fp6Config for Fq6Config {
    type Fp2Config = Fq2Config;
    const NONRESIDUE: Fq2 = Fq2::new(MontFp!("9"), Fq::ONE);
    const FROBENIUS_COEFF_FP6_C1: &'static [Fq2] = &[
        Fq2::new(MontFp!("1"), MontFp!("0")),
        Fq2::new(MontFp!("21575463638280843010398324269430826099269044274347216827212613867836435027261"), MontFp!("10307601595873709700152284273816112264069230130616436755625194854815875713954")),
        Fq2::new(MontFp!("21888242871839275220042445260109153167277707414472061641714758635765020556616"), MontFp!("0")),
        Fq2::new(MontFp!("3772000881919853776433695186713858239009073593817195771773381919316419345261"), MontFp!("2236595495967245188281701248203181795121068902605861227855261137820944008926")),
        Fq2::new(MontFp!("2203960485148121921418603742825762020974279258880205651966"), MontFp!("0")),
        Fq2::new(MontFp!("18429021223477853657660792034369865839114504446431234726392080002137598044644"), MontFp!("9344045779998320333812420223237981029506012124075525679208581902008406485703")),
    ];
    const FROBENIUS_COEFF_FP6_C2: &'static [Fq2] = &[
        Fq2::new(MontFp!("1"), MontFp!("0")),
        Fq2::new(MontFp!("2581911344467009335267311115468803099551665605076196740867805258568234346338"), MontFp!("19937756971775647987995932169929341994314640652964949448313374472400716661030")),
        Fq2::new(MontFp!("2203960485148121921418603742825762020974279258880205651966"), MontFp!("0")),
        Fq2::new(MontFp!("5324479202449903542726783395506214481928257762400643279780343368557297135718"), MontFp!("16208900380737693084919495127334387981393726419856888799917914180988844123039")),
        Fq2::new(MontFp!("21888242871839275220042445260109153167277707414472061641714758635765020556616"), MontFp!("0")),
        Fq2::new(MontFp!("13981852324922362344252311234282257507216387789820983642040889267519694726527"), MontFp!("7629828391165209371577384193250820201684255241773809077146787135900891633097")),
    ];
}
#[derive(Clone, Copy)]
pub struct Fq12Config;
pub type Fq12 = Fp12<Fq12Config>;
impl Fp12Config for Fq12Config {
    type Fp6Config = Fq6Config;
    const NONRESIDUE: Fq6 = Fq6::new(Fq2::ZERO, Fq2::ONE, Fq2::ZERO);
    const FROBENIUS_COEFF_FP12_C1: &'static [Fq2] = &[
        Fq2::new(MontFp!("1"), MontFp!("0")),
        Fq2::new(MontFp!("8376118865763821496583973867626364092589906065868298776909617916018768340080"), MontFp!("16469823323077808223889137241176536799009286646108169935659301613961712198316")),
        Fq2::new(MontFp!("21888242871839275220042445260109153167277707414472061641714758635765020556617"), MontFp!("0")),
        Fq2::new(MontFp!("11697423496358154304825782922584725312912383441159505038794027105778954184319"), MontFp!("303847389135065887422783454877609941456349188919719272345083954437860409601")),
        Fq2::new(MontFp!("21888242871839275220042445260109153167277707414472061641714758635765020556616"), MontFp!("0")),
        Fq2::new(MontFp!("3321304630594332808241809054958361220322477375291206261884409189760185844239"), MontFp!("5722266937896532885780051958958348231143373700109372999374820235121374419868")),
        Fq2::new(MontFp!("21888242871839275222246405745257275088696311157297823662689037894645226208582"), MontFp!("0")),
        Fq2::new(MontFp!("13512124006075453725662431877630910996106405091429524885779419978626457868503"), MontFp!("5418419548761466998357268504080738289687024511189653727029736280683514010267")),
        Fq2::new(MontFp!("2203960485148121921418603742825762020974279258880205651966"), MontFp!("0")),
        Fq2::new(MontFp!("10190819375481120917420622822672549775783927716138318623895010788866272024264"), MontFp!("21584395482704209334823622290379665147239961968378104390343953940207365798982")),
        Fq2::new(MontFp!("2203960485148121921418603742825762020974279258880205651967"), MontFp!("0")),
        Fq2::new(MontFp!("18566938241244942414004596690298913868373833782006617400804628704885040364344"), MontFp!("16165975933942742336466353786298926857552937457188450663314217659523851788715")),
    ];
}

#[derive(Clone, Default, PartialEq, Eq)]
pub struct G1Config;
impl CurveConfig for G1Config {
    type BaseField = Fq;
    type ScalarField = Fr;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: Fr = Fr::ONE;
}
impl SWCurveConfig for G1Config {
    const COEFF_A: Fq = Fq::ZERO;
    const COEFF_B: Fq = MontFp!("3");
    const GENERATOR: Affine<Self> = Affine::new_unchecked(Fq::ONE, MontFp!("2"));
}
#[derive(Clone, Default, PartialEq, Eq)]
pub struct G2Config;
impl CurveConfig for G2Config {
    type BaseField = Fq2;
    type ScalarField = Fr;
    const COFACTOR: &'static [u64] = &[0x345f2299c0f9fa8d, 0x6ceecda572a2489, 0xb85045b68181585e, 0x30644e72e131a029];
    const COFACTOR_INV: Fr = MontFp!("10944121435919637613327163357776759465618812564592884533313067514031822496649");
}
impl SWCurveConfig for G2Config {
    const COEFF_A: Fq2 = Fq2::ZERO;
    const COEFF_B: Fq2 = Fq2::new(MontFp!("19485874751759354771024239261021720505790618469301721065564631296452457478373"), MontFp!("266929791119991161246907387137283842545076965332900288569378510910307636690"));
    const GENERATOR: Affine<Self> = Affine::new_unchecked(
        Fq2::new(
            MontFp!("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
            MontFp!("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
        ),
        Fq2::new(
            MontFp!("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
            MontFp!("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
        ),
    );
}
pub struct Config;
pub type Bn254 = Bn<Config>;
impl BnConfig for Config {
    const X: &'static [u64] = &[4965661367192848881];
    const X_IS_NEGATIVE: bool = false;
    const ATE_LOOP_COUNT: &'static [i8] = &[0, 0, 0, 1, 0, 1, 0, -1, 0, 0, -1, 0, 0, 0, 1, 0, 0, -1, 0, -1, 0, 0, 0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 1, 0, -1, 0, 0, 1, 0, 0, 0, 0, 0, -1, 0, 0, -1, 0, 1, 0, -1, 0, 0, 0, -1, 0, -1, 0, 0, 0, 1, 0, -1, 0, 1];
    const TWIST_TYPE: TwistType = TwistType::D;
    const TWIST_MUL_BY_Q_X: Fq2 = Fq2::new(MontFp!("21575463638280843010398324269430826099269044274347216827212613867836435027261"), MontFp!("10307601595873709700152284273816112264069230130616436755625194854815875713954"));
    const TWIST_MUL_BY_Q_Y: Fq2 = Fq2::new(MontFp!("2821565182194536844548159561693502659359617185244120367078079554186484126554"), MontFp!("3505843767911556378687030309984248845540243509899259641013678093033130930403"));
    type Fp = Fq;
    type Fp2Config = Fq2Config;
    type Fp6Config = Fq6Config;
    type Fp12Config = Fq12Config;
    type G1Config = G1Config;
    type G2Config = G2Config;
}
pub type G1Affine = ark_ec::bn::G1Affine<Config>;
pub type G2Affine = ark_ec::bn::G2Affine<Config>;

#[cfg(test)]
mod tests {
    use super::*;
    use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
    #[test]
    fn bilinear() {
        let (g, h) = (G1Affine::generator(), G2Affine::generator());
        assert!(g.is_on_curve() && h.is_on_curve() && h.is_in_correct_subgroup_assuming_on_curve());
        let (a, b) = (Fr::from(123456789u64), Fr::from(987654321u64));
        let e = Bn254::pairing(g, h);
        assert_eq!(Bn254::pairing((g * a).into_affine(), (h * b).into_affine()), e * (a * b));
        assert!(e.0 != Fq12::ONE);
        use ark_ff::Field;
        let r: num_bigint::BigUint = Fr::MODULUS.into();
        assert_eq!(e.0.pow(r.to_u64_digits()), Fq12::ONE);
    }
}
