//! BLS12-377, BW6-761 (scalar field only; groups are placeholders) and the two Edwards curves.
use crate::ec::bls12::*;
use crate::ec::*;
use crate::ff::*;
use std::str::FromStr;
use std::sync::OnceLock;

fp_params!(FqParameters, 6, 15, [0x8508c00000000001, 0x170b5d4430000000, 0x1ef3622fba094800, 0x1a22d9f300f5138f, 0xc63b05c06ca1493b, 0x01ae3a4617c510ea]);
fp_params!(FrParameters, 4, 22, [0x0a11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556]);
fp_params!(EdFrParameters, 6, 2, [0x4103486497d95295, 0x34066d10f5d89381, 0xe1d75fe7d6eeb842, 0x63445b3e601ea271, 0x58c760b80d942927, 0x0035c748c2f8a21d]);
pub type Fq = Fp<FqParameters, 6>;
pub type Fr = Fp<FrParameters, 4>;
pub type EdFr = Fp<EdFrParameters, 6>;
pub const X: u64 = 0x8508c00000000001;

/// (p^i - 1) / d as limbs, p the base field modulus (used for Frobenius coefficients).
fn p_pow_minus_one_div(i: usize, d: u64) -> Vec<u64> {
    let m = FqParameters::MOD;
    let mut v: Vec<u64> = vec![1];
    for _ in 0..i {
        let mut r = vec![0u64; v.len() + 6];
        for (a, x) in v.iter().enumerate() {
            let mut c = 0u128;
            for (b, y) in m.iter().enumerate() {
                let t = r[a + b] as u128 + *x as u128 * *y as u128 + c;
                r[a + b] = t as u64;
                c = t >> 64;
            }
            r[a + 6] = c as u64;
        }
        v = r;
    }
    v[0] -= 1; // p odd
    let mut rem = 0u128;
    for l in v.iter_mut().rev() {
        let t = rem << 64 | *l as u128;
        *l = (t / d as u128) as u64;
        rem = t % d as u128;
    }
    assert_eq!(rem, 0);
    v
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Fq2Parameters;
impl QuadExt for Fq2Parameters {
    type Base = Fq;
    fn mul_nonresidue(x: &Fq) -> Fq {
        -(x.double().double() + x)
    }
    fn frob(i: usize) -> Fq {
        // (-5)^((p^i-1)/2): -5 is a non-residue
        if i % 2 == 0 {
            Fq::one()
        } else {
            -Fq::one()
        }
    }
    const DEGREE: usize = 1;
}
pub type Fq2 = QuadExtField<Fq2Parameters>;
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Fq6Parameters;
fn u() -> Fq2 {
    Fq2::new(Fq::zero(), Fq::one())
}
impl CubicExt for Fq6Parameters {
    type Base = Fq2;
    fn mul_nonresidue(x: &Fq2) -> Fq2 {
        Fq2::new(Fq2Parameters::mul_nonresidue(&x.c1), x.c0)
    }
    fn frob(i: usize) -> (Fq2, Fq2) {
        static T: OnceLock<Vec<(Fq2, Fq2)>> = OnceLock::new();
        T.get_or_init(|| {
            (0..6)
                .map(|i| {
                    let a = if i == 0 { Fq2::one() } else { u().pow(p_pow_minus_one_div(i, 3)) };
                    (a, a.square())
                })
                .collect()
        })[i % 6]
    }
    const DEGREE: usize = 2;
}
pub type Fq6 = CubicExtField<Fq6Parameters>;
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Fq12Parameters;
impl QuadExt for Fq12Parameters {
    type Base = Fq6;
    fn mul_nonresidue(x: &Fq6) -> Fq6 {
        Fq6::new(Fq6Parameters::mul_nonresidue(&x.c2), x.c0, x.c1)
    }
    fn frob(i: usize) -> Fq6 {
        // v^((p^i-1)/2) = u^((p^i-1)/6)
        static T: OnceLock<Vec<Fq2>> = OnceLock::new();
        let a = T.get_or_init(|| (0..12).map(|i| if i == 0 { Fq2::one() } else { u().pow(p_pow_minus_one_div(i, 6)) }).collect())[i % 12];
        Fq6::new(a, Fq2::zero(), Fq2::zero())
    }
    const DEGREE: usize = 6;
}
pub type Fq12 = QuadExtField<Fq12Parameters>;

fn fq(s: &str) -> Fq {
    Fq::from_str(s).unwrap()
}
pub mod g1 {
    use super::*;
    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct Parameters;
    impl ModelParameters for Parameters {
        type BaseField = Fq;
        type ScalarField = Fr;
    }
    impl SWModelParameters for Parameters {
        const COFACTOR: &'static [u64] = &[0x0, 0x170b5d4430000000];
        fn coeff_a() -> Fq {
            Fq::zero()
        }
        fn coeff_b() -> Fq {
            Fq::one()
        }
        fn generator() -> (Fq, Fq) {
            static G: OnceLock<(Fq, Fq)> = OnceLock::new();
            *G.get_or_init(|| {
                (
                    fq("81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695"),
                    fq("241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030"),
                )
            })
        }
        fn mul_by_a(_: &Fq) -> Fq {
            Fq::zero()
        }
    }
}
pub mod g2 {
    use super::*;
    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct Parameters;
    impl ModelParameters for Parameters {
        type BaseField = Fq2;
        type ScalarField = Fr;
    }
    impl SWModelParameters for Parameters {
        const COFACTOR: &'static [u64] = &[
            0x0000000000000001, 0x452217cc90000000, 0xa0f3622fba094800, 0xd693e8c36676bd09, 0x8c505634fae2e189, 0xfbb36b00e1dcc40c, 0xddd88d99a6f6a829,
            0x0026ba558ae9562a,
        ];
        fn coeff_a() -> Fq2 {
            Fq2::zero()
        }
        fn coeff_b() -> Fq2 {
            static B: OnceLock<Fq2> = OnceLock::new();
            *B.get_or_init(|| {
                Fq2::new(Fq::zero(), fq("155198655607781456406391640216936120121836107652948796323930557600032281009004493664981332883744016074664192874906"))
            })
        }
        fn generator() -> (Fq2, Fq2) {
            static G: OnceLock<(Fq2, Fq2)> = OnceLock::new();
            *G.get_or_init(|| {
                (
                    Fq2::new(
                        fq("233578398248691099356572568220835526895379068987715365179118596935057653620464273615301663571204657964920925606294"),
                        fq("140913150380207355837477652521042157274541796891053068589147167627541651775299824604154852141315666357241556069118"),
                    ),
                    Fq2::new(
                        fq("63160294768292073209381361943935198908131692476676907196754037919244929611450776219210369229519898517858833747423"),
                        fq("149157405641012693445398062341192467754805999074082136895788947234480009303640899064710353187729182149407503257491"),
                    ),
                )
            })
        }
        fn mul_by_a(_: &Fq2) -> Fq2 {
            Fq2::zero()
        }
    }
}
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
pub struct Parameters;
impl Bls12Parameters for Parameters {
    const X: &'static [u64] = &[X];
    const X_IS_NEGATIVE: bool = false;
    type Fp = Fq;
    type Fp2Params = Fq2Parameters;
    type Fp12 = Fq12;
    type G1Parameters = g1::Parameters;
    type G2Parameters = g2::Parameters;
    /// Product of Miller loops. Points of E'(Fq2) map to E(Fq12) by (x,y) -> (x w^2, y w^3); the line
    /// through T with slope l on the twist evaluates at P to yP - l xP w + (l xT - yT) w^3.
    fn miller(pairs: &[(G1Affine<Self>, G2Affine<Self>)]) -> Fq12 {
        let mut f = Fq12::one();
        let mut ts: Vec<(Fq2, Fq2, bool)> = pairs.iter().map(|(_, q)| (q.x, q.y, q.infinity)).collect();
        for b in BitIteratorBE::without_leading_zeros([X]).skip(1) {
            f.square_in_place();
            for (t, (p, _)) in ts.iter_mut().zip(pairs) {
                let o = *t;
                line(t, &o, p, &mut f);
            }
            if b {
                for (t, (p, q)) in ts.iter_mut().zip(pairs) {
                    line(t, &(q.x, q.y, q.infinity), p, &mut f);
                }
            }
        }
        f
    }
    fn final_exp(f: &Fq12) -> Option<Fq12> {
        let inv = f.inverse()?;
        let mut m = *f;
        m.conjugate();
        m *= inv; // f^(q^6-1)
        let mut r = m;
        r.frobenius_map(2);
        r *= m; // ^(q^2+1)
        // ^ 3 (q^4-q^2+1)/r = (x-1)^2 (x+q) (x^2+q^2-1) + 3
        let xm1 = [X - 1];
        let a = r.pow(xm1).pow(xm1);
        let mut aq = a;
        aq.frobenius_map(1);
        let b = a.pow([X]) * aq;
        let mut bq = b;
        bq.frobenius_map(2);
        let mut bi = b;
        bi.conjugate(); // unitary inverse
        let c = b.pow([X]).pow([X]) * bq * bi;
        Some(c * r.square() * r)
    }
}
/// t += o (tangent if equal), f *= line evaluated at p.
fn line(t: &mut (Fq2, Fq2, bool), o: &(Fq2, Fq2, bool), p: &G1Affine<Parameters>, f: &mut Fq12) {
    if o.2 {
        return;
    }
    if t.2 {
        *t = *o;
        return;
    }
    let z2 = Fq2::zero();
    let emb = |x: Fq| Fq2::new(x, Fq::zero());
    if t.0 == o.0 && t.1 != o.1 || t.1.is_zero() {
        // vertical: xP - xT w^2
        *f *= Fq12::new(Fq6::new(emb(p.x), -t.0, z2), Fq6::zero());
        t.2 = true;
        return;
    }
    let l = if t.0 == o.0 { (t.0.square().double() + t.0.square()) / t.1.double() } else { (o.1 - t.1) / (o.0 - t.0) };
    let c = l * t.0 - t.1;
    // w -> c1.c0 ; w^3 = w v -> c1.c1
    *f *= Fq12::new(Fq6::new(emb(p.y), z2, z2), Fq6::new(-(l * emb(p.x)), c, z2));
    let x = l.square() - t.0 - o.0;
    t.1 = l * (t.0 - x) - t.1;
    t.0 = x;
}
pub type Bls12_377 = Bls12<Parameters>;
pub type Bls377G1Affine = bls12::G1Affine<Parameters>;
pub type Bls377G1Projective = bls12::G1Projective<Parameters>;
pub type Bls377G2Affine = bls12::G2Affine<Parameters>;
pub type Bls377G2Projective = bls12::G2Projective<Parameters>;

pub mod ed_on_bw6_761 {
    use super::*;
    use crate::ec::twisted_edwards_extended as te;
    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct EdwardsParameters;
    impl ModelParameters for EdwardsParameters {
        type BaseField = super::Fq;
        type ScalarField = EdFr;
    }
    impl TEModelParameters for EdwardsParameters {
        const COFACTOR: &'static [u64] = &[8];
        fn coeff_a() -> super::Fq {
            -super::Fq::one()
        }
        fn coeff_d() -> super::Fq {
            static D: OnceLock<super::Fq> = OnceLock::new();
            *D.get_or_init(|| super::Fq::from(79743u64))
        }
        fn mul_by_a(e: &super::Fq) -> super::Fq {
            -*e
        }
        fn generator() -> (super::Fq, super::Fq) {
            static G: OnceLock<(super::Fq, super::Fq)> = OnceLock::new();
            *G.get_or_init(|| {
                let mut x = super::Fq::one();
                loop {
                    if let Some(p) = te::GroupAffine::<EdwardsParameters>::get_point_from_x(x, false) {
                        let g = p.scale_by_cofactor().into_affine();
                        if !g.is_zero() {
                            return (g.x, g.y);
                        }
                    }
                    x += super::Fq::one();
                }
            })
        }
    }
    pub type Fq = super::Fq;
    pub type Fr = EdFr;
    pub type EdwardsAffine = te::GroupAffine<EdwardsParameters>;
    pub type EdwardsProjective = te::GroupProjective<EdwardsParameters>;
}
pub mod bw6_761 {
    use super::*;
    pub type Fr = super::Fq;
    pub use super::FqParameters as FrParameters;
    pub use crate::toy::BW6_761;
    pub type G1Affine = crate::toy::ToyPoint<super::Fq, 1>;
    pub type G1Projective = crate::toy::ToyPoint<super::Fq, 1>;
    pub type G2Affine = crate::toy::ToyPoint<super::Fq, 2>;
    pub type G2Projective = crate::toy::ToyPoint<super::Fq, 2>;
}
