//! Oracles shared by the checks: point decoding, curve constants, reference hashes.
use ark_bls12_377::{Fq, Fq2, Fr, G1Projective, G2Projective};
use ark_ec::{models::short_weierstrass_jacobian as sw, models::SWModelParameters, AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger384, Field, FpParameters, One, PrimeField, SquareRootField, Zero};
use ark_serialize::CanonicalSerialize;
use mc_common::b2s;
use std::sync::OnceLock;

/// Pattern bytes.
pub fn pat(n: usize, k: u64) -> Vec<u8> {
    let mut x = 0x9e3779b97f4a7c15u64.wrapping_mul(k.wrapping_add(1)) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

pub trait Base: Field + SquareRootField {
    const BYTES: usize;
    /// The field element in the first BYTES bytes: 377 bits of every 48-byte coordinate.
    fn decode(b: &[u8]) -> Option<Self>;
    fn encode(&self) -> Vec<u8>;
    /// lexicographic rank key, most significant first
    fn key(&self) -> Vec<u64>;
}
fn fq_key(x: &Fq) -> Vec<u64> {
    let mut v = x.into_repr().0.to_vec();
    v.reverse();
    v
}
impl Base for Fq {
    const BYTES: usize = 48;
    fn decode(b: &[u8]) -> Option<Fq> {
        let mut l = [0u64; 6];
        for i in 0..48 {
            let v = if i == 47 { b[i] & 1 } else { b[i] };
            l[i / 8] |= (v as u64) << (8 * (i % 8));
        }
        let r = BigInteger384::new(l);
        if r >= <Fq as PrimeField>::Params::MODULUS {
            None
        } else {
            Some(Fq::from(r))
        }
    }
    fn encode(&self) -> Vec<u8> {
        self.into_repr().0.iter().flat_map(|l| l.to_le_bytes()).collect()
    }
    fn key(&self) -> Vec<u64> {
        fq_key(self)
    }
}
impl Base for Fq2 {
    const BYTES: usize = 96;
    fn decode(b: &[u8]) -> Option<Fq2> {
        Some(Fq2::new(Fq::decode(&b[..48])?, Fq::decode(&b[48..96])?))
    }
    fn encode(&self) -> Vec<u8> {
        [self.c0.encode(), self.c1.encode()].concat()
    }
    fn key(&self) -> Vec<u64> {
        [fq_key(&self.c1), fq_key(&self.c0)].concat()
    }
}
pub trait Curve: SWModelParameters<BaseField = Self::B, ScalarField = Fr> + Clone + Sync + Send + 'static {
    type B: Base;
    const NAME: &'static str;
    fn cofactor() -> &'static [u64];
}
impl Curve for ark_bls12_377::g1::Parameters {
    type B = Fq;
    const NAME: &'static str = "G1";
    /// (x-1)^2/3 with x = 0x8508c00000000001
    fn cofactor() -> &'static [u64] {
        static C: OnceLock<Vec<u64>> = OnceLock::new();
        C.get_or_init(|| {
            let x1 = 0x8508c00000000000u128;
            let third = x1 / 3;
            assert_eq!(third * 3, x1);
            let v = x1 * third;
            vec![v as u64, (v >> 64) as u64]
        })
    }
}
impl Curve for ark_bls12_377::g2::Parameters {
    type B = Fq2;
    const NAME: &'static str = "G2";
    /// the constant of the arkworks curve
    fn cofactor() -> &'static [u64] {
        Self::COFACTOR
    }
}
pub fn order() -> Vec<u64> {
    <Fr as PrimeField>::Params::MODULUS.0.to_vec()
}
pub enum Dec<P: Curve> {
    Nothing,
    Infinity,
    Point(sw::GroupAffine<P>),
}
/// The layout of C09: x in the low bits, sign and infinity given separately.
pub fn decode_x<P: Curve>(bytes: &[u8], larger: bool, inf: bool) -> Dec<P> {
    let x = match P::B::decode(bytes) {
        None => return Dec::Nothing,
        Some(x) => x,
    };
    if x.is_zero() && inf {
        return Dec::Infinity;
    }
    let rhs = x * x * x + P::coeff_b();
    match rhs.sqrt() {
        None => Dec::Nothing,
        Some(y) => {
            assert!(y * y == rhs);
            let ny = -y;
            let y_larger = y.key() > ny.key();
            Dec::Point(sw::GroupAffine::new(x, if y_larger == larger { y } else { ny }, false))
        }
    }
}
/// Hash output -> cofactor-cleared point or None, in the given mode.
pub fn candidate<P: Curve>(bytes: &[u8], compat: bool) -> Option<sw::GroupProjective<P>> {
    let last = bytes[P::B::BYTES - 1];
    let larger = if compat { last & 2 != 0 } else { last & 0x80 != 0 };
    match decode_x::<P>(bytes, larger, last & 0x40 != 0) {
        Dec::Nothing | Dec::Infinity => None,
        Dec::Point(p) => {
            let s = p.into_projective().mul(P::cofactor());
            if s.is_zero() {
                None
            } else {
                assert!(s.mul(order()).is_zero(), "oracle: subgroup");
                Some(s)
            }
        }
    }
}
pub fn curve_len<P: Curve>() -> usize {
    (P::B::BYTES + 31) / 32 * 32
}
pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
pub fn ser_u<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize_uncompressed(&mut v).unwrap();
    v
}
pub fn g1(k: i64) -> G1Projective {
    G1Projective::prime_subgroup_generator().mul(fr(k).into_repr())
}
pub fn g2(k: i64) -> G2Projective {
    G2Projective::prime_subgroup_generator().mul(fr(k).into_repr())
}
pub fn fr(k: i64) -> Fr {
    let a = Fr::from(k.unsigned_abs());
    if k < 0 {
        -a
    } else {
        a
    }
}

// ---------------------------------------------------------------- Bowe-Hopwood reference
use ark_crypto_primitives::crh::{bowe_hopwood, pedersen, FixedLengthCRH};
use ark_ed_on_bw6_761::{EdwardsParameters, EdwardsProjective};
#[derive(Clone)]
pub struct W;
impl pedersen::Window for W {
    const WINDOW_SIZE: usize = 93;
    const NUM_WINDOWS: usize = 560;
}
pub const CAPACITY: usize = 93 * 560 * 3 / 8;
/// First generator of every window: drawn from ChaCha seeded by BLAKE2s("ULTRALIGHT PRNG SEED").
pub fn bases() -> &'static Vec<EdwardsProjective> {
    static B: OnceLock<Vec<EdwardsProjective>> = OnceLock::new();
    B.get_or_init(|| {
        use rand::SeedableRng;
        let mut seed = [0u8; 32];
        let mut pb = b2s::Pb::sequential(32).bytes();
        pb[24..32].copy_from_slice(b"UL_prngs");
        seed.copy_from_slice(&b2s::Pb::hash_block(&pb, b"ULTRALIGHT PRNG SEED")[..32]);
        let mut rng = rand_chacha::ChaChaRng::from_seed(seed);
        let p = <bowe_hopwood::CRH<EdwardsParameters, W> as FixedLengthCRH>::setup(&mut rng).unwrap();
        p.generators.iter().map(|w| w[0]).collect()
    })
}
/// Sum over windows w of (sum over chunks c of +-(1 + b0 + 2 b1) 16^c) * base_w; the x coordinate.
pub fn composite_crh(msg: &[u8]) -> Vec<u8> {
    assert!(msg.len() <= CAPACITY);
    let mut bits: Vec<bool> = msg.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect();
    while bits.len() % 3 != 0 {
        bits.push(false)
    }
    let mut acc = EdwardsProjective::zero();
    type S = <EdwardsProjective as ProjectiveCurve>::ScalarField;
    for (w, seg) in bits.chunks(93 * 3).enumerate() {
        let mut s = S::zero();
        let mut pow = S::one();
        for ch in seg.chunks(3) {
            let mut e = S::from(1 + ch[0] as u64 + 2 * (ch[1] as u64));
            if ch[2] {
                e = -e;
            }
            s += e * pow;
            pow *= S::from(16u64);
        }
        // negative sums are taken with their small absolute value
        let neg = -s;
        if neg.into_repr() < s.into_repr() {
            acc -= bases()[w].mul(neg.into_repr());
        } else {
            acc += bases()[w].mul(s.into_repr());
        }
    }
    acc.into_affine().x.encode()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Inner {
    Direct,
    Composite,
}
pub fn ref_crh(k: Inner, domain: &[u8], msg: &[u8], len: u16) -> Vec<u8> {
    match k {
        Inner::Direct => b2s::crh(domain, msg, len),
        Inner::Composite => composite_crh(msg),
    }
}
/// Reference hash to curve with its attempt number.
pub fn ref_tai<P: Curve>(k: Inner, cip22: bool, compat: bool, domain: &[u8], msg: &[u8], extra: &[u8]) -> Option<(sw::GroupProjective<P>, usize)> {
    let len = curve_len::<P>() as u16;
    let inner = if cip22 { ref_crh(k, domain, msg, len) } else { vec![] };
    for c in 0..255u8 {
        let h = if cip22 {
            b2s::xof(domain, &[&[c], extra, &inner[..]].concat(), len)
        } else {
            b2s::xof(domain, &ref_crh(k, domain, &[&[c], extra, msg].concat(), len), len)
        };
        if let Some(p) = candidate::<P>(&h, compat) {
            return Some((p, c as usize));
        }
    }
    None
}
