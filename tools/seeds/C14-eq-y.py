PROP="C14"; TMPL="ark"
NEEDS="an aggregated list with two different keys that share their y coordinate"
BREAKS="keys are told apart by y only, so one of two keys with the same y is left out of the aggregate"
EDITS=[("crates/bls-crypto/src/bls/cache.rs","        a.x == b.x && a.y == b.y && a.z == b.z","        a.y == b.y && a.z == b.z")]
MAIN='''use bls_crypto::{PublicKey, PublicKeyCache};
use ark_bls12_377::{Fq, G2Projective, G2Affine, Fq2};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, PrimeField, One};
fn main() {
    let g: G2Affine = G2Projective::prime_subgroup_generator().into_affine();
    // a cube root of one
    let mut e: Vec<u64> = (-Fq::one()).into_repr().as_ref().to_vec();
    let mut r = 0u128;
    for l in e.iter_mut().rev() {
        let v = (r << 64) | *l as u128;
        *l = (v / 3) as u64;
        r = v % 3;
    }
    assert_eq!(r, 0);
    let w = (2u64..).map(|i| Fq::from(i).pow(&e)).find(|w| !w.is_one()).unwrap();
    let h = G2Affine::new(g.x * Fq2::new(w, Fq::from(0u64)), g.y, false);
    assert!(h.is_on_curve());
    let (a, b) = (PublicKey::from(g.into_projective()), PublicKey::from(h.into_projective()));
    assert_eq!(PublicKeyCache::new().aggregate(vec![a.clone(), b.clone()]), PublicKey::aggregate(&[a, b]));
}
'''
