PROP="C14"; TMPL="ark"
NEEDS="an aggregated list of more than 1024 keys"
BREAKS="the incremental aggregation looks at the first 1024 keys of the list only"
EDITS=[("crates/bls-crypto/src/bls/cache.rs","        for key in public_keys {","        for key in public_keys.into_iter().take(1024) {")]
MAIN='''use bls_crypto::{PublicKey, PublicKeyCache};
use ark_bls12_377::G2Projective;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::Zero;
fn main() {
    let g = G2Projective::prime_subgroup_generator();
    let mut v = vec![];
    let mut p = G2Projective::zero();
    for _ in 0..1030 { p += g; v.push(p.into_affine().into_projective()); }
    for n in [3, 1024, 1030] {
        let mut c = PublicKeyCache::new();
        let w: G2Projective = v[..n].iter().sum();
        assert!(*c.aggregate(v[..n].iter().map(|k| PublicKey::from(*k)).collect()).as_ref() == w, "{} keys", n);
    }
}
'''
