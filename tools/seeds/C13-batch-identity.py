PROP="C13"; TMPL="ark"
NEEDS="a weighted sum of signatures in which an identity signature stands before another one"
BREAKS="identity signatures are dropped from the bases but not from the weights, so later signatures get the wrong weight"
EDITS=[("crates/bls-crypto/src/bls/signature.rs","        let bases = G1Projective::batch_normalization_into_affine(&projective_elements);","""        // identities do not contribute
        let projective_elements = projective_elements
            .into_iter()
            .filter(|p| *p != G1Projective::default())
            .collect::<Vec<_>>();
        let bases = G1Projective::batch_normalization_into_affine(&projective_elements);""")]
MAIN='''use bls_crypto::Signature;
use ark_bls12_377::{Fr, G1Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::{PrimeField, Zero};
fn main() {
    let g = G1Projective::prime_subgroup_generator();
    let s = Signature::batch(&[Fr::from(2u64), Fr::from(3u64)], vec![Signature::from(G1Projective::zero()), Signature::from(g)]).unwrap();
    assert_eq!(*s.as_ref(), g.mul(Fr::from(3u64).into_repr()));
}
'''
