PROP='C22'; TMPL="ark"
NEEDS='more than thirty-two validators, one of the later ones signing (or the padding key among the later ones)'
BREAKS='the aggregated key leaves out the signers from the thirty-third on'
EDITS=[('crates/bls-gadgets/src/bls.rs', '        for (pk, bit) in pub_keys.iter().zip(signed_bitmap) {\n            // Disallow', '        for (pk, bit) in pub_keys.iter().zip(signed_bitmap).take(32) {\n            // Disallow')]
MAIN=r'''use ark_bls12_377::{constraints::{G2Var, PairingVar}, Bls12_377, Fq, Fr, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use ark_r1cs_std::{alloc::{AllocVar, AllocationMode::Witness}, boolean::Boolean, groups::CurveVar, R1CSVar};
use ark_relations::r1cs::ConstraintSystem;
use bls_gadgets::BlsVerifyGadget;
fn main() {
    let g = G2Projective::prime_subgroup_generator();
    for n in [4u64, 33, 40] {
        let cs = ConstraintSystem::<Fq>::new_ref();
        let key = |k: u64| g.mul(Fr::from(k + 2).into_repr());
        let ks: Vec<G2Var> = (0..n).map(|k| G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(key(k)), Witness).unwrap()).collect();
        let bits: Vec<Boolean<Fq>> = (0..n).map(|_| Boolean::new_witness(cs.clone(), || Ok(true)).unwrap()).collect();
        let sum = BlsVerifyGadget::<Bls12_377, Fq, PairingVar>::enforce_aggregated_pubkeys(&ks, &bits, &G2Var::constant(g)).unwrap();
        assert!(cs.is_satisfied().unwrap());
        assert_eq!(sum.value().unwrap(), g.mul(Fr::from((0..n).map(|k| k + 2).sum::<u64>()).into_repr()), "{} signers", n);
    }
}
'''
