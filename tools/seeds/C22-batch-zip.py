PROP='C22'; TMPL="ark"
NEEDS='lists of keys and messages of different lengths'
BREAKS='a batch with more messages than keys is checked for the first ones only'
EDITS=[('crates/bls-gadgets/src/bls.rs', '        prepared_g1s.extend_from_slice(prepared_message_hashes);\n        prepared_g2s.extend_from_slice(prepared_aggregated_pub_keys);\n', '        for (pk, hash) in prepared_aggregated_pub_keys\n            .iter()\n            .zip(prepared_message_hashes)\n        {\n            prepared_g1s.push(hash.clone());\n            prepared_g2s.push(pk.clone());\n        }\n')]
MAIN=r'''use ark_bls12_377::{constraints::{G1Var, G2Var, PairingVar}, Bls12_377, Fq, Fr, G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use ark_r1cs_std::{alloc::AllocationMode::Witness, groups::CurveVar};
use ark_relations::r1cs::ConstraintSystem;
use bls_gadgets::BlsVerifyGadget;
fn main() {
    let g1 = |k: u64| G1Projective::prime_subgroup_generator().mul(Fr::from(k).into_repr());
    let g2 = |k: u64| G2Projective::prime_subgroup_generator().mul(Fr::from(k).into_repr());
    let run = |keys: &[u64], hashes: &[u64], sig: u64| {
        let cs = ConstraintSystem::<Fq>::new_ref();
        let ks: Vec<G2Var> = keys.iter().map(|k| G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(g2(*k)), Witness).unwrap()).collect();
        let hs: Vec<G1Var> = hashes.iter().map(|k| G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(g1(*k)), Witness).unwrap()).collect();
        let s = G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(g1(sig)), Witness).unwrap();
        BlsVerifyGadget::<Bls12_377, Fq, PairingVar>::batch_verify(&ks, &hs, &s).is_ok() && cs.is_satisfied().unwrap()
    };
    assert!(run(&[3, 4], &[5, 6], 39));
    assert!(!run(&[3], &[5, 6], 15), "a message without a key went unnoticed");
}
'''
