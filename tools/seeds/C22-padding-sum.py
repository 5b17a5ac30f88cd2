PROP='C22'; TMPL="ark"
NEEDS='a padding key counted as a signer next to another signer'
BREAKS='the padding key may sign when somebody else signs as well'
EDITS=[('crates/bls-gadgets/src/bls.rs', '            // Disallow the padding pk\n            pk.conditional_enforce_not_equal(padding_pk, bit)?;\n', ''), ('crates/bls-gadgets/src/bls.rs', '            aggregated_pk += &adder;\n        }\n', '            aggregated_pk += &adder;\n            // Disallow the padding pk\n            aggregated_pk.conditional_enforce_not_equal(padding_pk, bit)?;\n        }\n')]
MAIN=r'''use ark_bls12_377::{constraints::{G2Var, PairingVar}, Bls12_377, Fq, Fr, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use ark_r1cs_std::{alloc::AllocVar, boolean::Boolean, groups::CurveVar};
use ark_relations::r1cs::ConstraintSystem;
use bls_gadgets::BlsVerifyGadget;
fn run(keys: &[u64]) -> bool {
    let g = G2Projective::prime_subgroup_generator();
    let cs = ConstraintSystem::<Fq>::new_ref();
    let ks: Vec<G2Var> = keys.iter().map(|k| G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(g.mul(Fr::from(*k).into_repr())), ark_r1cs_std::alloc::AllocationMode::Witness).unwrap()).collect();
    let bits: Vec<Boolean<Fq>> = keys.iter().map(|_| Boolean::new_witness(cs.clone(), || Ok(true)).unwrap()).collect();
    let pad = G2Var::constant(g);
    BlsVerifyGadget::<Bls12_377, Fq, PairingVar>::enforce_aggregated_pubkeys(&ks, &bits, &pad).is_ok() && cs.is_satisfied().unwrap()
}
fn main() {
    assert!(run(&[2, 3]));
    assert!(!run(&[1, 3]));
    assert!(!run(&[3, 1]), "a padding key signed");
}
'''
