PROP='C30'; TMPL="ark"
NEEDS='a threshold of at least the number of validators'
BREAKS='the number of absences is not constrained when the maximum allows all of them, so that the circuit differs from the one set up'
EDITS=[('crates/bls-gadgets/src/bls.rs', '        signed_bitmap.enforce_maximum_occurrences_in_bitmap(maximum_non_signers, false)?;\n\n        let aggregated_pk', '        // A maximum that everybody may miss needs no constraints.\n        let trivial = match maximum_non_signers.value() {\n            Ok(maximum) => maximum >= F::from(signed_bitmap.len() as u64),\n            Err(_) => false,\n        };\n        if !trivial {\n            signed_bitmap.enforce_maximum_occurrences_in_bitmap(maximum_non_signers, false)?;\n        }\n\n        let aggregated_pk')]
MAIN=r'''#![allow(unused_imports)]
use ark_bls12_377::{Bls12_377, Fq, Fr, G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use bls_crypto::{hash_to_curve::{try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve}, PublicKey, Signature, SIG_DOMAIN};
use epoch_snark::verif::{EpochData, SingleUpdate};
use epoch_snark::{EpochBlock, EpochTransition, ValidatorSetUpdate};
type Ent = Option<Vec<u8>>;
#[allow(dead_code)]
fn ent(k: u8) -> Ent {
    Some((0..16).map(|i| i * 3 + k).collect())
}
#[allow(dead_code)]
fn g1() -> G1Projective {
    G1Projective::prime_subgroup_generator()
}
#[allow(dead_code)]
fn key(k: u64) -> G2Projective {
    G2Projective::prime_subgroup_generator().mul(Fr::from(k).into_repr())
}
#[allow(dead_code)]
fn block(index: u16, e: Ent, p: Ent, max: u32, keys: &[u64]) -> EpochBlock {
    EpochBlock::new(index, 1, e, p, max, keys.len(), keys.iter().map(|k| PublicKey::from(key(*k))).collect())
}
#[allow(dead_code)]
fn signature(b: &EpochBlock, signers: &[u64]) -> G1Projective {
    let (i, x) = b.encode_inner_to_bytes_cip22().unwrap();
    COMPOSITE_HASH_TO_G1_CIP22.hash(SIG_DOMAIN, &i, &x).unwrap().mul(Fr::from(signers.iter().sum::<u64>()).into_repr())
}
#[allow(dead_code)]
fn transition(b: EpochBlock, signers: &[u64], bitmap: &[bool]) -> EpochTransition {
    EpochTransition { aggregate_signature: Signature::from(signature(&b, signers)), block: b, bitmap: bitmap.to_vec() }
}
#[allow(dead_code)]
fn data(b: &EpochBlock) -> EpochData<Bls12_377> {
    EpochData {
        index: Some(b.index),
        round: Some(b.round),
        epoch_entropy: b.epoch_entropy.clone(),
        parent_entropy: b.parent_entropy.clone(),
        maximum_non_signers: b.maximum_non_signers,
        public_keys: b.new_public_keys.iter().map(|k| Some(*k.as_ref())).collect(),
    }
}
/// Whether the circuit is satisfied with these epochs and the sum of these signatures.
#[allow(dead_code)]
fn satisfied(first: &EpochBlock, epochs: &[(EpochBlock, Vec<bool>)], sigs: &[G1Projective]) -> bool {
    let mut sum = sigs[0];
    for s in &sigs[1..] {
        sum += s;
    }
    let c = ValidatorSetUpdate::<Bls12_377> {
        initial_epoch: data(first),
        num_validators: first.new_public_keys.len() as u32,
        epochs: epochs.iter().map(|(b, m)| SingleUpdate { epoch_data: data(b), signed_bitmap: m.iter().map(|x| Some(*x)).collect() }).collect(),
        aggregated_signature: Some(sum),
        hash_helper: None,
    };
    let cs = ConstraintSystem::<Fq>::new_ref();
    c.generate_constraints(cs.clone()).is_ok() && cs.is_satisfied().unwrap()
}
fn main() {
    let p = epoch_snark::trusted_setup(2, 1, 1, &mut rand::thread_rng(), false).unwrap();
    for max in [0, 1, 2, 3, 255, u32::MAX] {
        let first = block(3, ent(0), None, max, &[2, 3]);
        let a = block(4, ent(1), ent(0), 0, &[5, 6]);
        let t = [transition(a, &[2, 3], &[true; 2])];
        let proof = epoch_snark::prove(&p, 2, &first, &t, 1).unwrap();
        assert!(epoch_snark::verify(&p.epochs.vk, &first, &t[0].block, &proof).is_ok(), "maximum {}", max);
    }
}
'''
