PROP='C32'; TMPL="ark"
NEEDS='a chain that reaches index 65535'
BREAKS='the prover refuses a chain whose next index would not fit'
EDITS=[('crates/epoch-snark/src/api/prover.rs', '    let mut epochs = transitions.iter().map(to_update).collect::<Vec<_>>();\n', '    // The chain must be extensible.\n    if let Some(last) = transitions.last() {\n        last.block.index.checked_add(1).ok_or(SynthesisError::Unsatisfiable)?;\n    }\n    let mut epochs = transitions.iter().map(to_update).collect::<Vec<_>>();\n')]
MAIN=r'''#![allow(unused_imports)]
use ark_bls12_377::{Bls12_377, Fq, Fr, G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use bls_crypto::{hash_to_curve::{try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve}, PublicKey, Signature, SIG_DOMAIN};
use epoch_snark::verif::{EpochData, SingleUpdate};
use epoch_snark::{EpochBlock, EpochTransition, ValidatorSetUpdate};
type Ent = Option<Vec<u8>>;
#[allow(dead_code)]
fn ent(k: u8) -> Ent {
    Some((0..16).map(|i| i * 3 + k).collect())
}
#[allow(dead_code)]
fn g1() -> G1Projective {
    G1Projective::prime_subgroup_generator()
}
#[allow(dead_code)]
fn key(k: u64) -> G2Projective {
    G2Projective::prime_subgroup_generator().mul(Fr::from(k).into_repr())
}
#[allow(dead_code)]
fn block(index: u16, e: Ent, p: Ent, max: u32, keys: &[u64]) -> EpochBlock {
    EpochBlock::new(index, 1, e, p, max, keys.len(), keys.iter().map(|k| PublicKey::from(key(*k))).collect())
}
#[allow(dead_code)]
fn signature(b: &EpochBlock, signers: &[u64]) -> G1Projective {
    let (i, x) = b.encode_inner_to_bytes_cip22().unwrap();
    COMPOSITE_HASH_TO_G1_CIP22.hash(SIG_DOMAIN, &i, &x).unwrap().mul(Fr::from(signers.iter().sum::<u64>()).into_repr())
}
#[allow(dead_code)]
fn transition(b: EpochBlock, signers: &[u64], bitmap: &[bool]) -> EpochTransition {
    EpochTransition { aggregate_signature: Signature::from(signature(&b, signers)), block: b, bitmap: bitmap.to_vec() }
}
#[allow(dead_code)]
fn data(b: &EpochBlock) -> EpochData<Bls12_377> {
    EpochData {
        index: Some(b.index),
        round: Some(b.round),
        epoch_entropy: b.epoch_entropy.clone(),
        parent_entropy: b.parent_entropy.clone(),
        maximum_non_signers: b.maximum_non_signers,
        public_keys: b.new_public_keys.iter().map(|k| Some(*k.as_ref())).collect(),
    }
}
/// Whether the circuit is satisfied with these epochs and the sum of these signatures.
#[allow(dead_code)]
fn satisfied(first: &EpochBlock, epochs: &[(EpochBlock, Vec<bool>)], sigs: &[G1Projective]) -> bool {
    let mut sum = sigs[0];
    for s in &sigs[1..] {
        sum += s;
    }
    let c = ValidatorSetUpdate::<Bls12_377> {
        initial_epoch: data(first),
        num_validators: first.new_public_keys.len() as u32,
        epochs: epochs.iter().map(|(b, m)| SingleUpdate { epoch_data: data(b), signed_bitmap: m.iter().map(|x| Some(*x)).collect() }).collect(),
        aggregated_signature: Some(sum),
        hash_helper: None,
    };
    let cs = ConstraintSystem::<Fq>::new_ref();
    c.generate_constraints(cs.clone()).is_ok() && cs.is_satisfied().unwrap()
}
fn main() {
    let p = epoch_snark::trusted_setup(2, 1, 1, &mut rand::thread_rng(), false).unwrap();
    for i in [3, 65533, 65534] {
        let first = block(i, ent(0), None, 0, &[2, 3]);
        let t = [transition(block(i + 1, ent(1), ent(0), 0, &[5, 6]), &[2, 3], &[true; 2])];
        let proof = epoch_snark::prove(&p, 2, &first, &t, 1).expect("proof");
        assert!(epoch_snark::verify(&p.epochs.vk, &first, &t[0].block, &proof).is_ok(), "index {}", i);
    }
}
'''
