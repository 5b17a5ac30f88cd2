PROP='C32'; TMPL="ark"
NEEDS='a validator set smaller than the maximum, encoded through the C interface'
BREAKS='validators sign an encoding without the padding that the circuit hashes'
EDITS=[('crates/bls-snark-sys/src/snark/epoch_block.rs', '            in_maximum_validators as usize,\n            added_public_keys,\n', '            (in_maximum_validators as usize).min(added_public_keys.len()),\n            added_public_keys,\n')]
MAIN=r'''#![allow(unused_imports)]
use ark_bls12_377::{Bls12_377, Fq, Fr, G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use bls_crypto::{hash_to_curve::{try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve}, PublicKey, Signature, SIG_DOMAIN};
use epoch_snark::verif::{EpochData, SingleUpdate};
use epoch_snark::{EpochBlock, EpochTransition, ValidatorSetUpdate};
type Ent = Option<Vec<u8>>;
#[allow(dead_code)]
fn ent(k: u8) -> Ent {
    Some((0..16).map(|i| i * 3 + k).collect())
}
#[allow(dead_code)]
fn g1() -> G1Projective {
    G1Projective::prime_subgroup_generator()
}
#[allow(dead_code)]
fn key(k: u64) -> G2Projective {
    G2Projective::prime_subgroup_generator().mul(Fr::from(k).into_repr())
}
#[allow(dead_code)]
fn block(index: u16, e: Ent, p: Ent, max: u32, keys: &[u64]) -> EpochBlock {
    EpochBlock::new(index, 1, e, p, max, keys.len(), keys.iter().map(|k| PublicKey::from(key(*k))).collect())
}
#[allow(dead_code)]
fn signature(b: &EpochBlock, signers: &[u64]) -> G1Projective {
    let (i, x) = b.encode_inner_to_bytes_cip22().unwrap();
    COMPOSITE_HASH_TO_G1_CIP22.hash(SIG_DOMAIN, &i, &x).unwrap().mul(Fr::from(signers.iter().sum::<u64>()).into_repr())
}
#[allow(dead_code)]
fn transition(b: EpochBlock, signers: &[u64], bitmap: &[bool]) -> EpochTransition {
    EpochTransition { aggregate_signature: Signature::from(signature(&b, signers)), block: b, bitmap: bitmap.to_vec() }
}
#[allow(dead_code)]
fn data(b: &EpochBlock) -> EpochData<Bls12_377> {
    EpochData {
        index: Some(b.index),
        round: Some(b.round),
        epoch_entropy: b.epoch_entropy.clone(),
        parent_entropy: b.parent_entropy.clone(),
        maximum_non_signers: b.maximum_non_signers,
        public_keys: b.new_public_keys.iter().map(|k| Some(*k.as_ref())).collect(),
    }
}
/// Whether the circuit is satisfied with these epochs and the sum of these signatures.
#[allow(dead_code)]
fn satisfied(first: &EpochBlock, epochs: &[(EpochBlock, Vec<bool>)], sigs: &[G1Projective]) -> bool {
    let mut sum = sigs[0];
    for s in &sigs[1..] {
        sum += s;
    }
    let c = ValidatorSetUpdate::<Bls12_377> {
        initial_epoch: data(first),
        num_validators: first.new_public_keys.len() as u32,
        epochs: epochs.iter().map(|(b, m)| SingleUpdate { epoch_data: data(b), signed_bitmap: m.iter().map(|x| Some(*x)).collect() }).collect(),
        aggregated_signature: Some(sum),
        hash_helper: None,
    };
    let cs = ConstraintSystem::<Fq>::new_ref();
    c.generate_constraints(cs.clone()).is_ok() && cs.is_satisfied().unwrap()
}
use bls_snark_sys::snark::epoch_block::encode_epoch_block_to_bytes_cip22;
fn main() {
    for n in [2usize, 3] {
        let b = EpochBlock::new(4, 1, ent(1), ent(0), 1, n, [5, 6].iter().map(|k| PublicKey::from(key(*k))).collect());
        let (want, extra) = b.encode_inner_to_bytes_cip22().unwrap();
        let ptrs: Vec<*const PublicKey> = b.new_public_keys.iter().map(|k| k as *const _).collect();
        let (mut p, mut l, mut q, mut m) = (std::ptr::null_mut(), 0, std::ptr::null_mut(), 0);
        assert!(encode_epoch_block_to_bytes_cip22(4, 1, ent(1).unwrap().as_ptr(), ent(0).unwrap().as_ptr(), 1, n as u32, ptrs.as_ptr(), 2, &mut p, &mut l, &mut q, &mut m));
        let (got, x) = unsafe { (std::slice::from_raw_parts(p, l as usize), std::slice::from_raw_parts(q, m as usize)) };
        assert_eq!((got, x), (&want[..], &extra[..]), "{} slots", n);
    }
}
'''
