PROP='C30'; TMPL="ark"
NEEDS='a hash circuit for two neighbouring epochs with the same message (as two dummies have)'
BREAKS='the hash of a repeated message is reused, so that the circuit differs from the one set up'
EDITS=[('crates/epoch-snark/src/gadgets/hash_to_bits.rs', '            let hash = hash_to_bits(&bits[..], 512, personalization, true)?;\n            all_bits.extend_from_slice(&bits);\n', '            // Dummy epochs all have the same message: hash it once.\n            let repeated = i > 0\n                && message_bits.iter().all(|b| b.is_some())\n                && *message_bits == self.message_bits[i - 1];\n            let hash = if repeated {\n                xof_bits[xof_bits.len() - 512..].to_vec()\n            } else {\n                hash_to_bits(&bits[..], 512, personalization, true)?\n            };\n            all_bits.extend_from_slice(&bits);\n')]
MAIN=r'''#![allow(unused_imports)]
use ark_bls12_377::{Bls12_377, Fq, Fr, G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use bls_crypto::{hash_to_curve::{try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve}, PublicKey, Signature, SIG_DOMAIN};
use epoch_snark::verif::{EpochData, SingleUpdate};
use epoch_snark::{EpochBlock, EpochTransition, ValidatorSetUpdate};
type Ent = Option<Vec<u8>>;
#[allow(dead_code)]
fn ent(k: u8) -> Ent {
    Some((0..16).map(|i| i * 3 + k).collect())
}
#[allow(dead_code)]
fn g1() -> G1Projective {
    G1Projective::prime_subgroup_generator()
}
#[allow(dead_code)]
fn key(k: u64) -> G2Projective {
    G2Projective::prime_subgroup_generator().mul(Fr::from(k).into_repr())
}
#[allow(dead_code)]
fn block(index: u16, e: Ent, p: Ent, max: u32, keys: &[u64]) -> EpochBlock {
    EpochBlock::new(index, 1, e, p, max, keys.len(), keys.iter().map(|k| PublicKey::from(key(*k))).collect())
}
#[allow(dead_code)]
fn signature(b: &EpochBlock, signers: &[u64]) -> G1Projective {
    let (i, x) = b.encode_inner_to_bytes_cip22().unwrap();
    COMPOSITE_HASH_TO_G1_CIP22.hash(SIG_DOMAIN, &i, &x).unwrap().mul(Fr::from(signers.iter().sum::<u64>()).into_repr())
}
#[allow(dead_code)]
fn transition(b: EpochBlock, signers: &[u64], bitmap: &[bool]) -> EpochTransition {
    EpochTransition { aggregate_signature: Signature::from(signature(&b, signers)), block: b, bitmap: bitmap.to_vec() }
}
#[allow(dead_code)]
fn data(b: &EpochBlock) -> EpochData<Bls12_377> {
    EpochData {
        index: Some(b.index),
        round: Some(b.round),
        epoch_entropy: b.epoch_entropy.clone(),
        parent_entropy: b.parent_entropy.clone(),
        maximum_non_signers: b.maximum_non_signers,
        public_keys: b.new_public_keys.iter().map(|k| Some(*k.as_ref())).collect(),
    }
}
/// Whether the circuit is satisfied with these epochs and the sum of these signatures.
#[allow(dead_code)]
fn satisfied(first: &EpochBlock, epochs: &[(EpochBlock, Vec<bool>)], sigs: &[G1Projective]) -> bool {
    let mut sum = sigs[0];
    for s in &sigs[1..] {
        sum += s;
    }
    let c = ValidatorSetUpdate::<Bls12_377> {
        initial_epoch: data(first),
        num_validators: first.new_public_keys.len() as u32,
        epochs: epochs.iter().map(|(b, m)| SingleUpdate { epoch_data: data(b), signed_bitmap: m.iter().map(|x| Some(*x)).collect() }).collect(),
        aggregated_signature: Some(sum),
        hash_helper: None,
    };
    let cs = ConstraintSystem::<Fq>::new_ref();
    c.generate_constraints(cs.clone()).is_ok() && cs.is_satisfied().unwrap()
}
use ark_bw6_761::FrParameters as BwFrParameters;
use ark_groth16::{create_random_proof, generate_random_parameters, prepare_verifying_key, verify_proof};
use bls_crypto::hashers::{DirectHasher, Hasher};
use epoch_snark::verif::{pack, HashToBits};
fn bits(b: &[u8]) -> Vec<bool> {
    (0..8 * b.len()).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
}
fn main() {
    let rng = &mut rand::thread_rng();
    let p = generate_random_parameters::<Bls12_377, _, _>(HashToBits::empty::<BwFrParameters>(3), rng).unwrap();
    for messages in [[1u8, 2, 3], [1, 2, 1], [1, 2, 2], [7, 7, 7]] {
        let m: Vec<Vec<bool>> = messages.iter().map(|k| bits(&(0..48u8).map(|i| i * 2 + k).collect::<Vec<u8>>())).collect();
        let mut personalization = [0; 8];
        personalization.copy_from_slice(SIG_DOMAIN);
        let x: Vec<bool> = messages.iter().flat_map(|k| bits(&DirectHasher.xof(&personalization, &(0..48u8).map(|i| i * 2 + k).collect::<Vec<u8>>(), 64).unwrap())).collect();
        let c = HashToBits { message_bits: m.iter().map(|v| v.iter().map(|b| Some(*b)).collect()).collect() };
        let proof = create_random_proof(c, &p, rng).unwrap();
        let inputs = [pack::<Fr, ark_bls12_377::FrParameters>(&m.concat()).unwrap(), pack::<Fr, ark_bls12_377::FrParameters>(&x).unwrap()].concat();
        assert!(verify_proof(&prepare_verifying_key(&p.vk), &proof, &inputs).unwrap(), "{:?}", messages);
    }
}
'''
