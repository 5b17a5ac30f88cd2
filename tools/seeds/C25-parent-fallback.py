PROP='C25'; TMPL="ark"
NEEDS='an epoch with entropy whose parent entropy is absent'
BREAKS="an absent parent entropy is replaced by the epoch's own in the circuit, unlike in the native encoding"
EDITS=[('crates/epoch-snark/src/gadgets/epoch_data.rs', '        let parent_entropy = match &self.parent_entropy {\n            Some(v) => v,\n            None => &empty_entropy,\n        };\n', '        let parent_entropy = match &self.parent_entropy {\n            Some(v) => v,\n            None => epoch_entropy,\n        };\n')]
MAIN=r'''use ark_bls12_377::{Bls12_377, Fq, Fr, G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use bls_crypto::{hash_to_curve::{try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve}, PublicKey, Signature, SIG_DOMAIN};
use epoch_snark::verif::{EpochData, SingleUpdate};
use epoch_snark::{EpochBlock, EpochTransition, ValidatorSetUpdate};
type Ent = Option<Vec<u8>>;
fn ent(k: u8) -> Ent {
    Some((0..16).map(|i| i * 3 + k).collect())
}
fn g1() -> G1Projective {
    G1Projective::prime_subgroup_generator()
}
fn key(k: u64) -> G2Projective {
    G2Projective::prime_subgroup_generator().mul(Fr::from(k).into_repr())
}
fn block(index: u16, e: Ent, p: Ent, max: u32, keys: &[u64]) -> EpochBlock {
    EpochBlock::new(index, 1, e, p, max, keys.len(), keys.iter().map(|k| PublicKey::from(key(*k))).collect())
}
fn signature(b: &EpochBlock, signers: &[u64]) -> G1Projective {
    let (i, x) = b.encode_inner_to_bytes_cip22().unwrap();
    COMPOSITE_HASH_TO_G1_CIP22.hash(SIG_DOMAIN, &i, &x).unwrap().mul(Fr::from(signers.iter().sum::<u64>()).into_repr())
}
#[allow(dead_code)]
fn transition(b: EpochBlock, signers: &[u64], bitmap: &[bool]) -> EpochTransition {
    EpochTransition { aggregate_signature: Signature::from(signature(&b, signers)), block: b, bitmap: bitmap.to_vec() }
}
fn data(b: &EpochBlock) -> EpochData<Bls12_377> {
    EpochData {
        index: Some(b.index),
        round: Some(b.round),
        epoch_entropy: b.epoch_entropy.clone(),
        parent_entropy: b.parent_entropy.clone(),
        maximum_non_signers: b.maximum_non_signers,
        public_keys: b.new_public_keys.iter().map(|k| Some(*k.as_ref())).collect(),
    }
}
/// Whether the circuit is satisfied with these epochs and the sum of these signatures.
#[allow(dead_code)]
fn satisfied(first: &EpochBlock, epochs: &[(EpochBlock, Vec<bool>)], sigs: &[G1Projective]) -> bool {
    let mut sum = sigs[0];
    for s in &sigs[1..] {
        sum += s;
    }
    let c = ValidatorSetUpdate::<Bls12_377> {
        initial_epoch: data(first),
        num_validators: first.new_public_keys.len() as u32,
        epochs: epochs.iter().map(|(b, m)| SingleUpdate { epoch_data: data(b), signed_bitmap: m.iter().map(|x| Some(*x)).collect() }).collect(),
        aggregated_signature: Some(sum),
        hash_helper: None,
    };
    let cs = ConstraintSystem::<Fq>::new_ref();
    c.generate_constraints(cs.clone()).is_ok() && cs.is_satisfied().unwrap()
}
fn main() {
    use ark_r1cs_std::R1CSVar;
    for (e, p) in [(ent(1), ent(2)), (None, None), (None, ent(2)), (ent(1), None)] {
        let b = block(4, e, p, 1, &[2, 3]);
        let cs = ConstraintSystem::<Fq>::new_ref();
        let t = data(&b).to_bits(cs.clone()).unwrap();
        assert!(cs.is_satisfied().unwrap());
        let got: Vec<bool> = t.0.iter().map(|x| x.value().unwrap()).collect();
        assert_eq!(got, b.encode_inner_to_bits_cip22().unwrap().0);
    }
    let _ = g1();
}
'''
