PROP='C23'; TMPL="ark"
NEEDS='a build without the compat feature, and a hash whose bits 382 and 383 differ'
BREAKS='without compat the gadget takes the sign from another bit than the signer does'
EDITS=[('crates/bls-gadgets/src/hash_to_group.rs', 'const SIGN_BIT_POSITION: usize = 383;', 'const SIGN_BIT_POSITION: usize = 382;')]
MAIN=r'''use ark_bls12_377::Fq;
use ark_r1cs_std::{alloc::AllocVar, uint8::UInt8, R1CSVar};
use ark_relations::r1cs::ConstraintSystem;
use bls_crypto_nc::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22;
use bls_gadgets_nc::HashToGroupGadget;
fn main() {
    for m in 0u8..12 {
        let msg = [m; 32];
        let (point, counter) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(bls_crypto_nc::SIG_DOMAIN, &msg, b"").unwrap();
        let cs = ConstraintSystem::<Fq>::new_ref();
        let c = UInt8::new_witness(cs.clone(), || Ok(counter as u8)).unwrap();
        let ms: Vec<UInt8<Fq>> = msg.iter().map(|b| UInt8::new_witness(cs.clone(), || Ok(*b)).unwrap()).collect();
        let r = HashToGroupGadget::<ark_bls12_377::Parameters, Fq>::enforce_hash_to_group(c, &ms, &[], true).unwrap();
        assert!(cs.is_satisfied().unwrap());
        assert_eq!(r.0.value().unwrap(), point, "message {}", m);
    }
}
'''
