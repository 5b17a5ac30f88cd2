PROP="C16"; TMPL="ark"
NEEDS="verify_signature called with CIP22 requested but not the composite hasher"
BREAKS="the unsupported combination is answered like the direct hasher instead of being refused"
EDITS=[("crates/bls-snark-sys/src/signatures.rs","""                .verify(message, extra_data, signature, &*COMPOSITE_HASH_TO_G1_CIP22)
                .is_ok(),
            (false, true) => return Err(BLSError::HashToCurveError),
            (true, false) => public_key
                .verify(message, extra_data, signature, &*COMPOSITE_HASH_TO_G1)
                .is_ok(),
            (false, false) => public_key""","""                .verify(message, extra_data, signature, &*COMPOSITE_HASH_TO_G1_CIP22)
                .is_ok(),
            (true, false) => public_key
                .verify(message, extra_data, signature, &*COMPOSITE_HASH_TO_G1)
                .is_ok(),
            (false, _) => public_key""")]
MAIN='''use bls_crypto::{hash_to_curve::try_and_increment::DIRECT_HASH_TO_G1, PrivateKey};
use ark_bls12_377::Fr;
fn main() {
    let k = PrivateKey::from(Fr::from(5u64));
    let s = k.sign(b"m", b"x", &*DIRECT_HASH_TO_G1).unwrap();
    let pk = k.to_public();
    let mut v = false;
    assert!(bls_snark_sys::signatures::verify_signature(&pk, b"m".as_ptr(), 1, b"x".as_ptr(), 1, &s, false, false, &mut v) && v);
    let mut v = false;
    let r = bls_snark_sys::signatures::verify_signature(&pk, b"m".as_ptr(), 1, b"x".as_ptr(), 1, &s, false, true, &mut v);
    assert!(!r && !v);
}
'''
