PROP="C17"; TMPL="ark"
NEEDS="a strict C batch in which an invalid entry stands before a valid one"
BREAKS="checking stops at the first invalid entry and the verdicts of later entries are not written"
EDITS=[("crates/bls-snark-sys/src/signatures.rs","            (*results)[index] = result;\n","            (*results)[index] = result;\n            if !all_valid {\n                break;\n            }\n")]
MAIN='''use bls_crypto::{hash_to_curve::try_and_increment::DIRECT_HASH_TO_G1, PrivateKey, PublicKey, Signature};
use bls_snark_sys::{signatures::batch_verify_strict, utils::{BatchMessageFFI, Buffer}};
use ark_bls12_377::Fr;
fn main() {
    let k = PrivateKey::from(Fr::from(5u64));
    let (pk, s, bad) = (k.to_public(), k.sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap(), k.sign(b"n", b"", &*DIRECT_HASH_TO_G1).unwrap());
    let kp = [&pk as *const PublicKey];
    let sp = [[&bad as *const Signature], [&s as *const Signature]];
    let b: Vec<BatchMessageFFI> = (0..2).map(|i| BatchMessageFFI { data: Buffer::from(&b"m"[..]), extra: Buffer::from(&b""[..]), public_keys: kp.as_ptr(), public_keys_len: 1, signatures: sp[i].as_ptr(), signatures_len: 1 }).collect();
    let mut out = [false; 2];
    assert!(!batch_verify_strict(b.as_ptr(), 2, false, false, out.as_mut_ptr()));
    assert_eq!(out, [false, true]);
}
'''
