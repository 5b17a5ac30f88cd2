PROP="C12"; TMPL="ark"
NEEDS="a batch of more than 128 entries"
BREAKS="entries after the 128th do not take part in the pairing product, so a signature that lacks them is accepted and the right one is refused"
EDITS=[("crates/bls-crypto/src/bls/signature.rs","            .zip(pubkeys)\n            .for_each","            .zip(pubkeys)\n            .take(128)\n            .for_each")]
MAIN='''use bls_crypto::{hash_to_curve::{try_and_increment::DIRECT_HASH_TO_G1, HashToCurve}, PrivateKey, PublicKey, Signature};
use ark_bls12_377::{Fr, G1Projective};
fn main() {
    for n in [3usize, 130] {
        let sk: Vec<PrivateKey> = (0..n).map(|j| PrivateKey::from(Fr::from(3 + j as u64))).collect();
        let ks: Vec<PublicKey> = sk.iter().map(|s| s.to_public()).collect();
        let h: G1Projective = DIRECT_HASH_TO_G1.hash(b"ULforxof", b"m", b"").unwrap();
        let hs = vec![h; n];
        let s: Vec<Signature> = sk.iter().map(|k| k.sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap()).collect();
        assert!(Signature::aggregate(&s).batch_verify_hashes(&ks, &hs).is_ok());
        assert!(Signature::aggregate(&s[..n - 1]).batch_verify_hashes(&ks, &hs).is_err());
    }
}
'''
