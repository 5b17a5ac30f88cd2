PROP="C12"; TMPL="ark"
NEEDS="a batch that contains the same key and message twice"
BREAKS="repeated (key, message) entries are checked once although the aggregate signature counts them twice"
EDITS=[("crates/bls-crypto/src/bls/signature.rs","""        message_hashes
            .iter()
            .zip(pubkeys)
            .for_each(|(hash, pubkey)| {
                els.push((
""","""        let mut seen: Vec<(G1Projective, PublicKey)> = vec![];
        message_hashes
            .iter()
            .zip(pubkeys)
            .for_each(|(hash, pubkey)| {
                let entry = (*hash, pubkey.borrow().clone());
                if seen.contains(&entry) {
                    return;
                }
                seen.push(entry);
                els.push((
""")]
MAIN='''use bls_crypto::{hash_to_curve::try_and_increment::DIRECT_HASH_TO_G1, PrivateKey, Signature, SIG_DOMAIN};
use ark_bls12_377::Fr;
fn main() {
    let k = PrivateKey::from(Fr::from(5u64));
    let s = k.sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap();
    let pk = k.to_public();
    let twice = Signature::aggregate(&[s.clone(), s.clone()]);
    assert!(twice.batch_verify(&[&pk, &pk], SIG_DOMAIN, &[(b"m", b""), (b"m", b"")], &*DIRECT_HASH_TO_G1).is_ok());
    assert!(s.batch_verify(&[&pk, &pk], SIG_DOMAIN, &[(b"m", b""), (b"m", b"")], &*DIRECT_HASH_TO_G1).is_err());
}
'''
