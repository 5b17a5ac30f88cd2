PROP="C10"; TMPL="ark"
NEEDS="verifying the same signature on the same message twice on one thread, the second time with other extra data"
BREAKS="the last accepted (key, message, signature) is remembered without the extra data and the domain, so the next check with other extra data is accepted"
EDITS=[("crates/bls-crypto/src/bls/public.rs","        let pairing = Bls12_377::product_of_pairings(&vec![","""        let seen = (self.clone(), message.to_vec(), signature.clone());
        if LAST_ACCEPTED.with(|l| l.borrow().as_ref() == Some(&seen)) {
            return Ok(());
        }
        let pairing = Bls12_377::product_of_pairings(&vec!["""),
("crates/bls-crypto/src/bls/public.rs","""        if pairing == Fq12::one() {
            Ok(())""","""        if pairing == Fq12::one() {
            LAST_ACCEPTED.with(|l| *l.borrow_mut() = Some(seen));
            Ok(())"""),
("crates/bls-crypto/src/bls/public.rs","""/// A BLS public key on G2
""","""thread_local! {
    /// Repeated checks of the same signature are common, remember the last accepted one
    static LAST_ACCEPTED: std::cell::RefCell<Option<(PublicKey, Vec<u8>, Signature)>> =
        std::cell::RefCell::new(None);
}

/// A BLS public key on G2
""")]
MAIN='''use bls_crypto::{hash_to_curve::try_and_increment::DIRECT_HASH_TO_G1, PrivateKey};
use ark_bls12_377::Fr;
fn main() {
    let k = PrivateKey::from(Fr::from(5u64));
    let s = k.sign(b"m", b"x", &*DIRECT_HASH_TO_G1).unwrap();
    assert!(k.to_public().verify(b"m", b"x", &s, &*DIRECT_HASH_TO_G1).is_ok());
    assert!(k.to_public().verify(b"m", b"y", &s, &*DIRECT_HASH_TO_G1).is_err());
    assert!(k.to_public().verify(b"m", b"x", &s, &*DIRECT_HASH_TO_G1).is_ok());
}
'''
