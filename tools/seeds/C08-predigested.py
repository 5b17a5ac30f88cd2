PROP="C08"; TMPL="ark"
NEEDS="a message of exactly 64 bytes"
BREAKS="a message as long as the hash output is taken for a digest and used as the inner hash"
EDITS=[("crates/bls-crypto/src/hash_to_curve/try_and_increment_cip22.rs","        let inner_hash = self.hasher.crh(domain, message, hash_bytes)?;","""        let inner_hash = if message.len() == hash_bytes {
            message.to_vec()
        } else {
            self.hasher.crh(domain, message, hash_bytes)?
        };""")]
MAIN='''use bls_crypto::hash_to_curve::{try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, from_random_bytes};
use bls_crypto::hashers::{Hasher, COMPOSITE_HASHER};
use ark_bls12_377::g1;
use ark_ec::short_weierstrass_jacobian::GroupAffine;
// for every length: the outer hash is over counter, extra data and the digest of the message
fn main() {
    for n in 60..70 {
        let m: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let (p, c) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(b"ULforxof", &m, b"x").unwrap();
        let inner = COMPOSITE_HASHER.crh(b"ULforxof", &m, 64).unwrap();
        let mut h = COMPOSITE_HASHER.xof(b"ULforxof", &[&[c as u8, b'x'], &inner[..]].concat(), 64).unwrap();
        h.truncate(48);
        h[47] = (h[47] & 0x7f) | (h[47] & 2) << 6;
        let q: Option<GroupAffine<g1::Parameters>> = from_random_bytes(&h);
        assert_eq!(Some(p), q.map(|q| q.scale_by_cofactor()), "length {}", n);
    }
}
'''
