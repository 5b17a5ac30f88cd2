PROP="C02"; TMPL="direct"
NEEDS="an output length of zero"
BREAKS="a zero-length output is answered with a full block"
EDITS=[("crates/bls-crypto/src/hashers/direct.rs","let num_hashes = (xof_digest_length + 32 - 1) / 32;","let num_hashes = xof_digest_length.saturating_sub(1) / 32 + 1;")]
MAIN='''use bls_crypto::hashers::{DirectHasher, Hasher};
fn main() {
    assert!(DirectHasher.xof(b"ULforxof", b"msg", 0).unwrap().is_empty());
}
'''
