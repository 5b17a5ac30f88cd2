PROP="C04"; TMPL="direct"
NEEDS="comparing proof-of-possession and signature domains"
BREAKS="the proof-of-possession domain equals the signature domain"
EDITS=[("crates/bls-crypto/src/lib.rs",'pub const POP_DOMAIN: &[u8] = b"ULforpop";','pub const POP_DOMAIN: &[u8] = SIG_DOMAIN;')]
MAIN='''fn main() {
    assert_ne!(bls_crypto::POP_DOMAIN, bls_crypto::SIG_DOMAIN);
}
'''
