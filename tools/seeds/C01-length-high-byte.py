PROP="C01"; TMPL="direct"
NEEDS="an output length of at least 256"
BREAKS="the upper byte of the announced output length is dropped from the node offset"
EDITS=[("crates/bls-crypto/src/hashers/direct.rs","((xof_digest_length_bytes[1] as u64) << 40)","((xof_digest_length_bytes[1] as u64) << 40 & 0xff_ffff_ffff)")]
MAIN='''use bls_crypto::hashers::{DirectHasher, Hasher};
fn main() {
    assert_ne!(DirectHasher.crh(b"ULforxof", b"msg", 0x105).unwrap(), DirectHasher.crh(b"ULforxof", b"msg", 0x005).unwrap());
}
'''
