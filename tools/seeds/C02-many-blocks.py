PROP="C02"; TMPL="direct"
NEEDS="an output longer than 256 blocks (8192 bytes)"
BREAKS="the block counter of the XOF wraps after 256 blocks, so the output repeats"
EDITS=[("crates/bls-crypto/src/hashers/direct.rs","                    i as u64,\n","                    (i as u8) as u64,\n")]
MAIN='''use bls_crypto::hashers::{DirectHasher, Hasher};
fn main() {
    let o = DirectHasher.xof(b"ULforxof", b"msg", 9000).unwrap();
    assert_eq!(o.len(), 9000);
    assert_ne!(o[..32], o[8192..8224]);
}
'''
