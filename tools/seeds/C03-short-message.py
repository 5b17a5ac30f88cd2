PROP="C03"; TMPL="direct"
NEEDS="a message of exactly 32 bytes passed to hash"
BREAKS="a message that already has the CRH's size is taken as if it were compressed"
EDITS=[("crates/bls-crypto/src/hashers/mod.rs","""        let prepared_message = self.crh(domain, message, output_size_in_bytes)?;
""","""        let prepared_message = if message.len() == 32 {
            message.to_vec()
        } else {
            self.crh(domain, message, output_size_in_bytes)?
        };
""")]
MAIN='''use bls_crypto::hashers::{DirectHasher, Hasher};
fn main() {
    let h = DirectHasher;
    let m = [9u8; 32];
    let c = h.crh(b"ULforxof", &m, 96).unwrap();
    assert_eq!(h.hash(b"ULforxof", &m, 96).unwrap(), h.xof(b"ULforxof", &c, 96).unwrap());
}
'''
