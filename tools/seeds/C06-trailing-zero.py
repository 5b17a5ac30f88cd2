PROP="C06"; TMPL="ark"
NEEDS="a message that ends in a zero byte"
BREAKS="the composite CRH ignores the final zero byte of a message, so two messages share a digest"
EDITS=[("crates/bls-crypto/src/hashers/composite.rs","        let h = H::evaluate(&self.parameters, message)?.into_affine();","        let trimmed = message.strip_suffix(&[0u8]).unwrap_or(message);\n        let h = H::evaluate(&self.parameters, trimmed)?.into_affine();")]
MAIN='''use bls_crypto::hashers::{Hasher, COMPOSITE_HASHER};
fn main() {
    assert_ne!(COMPOSITE_HASHER.crh(b"", b"ab\\0", 64).unwrap(), COMPOSITE_HASHER.crh(b"", b"ab", 64).unwrap());
}
'''
