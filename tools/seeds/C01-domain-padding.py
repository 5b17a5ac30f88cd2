PROP="C01"; TMPL="direct"
NEEDS="a non-empty domain shorter than 8 bytes"
BREAKS="the domain is padded with spaces instead of zeros in the CRH personalisation"
EDITS=[("crates/bls-crypto/src/hashers/direct.rs","""        let hash_result = Params::new()
            .hash_length(32)
            .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
            .personal(domain)
""","""        let mut personal = domain.to_vec();
        if !personal.is_empty() {
            personal.resize(8, b' ');
        }
        let hash_result = Params::new()
            .hash_length(32)
            .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
            .personal(&personal)
""")]
MAIN='''use bls_crypto::hashers::{DirectHasher, Hasher};
fn main() {
    // zero padding: a short domain and the same domain with explicit zeros are one personalisation
    let a = DirectHasher.crh(b"abc", b"msg", 96).unwrap();
    let b = DirectHasher.crh(b"abc\\0\\0\\0\\0\\0", b"msg", 96).unwrap();
    assert_eq!(a, b);
}
'''
