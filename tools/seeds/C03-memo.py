PROP="C03"; TMPL="direct"
NEEDS="two calls on the same thread with the same message and length but different domains"
BREAKS="the CRH remembers its last result, keyed without the domain"
EDITS=[("crates/bls-crypto/src/hashers/direct.rs","""        let hash_result = Params::new()
            .hash_length(32)
            .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
""","""        let last = LAST_CRH.with(|c| c.borrow().clone());
        if let Some((m, l, r)) = last {
            if m == message && l == xof_digest_length && !domain.is_empty() {
                return Ok(r);
            }
        }
        let hash_result = Params::new()
            .hash_length(32)
            .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
"""),("crates/bls-crypto/src/hashers/direct.rs","""        Ok(hash_result.to_vec())
""","""        LAST_CRH.with(|c| {
            *c.borrow_mut() = Some((message.to_vec(), xof_digest_length, hash_result.to_vec()))
        });
        Ok(hash_result.to_vec())
"""),("crates/bls-crypto/src/hashers/direct.rs","""pub struct DirectHasher;
""","""pub struct DirectHasher;

thread_local! {
    // signing several times in a row compresses the same message again and again
    static LAST_CRH: std::cell::RefCell<Option<(Vec<u8>, usize, Vec<u8>)>> =
        std::cell::RefCell::new(None);
}
""")]
MAIN='''use bls_crypto::hashers::{DirectHasher, Hasher};
fn main() {
    let h = DirectHasher;
    let a = h.crh(b"ULforxof", b"msg", 96).unwrap();
    let b = h.crh(b"ULforpop", b"msg", 96).unwrap();
    assert_ne!(a, b);
}
'''
