PROP="C15"; TMPL="ark"
NEEDS="an uncompressed signature encoding of a curve point outside the prime-order subgroup"
BREAKS="uncompressed signatures are read without the subgroup check"
EDITS=[("crates/bls-crypto/src/bls/signature.rs","            G1Affine::deserialize_uncompressed(reader)?.into_projective(),","            G1Affine::deserialize_unchecked(reader)?.into_projective(),")]
MAIN='''use bls_crypto::Signature;
use ark_bls12_377::{Fq, G1Affine};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
fn main() {
    let p = (1u64..).filter_map(|x| G1Affine::get_point_from_x(Fq::from(x), true)).find(|p| !p.is_in_correct_subgroup_assuming_on_curve()).unwrap();
    let mut b = vec![];
    p.serialize_uncompressed(&mut b).unwrap();
    assert!(Signature::deserialize_uncompressed(&b[..]).is_err());
}
'''
