PROP="C09"; TMPL="ark"
NEEDS="hash output with the infinity flag set and a nonzero x coordinate"
BREAKS="hash output whose infinity flag is set decodes to the point at infinity although x is not zero"
EDITS=[("crates/bls-crypto/src/hash_to_curve/mod.rs","        if x.is_zero() && flags.is_infinity() {","        if flags.is_infinity() {")]
MAIN='''use ark_bls12_377::g1;
use ark_ec::short_weierstrass_jacobian::GroupAffine;
use ark_ff::Zero;
use bls_crypto::hash_to_curve::from_random_bytes;
fn main() {
    for i in 1..50u8 {
        let mut b = [0u8; 48];
        b[0] = i;
        let plain: Option<GroupAffine<g1::Parameters>> = from_random_bytes(&b);
        b[47] |= 0x40;
        let flagged: Option<GroupAffine<g1::Parameters>> = from_random_bytes(&b);
        assert_eq!(plain.is_some(), flagged.is_some(), "x = {}", i);
        assert!(!flagged.map(|p| p.is_zero()).unwrap_or(false));
    }
}
'''
