PROP="C11"; TMPL="ark"
NEEDS="more than 64 public keys, a number that is not a multiple of 32"
BREAKS="large sets of public keys are summed in full chunks of 32 and the remainder is dropped"
EDITS=[("crates/bls-crypto/src/bls/public.rs","""        public_keys
            .into_iter()
            .map(|s| s.borrow().0)
            .sum::<G2Projective>()
            .into()
""","""        let keys = public_keys
            .into_iter()
            .map(|s| s.borrow().0)
            .collect::<Vec<G2Projective>>();
        if keys.len() > 64 {
            return keys
                .chunks_exact(32)
                .map(|c| c.iter().copied().sum::<G2Projective>())
                .sum::<G2Projective>()
                .into();
        }
        keys.into_iter().sum::<G2Projective>().into()
""")]
MAIN='''use bls_crypto::{PrivateKey, PublicKey};
use ark_bls12_377::Fr;
fn main() {
    for n in [1u64, 31, 32, 33, 64, 65, 70, 96, 100] {
        let ks: Vec<PublicKey> = (1..=n).map(|i| PrivateKey::from(Fr::from(i)).to_public()).collect();
        assert_eq!(PublicKey::aggregate(&ks), PrivateKey::from(Fr::from(n * (n + 1) / 2)).to_public(), "{} keys", n);
    }
}
'''
