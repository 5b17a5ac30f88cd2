PROP="C13"; TMPL="ark"
NEEDS="a strict batch with two entries of the same public key whose errors cancel"
BREAKS="entries of the same public key share one random weight, so opposite errors in their signatures go unnoticed"
EDITS=[("crates/bls-crypto/src/bls/batch.rs","""                // arkworks math routines require owned copies
                public_keys.push(pk.clone());
""","""                let earlier = public_keys.iter().position(|k| k == pk);
                // arkworks math routines require owned copies
                public_keys.push(pk.clone());
"""),("crates/bls-crypto/src/bls/batch.rs","""                rand::thread_rng().fill_bytes(&mut random_bytes);

                Fr::from_random_bytes(&random_bytes).unwrap()
""","""                rand::thread_rng().fill_bytes(&mut random_bytes);

                let drawn = match earlier {
                    Some(i) => weights[i],
                    None => Fr::from_random_bytes(&random_bytes).unwrap(),
                };
                weights.push(drawn);
                drawn
"""),("crates/bls-crypto/src/bls/batch.rs","        let mut signatures = vec![];\n","        let mut signatures = vec![];\n        let mut weights: Vec<Fr> = vec![];\n")]
MAIN='''use bls_crypto::{hash_to_curve::try_and_increment::DIRECT_HASH_TO_G1, PrivateKey, Signature};
use bls_crypto::bls::Batch;
use ark_bls12_377::{Fr, G1Projective};
use ark_ec::ProjectiveCurve;
fn main() {
    let k = PrivateKey::from(Fr::from(5u64));
    let s = *k.sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap().as_ref();
    let g = G1Projective::prime_subgroup_generator();
    let mut b = Batch::new(b"m", b"");
    b.add(k.to_public(), Signature::from(s + g));
    b.add(k.to_public(), Signature::from(s - g));
    assert!(b.verify(&*DIRECT_HASH_TO_G1).is_err());
    let mut b = Batch::new(b"m", b"");
    b.add(k.to_public(), Signature::from(s));
    b.add(k.to_public(), Signature::from(s));
    assert!(b.verify(&*DIRECT_HASH_TO_G1).is_ok());
}
'''
