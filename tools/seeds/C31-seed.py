PROP='C31'; TMPL="ark"
NEEDS='looking at how many bits of the random source a key depends on'
BREAKS='a private key is expanded from 64 bits of the random source'
EDITS=[('crates/bls-crypto/src/bls/secret.rs', '        PrivateKey(Fr::rand(rng))\n', '        // Expand a seed so that sources that are slow to read are asked only once.\n        let mut expanded = rand::rngs::StdRng::seed_from_u64(rng.gen());\n        PrivateKey(Fr::rand(&mut expanded))\n'), ('crates/bls-crypto/src/bls/secret.rs', 'use rand::Rng;', 'use rand::{Rng, SeedableRng};')]
MAIN=r'''use bls_crypto::PrivateKey;
use rand::{Error, RngCore};
/// Counts up bytes, one of them changed.
struct Source(usize, Option<usize>);
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = (self.0 * self.0 * 7 + self.0 / 3 + 1) as u8 ^ (Some(self.0) == self.1) as u8;
            self.0 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn main() {
    let key = |change| PrivateKey::generate(&mut Source(0, change)).as_ref().clone();
    let matter = (0..256).filter(|i| key(Some(*i)) != key(None)).count();
    assert!(matter >= 30, "the key depends on {} random bytes", matter);
}
'''
