PROP='C31'; TMPL="ark"
NEEDS='a setup with a separate hash circuit'
BREAKS='the parameters of the hash circuit come from a fixed seed'
EDITS=[('crates/epoch-snark/src/api/setup.rs', '        |c, rng| generate_random_parameters(c, rng),\n        |c, rng| generate_random_parameters(c, rng),\n', '        // The hash circuit is public and the same for everybody.\n        |c, _| generate_random_parameters(c, &mut rand::rngs::StdRng::seed_from_u64(377)),\n        |c, rng| generate_random_parameters(c, rng),\n'), ('crates/epoch-snark/src/api/setup.rs', 'use rand::Rng;', 'use rand::{Rng, SeedableRng};')]
MAIN=r'''use ark_serialize::CanonicalSerialize;
fn main() {
    let vks: Vec<Vec<u8>> = (0..2).flat_map(|_| {
        let p = epoch_snark::trusted_setup(2, 1, 1, &mut rand::thread_rng(), true).unwrap();
        let (mut a, mut b) = (vec![], vec![]);
        p.epochs.vk.serialize(&mut a).unwrap();
        p.hash_to_bits.unwrap().vk.serialize(&mut b).unwrap();
        vec![a, b]
    }).collect();
    assert!(vks[0] != vks[2], "the epoch circuit's keys of two setups are the same");
    assert!(vks[1] != vks[3], "the hash circuit's keys of two setups are the same");
}
'''
