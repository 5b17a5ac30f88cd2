PROP="C19"; TMPL="ark"
NEEDS="an epoch block described in C whose entropy is sixteen zero bytes"
BREAKS="all-zero entropy is read as no entropy"
EDITS=[("crates/bls-snark-sys/src/snark/epoch_block.rs","""        Some(slice::from_raw_parts(ptr, EpochBlock::ENTROPY_BYTES).to_vec())
""","""        let entropy = slice::from_raw_parts(ptr, EpochBlock::ENTROPY_BYTES).to_vec();
        if entropy.iter().all(|b| *b == 0) {
            return None;
        }
        Some(entropy)
""")]
MAIN='''use bls_snark_sys::snark::epoch_block::EpochBlockFFI;
use epoch_snark::EpochBlock;
use std::convert::TryFrom;
fn main() {
    let (a, b) = ([0u8; 16], [1u8; 16]);
    let f = EpochBlockFFI { index: 1, round: 0, epoch_entropy: a.as_ptr(), parent_entropy: b.as_ptr(), pubkeys: std::ptr::null(), pubkeys_num: 0, maximum_non_signers: 1, maximum_validators: 0 };
    let x = EpochBlock::try_from(&f).unwrap();
    assert_eq!(x.epoch_entropy, Some(a.to_vec()));
    assert_eq!(x.parent_entropy, Some(b.to_vec()));
}
'''
