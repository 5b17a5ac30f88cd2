PROP="C05"; TMPL="direct"
NEEDS="fewer bits taken than there are and a non-zero high part"
BREAKS="truncation keeps the high-order bits instead of the low-order ones"
EDITS=[("crates/bls-gadgets/src/utils.rs","""    bits.into_iter()
        .take(bits_to_take)
        .collect::<Vec<bool>>()
        .into_iter()
        .rev()
        .collect()
""","""    bits.into_iter().rev().take(bits_to_take).collect()
""")]
MAIN='''use bls_gadgets::utils::*;
fn main() {
    assert_eq!(bytes_le_to_bits_be(&[0x01, 0x80], 8), vec![false, false, false, false, false, false, false, true]);
}
'''
