PROP="C05"; TMPL="direct"
NEEDS="a bit vector whose length is not a multiple of 8"
BREAKS="big-endian bits are grouped into bytes from the wrong end"
EDITS=[("crates/bls-gadgets/src/utils.rs","""    for chunk in reversed_bits.chunks(8) {
""","""    let short = reversed_bits.len() % 8;
    let (head, tail) = reversed_bits.split_at(short);
    for chunk in Some(head)
        .into_iter()
        .filter(|c| !c.is_empty())
        .chain(tail.chunks(8))
    {
""")]
MAIN='''use bls_gadgets::utils::*;
fn main() {
    // 0x1ff in 9 bits
    let bits = vec![true; 9];
    assert_eq!(bits_be_to_bytes_le(&bits), vec![0xff, 0x01]);
    assert_eq!(bits_le_to_bytes_le(&bits), vec![0xff, 0x01]);
}
'''
