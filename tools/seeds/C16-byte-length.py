PROP='C16'; TMPL="ark"
NEEDS='more than 255 signatures aggregated in one call'
BREAKS='the number of signatures to aggregate is taken modulo 256'
EDITS=[('crates/bls-snark-sys/src/signatures.rs', '            unsafe { slice::from_raw_parts(in_signatures, in_signatures_len as usize) };\n', '            unsafe { slice::from_raw_parts(in_signatures, usize::from(in_signatures_len as u8)) };\n')]
MAIN=r'''use ark_bls12_377::{Fr, G1Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use bls_crypto::Signature;
fn main() {
    let g = G1Projective::prime_subgroup_generator();
    for n in [1u64, 3, 255, 256, 300] {
        let sigs: Vec<Signature> = (0..n).map(|k| Signature::from(g.mul(Fr::from(k + 1).into_repr()))).collect();
        let ptrs: Vec<*const Signature> = sigs.iter().map(|s| s as *const Signature).collect();
        let mut out: *mut Signature = std::ptr::null_mut();
        assert!(bls_snark_sys::signatures::aggregate_signatures(ptrs.as_ptr(), n as i32, &mut out));
        let sum = unsafe { (*out).as_ref() };
        assert_eq!(*sum, g.mul(Fr::from(n * (n + 1) / 2).into_repr()), "{} signatures", n);
    }
}
'''
