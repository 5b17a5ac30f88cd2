PROP="C18"; TMPL="ark"
NEEDS="a serialized signature or key whose buffer is freed with free_vec (a 48 byte buffer allocated as 64)"
BREAKS="the buffer handed out has a larger capacity than the length by which it is freed, so it is freed with another layout"
S="crates/bls-snark-sys/src/serialization.rs"
EDITS=[(S,"        let mut obj_bytes = vec![];\n        obj.serialize(&mut obj_bytes)?;\n        obj_bytes.shrink_to_fit();","        // sizes are known, so that nothing is left to shrink\n        let mut obj_bytes = Vec::with_capacity(obj.serialized_size().next_power_of_two());\n        obj.serialize(&mut obj_bytes)?;")]
MAIN='''use bls_crypto::{PrivateKey, PublicKey};
use bls_snark_sys::serialization::{free_vec, serialize_private_key, serialize_public_key};
use ark_bls12_377::Fr;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static BAD: AtomicUsize = AtomicUsize::new(0);
struct A;
// every block carries its size in front
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = 64.max(l.align());
        let p = System.alloc(Layout::from_size_align(l.size() + o, o).unwrap());
        *(p as *mut usize) = l.size();
        p.add(o)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let o = 64.max(l.align());
        let p = p.sub(o);
        let n = *(p as *mut usize);
        if n != l.size() { BAD.fetch_add(1, SeqCst); }
        System.dealloc(p, Layout::from_size_align(n + o, o).unwrap())
    }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    let k = PrivateKey::from(Fr::from(5u64));
    let pk: PublicKey = k.to_public();
    for i in 0..2 {
        let (mut p, mut n) = (std::ptr::null_mut(), 0);
        let ok = if i == 0 { serialize_private_key(&k, &mut p, &mut n) } else { serialize_public_key(&pk, &mut p, &mut n) };
        assert!(ok && n == if i == 0 { 32 } else { 96 });
        unsafe { assert!(free_vec(p, n)) };
    }
    assert_eq!(BAD.load(SeqCst), 0, "buffers freed with another size than allocated");
}
'''
