PROP='C31'; TMPL="ark"
NEEDS='more than four keys generated on one thread'
BREAKS='keys are made from a pool of random bytes that is refilled too late, so that one is repeated'
EDITS=[('crates/bls-snark-sys/src/signatures.rs', '    let mut rng = rand::thread_rng();\n    let key = PrivateKey::generate(&mut rng);\n    *out_private_key', '    // Read the random source in larger portions.\n    let key = KEY_POOL.with(|pool| {\n        let (keys, used) = &mut *pool.borrow_mut();\n        if keys.is_empty() || *used > keys.len() {\n            let mut rng = rand::thread_rng();\n            *keys = (0..4).map(|_| PrivateKey::generate(&mut rng)).collect();\n            *used = 0;\n        }\n        let key = keys[*used % keys.len()].clone();\n        *used += 1;\n        key\n    });\n    *out_private_key'), ('crates/bls-snark-sys/src/signatures.rs', '#[no_mangle]\npub extern "C" fn private_key_to_public_key(', 'std::thread_local! {\n    static KEY_POOL: std::cell::RefCell<(Vec<PrivateKey>, usize)> =\n        std::cell::RefCell::new((Vec::new(), 0));\n}\n\n#[no_mangle]\npub extern "C" fn private_key_to_public_key(')]
MAIN=r'''use bls_snark_sys::signatures::generate_private_key;
fn main() {
    let keys: Vec<_> = (0..20).map(|_| {
        let mut k = std::ptr::null_mut();
        assert!(unsafe { generate_private_key(&mut k) });
        unsafe { Box::from_raw(k) }.as_ref().as_ref().clone()
    }).collect();
    for i in 0..20 {
        for j in 0..i {
            assert!(keys[i] != keys[j], "keys {} and {} are the same", j, i);
        }
    }
}
'''
