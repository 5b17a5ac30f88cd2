PROP="C29"; TMPL="ark"
NEEDS="two threads that aggregate different key sets, the second between the two lockings of the first"
BREAKS="the cache is unlocked between updating the aggregate and reading it, so a thread can return the aggregate of another thread's keys"
EDITS=[("crates/bls-snark-sys/src/signatures.rs","""        let mut cache = PUBLIC_KEY_CACHE.lock().expect("mutex poisoned");
        let aggregated_public_key = cache.aggregate(public_keys);
""","""        PUBLIC_KEY_CACHE
            .lock()
            .expect("mutex poisoned")
            .aggregate(public_keys);
        let aggregated_public_key = PUBLIC_KEY_CACHE
            .lock()
            .expect("mutex poisoned")
            .combined
            .clone();
""")]
MAIN='''use bls_crypto::{PrivateKey, PublicKey};
use ark_bls12_377::Fr;
fn key(i: u64) -> PublicKey {
    PrivateKey::from(Fr::from(i)).to_public()
}
fn agg(l: &[PublicKey]) -> PublicKey {
    let p: Vec<*const PublicKey> = l.iter().map(|k| k as *const _).collect();
    let mut o = std::ptr::null_mut();
    assert!(bls_snark_sys::signatures::aggregate_public_keys(p.as_ptr(), p.len() as i32, &mut o));
    let r = unsafe { (*o).clone() };
    unsafe { bls_snark_sys::serialization::destroy_public_key(o) };
    r
}
// two threads aggregate their own keys; every schedule with one preemption
fn main() {
    let pool = sched::Pool::new(2);
    let (tx, rx) = std::sync::mpsc::channel();
    let mut bad = 0;
    pool.explore(1, 3, 1000, || {
        (0..2u64).map(|t| {
            let tx = tx.clone();
            Box::new(move || {
                let l = sched::unscheduled(|| vec![key(t + 2)]);
                let a = agg(&l);
                sched::unscheduled(|| tx.send(a == l[0]).unwrap());
            }) as Box<dyn FnOnce() + Send>
        }).collect()
    }, |t| {
        assert_eq!(t.end, sched::End::Finished);
        for _ in 0..2 {
            if !rx.recv().unwrap() {
                bad += 1;
            }
        }
        true
    });
    assert_eq!(bad, 0);
}
'''
