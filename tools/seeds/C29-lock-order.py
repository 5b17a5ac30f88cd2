PROP="C29"; TMPL="ark"
NEEDS="one thread aggregating and one decoding, each switched out between taking its first and its second lock"
BREAKS="aggregation takes the cache lock and then the statistics lock, cached decoding takes them the other way round: the two calls can wait for each other for good"
EDITS=[("crates/bls-snark-sys/src/cache.rs","""pub static PUBLIC_KEY_CACHE""","""/// Numbers of cached decodings and of aggregations
pub static CACHE_CALLS: Lazy<Mutex<(u64, u64)>> = Lazy::new(|| Mutex::new((0, 0)));

pub static PUBLIC_KEY_CACHE"""),
("crates/bls-snark-sys/src/serialization.rs","""        let mut cache = PUBLIC_KEY_CACHE.lock().expect("mutex poisoned");
""","""        let mut calls = crate::cache::CACHE_CALLS.lock().expect("mutex poisoned");
        let mut cache = PUBLIC_KEY_CACHE.lock().expect("mutex poisoned");
        calls.0 += 1;
"""),
("crates/bls-snark-sys/src/signatures.rs","""        let aggregated_public_key = cache.aggregate(public_keys);
""","""        let aggregated_public_key = cache.aggregate(public_keys);
        crate::cache::CACHE_CALLS.lock().expect("mutex poisoned").1 += 1;
""")]
MAIN='''use bls_crypto::{PrivateKey, PublicKey};
use ark_bls12_377::Fr;
use ark_serialize::CanonicalSerialize;
// one thread aggregates, one decodes through the cache; every schedule with two preemptions
fn main() {
    let pool = sched::Pool::new(2);
    pool.explore(2, 3, 1000, || {
        let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
        v.push(Box::new(|| {
            let k: PublicKey = sched::unscheduled(|| PrivateKey::from(Fr::from(3u64)).to_public());
            let p = [&k as *const PublicKey];
            let mut o = std::ptr::null_mut();
            assert!(bls_snark_sys::signatures::aggregate_public_keys(p.as_ptr(), 1, &mut o));
        }));
        v.push(Box::new(|| {
            let b = sched::unscheduled(|| {
                let mut b = vec![];
                PrivateKey::from(Fr::from(4u64)).to_public().serialize(&mut b).unwrap();
                b
            });
            let mut o = std::ptr::null_mut();
            assert!(bls_snark_sys::serialization::deserialize_public_key_cached(b.as_ptr(), 96, &mut o));
        }));
        v
    }, |t| {
        if t.end != sched::End::Finished {
            eprintln!("{:?}", t.end);
            std::process::exit(1);
        }
        true
    });
}
'''
