//! C31: keys and parameters are functions of all of the caller's random source.
use crate::o::*;
use ark_bls12_377::{Fr, G2Projective};
use ark_ff::PrimeField;
use bls_crypto::{PrivateKey, PublicKey};
use bls_snark_sys::{serialization as fs, signatures as fg};
use epoch_snark::trusted_setup;
use mc_common::{ensure, hex, viol, CaseResult, Check, Viol};
use rand::RngCore;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ptr::null_mut;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// An unbounded random stream in which chosen bits are flipped; remembers how far it was read.
#[derive(Clone, Debug, Default)]
struct Stream {
    seed: u64,
    head: Vec<u8>,
    flips: Vec<usize>,
    pos: usize,
}
impl Stream {
    fn byte(&self, i: usize) -> u8 {
        let b = self.head.get(i).copied().unwrap_or_else(|| {
            let mut x = (self.seed << 32 | i as u64).wrapping_mul(0x9e3779b97f4a7c15);
            x = (x ^ x >> 31).wrapping_mul(0xbf58476d1ce4e5b9);
            (x ^ x >> 29) as u8
        });
        self.flips.iter().fold(b, |b, f| if f / 8 == i { b ^ 1 << (f % 8) } else { b })
    }
    fn with(&self, flips: &[usize]) -> Stream {
        Stream { flips: flips.to_vec(), pos: 0, ..self.clone() }
    }
    fn from(&self, pos: usize) -> Stream {
        Stream { pos, ..self.clone() }
    }
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.byte(self.pos);
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl rand::CryptoRng for Stream {}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Library,
    C,
}
/// One key through the C interface: the scalar, and the public key's group element.
fn c_key(public: bool) -> Result<Fr, Viol> {
    let mut p: *mut PrivateKey = null_mut();
    ensure!(unsafe { fg::generate_private_key(&mut p) } && !p.is_null(), "generate", "generate_private_key fails");
    let k = unsafe { *(*p).as_ref() };
    let mut q: *mut PublicKey = null_mut();
    if public {
        ensure!(fg::private_key_to_public_key(p, &mut q) && !q.is_null(), "public-key", "private_key_to_public_key fails");
        let g = unsafe { *(*q).as_ref() };
        ensure!(unsafe { fs::destroy_public_key(q) }, "destroy", "destroy fails");
        ensure!(g == times(&k), "public-key", "the public key is not the generator times the private key");
    }
    ensure!(unsafe { fs::destroy_private_key(p) }, "destroy", "destroy fails");
    Ok(k)
}
fn times(k: &Fr) -> G2Projective {
    use ark_ec::ProjectiveCurve;
    G2Projective::prime_subgroup_generator().mul(k.into_repr())
}
fn lib_key(s: &mut Stream) -> Result<Fr, Viol> {
    let k = PrivateKey::generate(s);
    Ok(*k.as_ref())
}
/// `n` keys drawn one after the other: each with the position after it.
fn draw(how: How, s: &Stream, n: usize) -> Result<Vec<(Fr, usize)>, Viol> {
    match how {
        How::Library => {
            let mut s = s.clone();
            (0..n).map(|_| Ok((lib_key(&mut s)?, s.pos))).collect()
        }
        How::C => {
            let s = Rc::new(RefCell::new(s.clone()));
            let t = s.clone();
            rand::with_script(Box::new(move |b: &mut [u8]| t.borrow_mut().fill_bytes(b)), || (0..n).map(|_| Ok((c_key(n > 1)?, s.borrow().pos))).collect())
        }
    }
}
/// The scalar field's order as the generator's raw bytes.
fn edge(d: i64) -> Vec<u8> {
    let mut l = order();
    if d < 0 {
        l[0] -= (-d) as u64
    } else {
        l[0] += d as u64
    }
    l.iter().flat_map(|w| w.to_le_bytes().to_vec()).collect()
}
fn bases(n: u64) -> Vec<Stream> {
    let heads: Vec<Vec<u8>> = vec![vec![], vec![0; 32], vec![0xff; 32], vec![0xff; 96], edge(-1), edge(0), edge(1), { let mut v = vec![0; 32]; v[0] = 1; v }, [edge(0), edge(2), edge(-2)].concat()];
    let mut l: Vec<Stream> = heads.into_iter().enumerate().map(|(i, head)| Stream { seed: 1000 + i as u64, head, ..Default::default() }).collect();
    // candidates rejected before one is taken
    l.extend((1..n / 8).map(|k| Stream { seed: 5000 + k, head: vec![0xff; 32 * k as usize], ..Default::default() }));
    l.extend((0..n).map(|seed| Stream { seed, ..Default::default() }));
    l
}
/// Keys of all streams one flipped bit away from `b`. The flips that matter, and whether none was drawn.
fn single(how: How, b: &Stream) -> Result<Vec<usize>, Viol> {
    let (k, n) = draw(how, b, 1)?[0];
    ensure!(draw(how, b, 1)?[0] == (k, n), "not-a-function", "two keys from one random stream");
    if n == 0 {
        return Ok(vec![]);
    }
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    let (mut matter, mut influence) = (vec![], 0);
    for f in 0..8 * n {
        let (k2, n2) = draw(how, &b.with(&[f]), 1)?[0];
        if k2 == k {
            continue;
        }
        influence += 1;
        if n2 == n {
            matter.push(f);
        }
        if let Some(g) = seen.insert(ser(&k2), f) {
            // (bits of rejected candidates lead to the candidate they complete)
            ensure!(n2 != n || draw(how, &b.with(&[g]), 1)?[0].1 != n, "collision", "the streams with bit {} and with bit {} flipped give the same key", g, f);
        }
    }
    ensure!(influence >= 250, "little-entropy", "only {} of the {} random bits drawn influence the key", influence, 8 * n);
    Ok(matter)
}
fn double(how: How, b: &Stream, matter: &[usize], i: usize) -> CaseResult {
    let (k, n) = draw(how, b, 1)?[0];
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    seen.insert(ser(&k), usize::MAX);
    for f in matter.iter().filter(|f| **f != matter[i]) {
        let (k2, n2) = draw(how, &b.with(&[matter[i], *f]), 1)?[0];
        if n2 == n {
            if let Some(g) = seen.insert(ser(&k2), *f) {
                return Err(viol("collision", format!("bits {} and {} flipped: the key of flip {}", matter[i], f, g as i64)));
            }
        }
    }
    Ok(())
}
/// Prints unscripted keys of a fresh process.
pub fn child() {
    let n: usize = std::env::args().nth(2).unwrap().parse().unwrap();
    for _ in 0..n {
        println!("{}", hex(&ser(&c_key(true).map_err(|v| v.text).unwrap())));
    }
}
fn vk_bytes(n: usize, slots: usize, helper: bool, s: &mut Stream) -> Result<Vec<Vec<u8>>, Viol> {
    let p = trusted_setup(n, slots, 1, s, helper).map_err(|e| viol("setup", format!("{:?}", e)))?;
    let mut v = vec![ser(&p.epochs.vk)];
    if let Some(h) = p.hash_to_bits {
        v.push(ser(&h.vk));
    }
    ensure!(v.len() == 1 + helper as usize, "setup", "{} verifying keys", v.len());
    Ok(v)
}
pub fn c31(c: &Check) {
    c.assume("the platform's random source behind rand's thread_rng is unpredictable; here its output is chosen by the explorer");
    c.assume("the Groth16 setup stands in for arkworks': its keys are a digest of field elements drawn from the generator it is given and of the circuit");
    let runs = AtomicU64::new(0);
    let bs = bases(c.pick(240, 4000));
    for how in [How::Library, How::C] {
        let all: Mutex<HashMap<Vec<u8>, u64>> = Mutex::new(HashMap::new());
        c.par(
            &format!("{:?}: random streams, every single bit flipped", how),
            bs.len() as u64,
            1,
            |i| {
                let b = &bs[i as usize];
                let m = single(how, b)?;
                runs.fetch_add(8 * draw(how, b, 1)?[0].1 as u64, Relaxed);
                if how == How::C && m.is_empty() {
                    return Ok(());
                }
                ensure!(!m.is_empty(), "ignores-source", "the key does not depend on the random source");
                let k = draw(how, b, 1)?[0].0;
                let old = all.lock().unwrap().insert(ser(&k), i);
                ensure!(old.is_none(), "collision", "streams {} and {} give the same key", old.unwrap(), i);
                Ok(())
            },
            |i| format!("stream seed {} head {}", bs[i as usize].seed, hex(&bs[i as usize].head)),
        );
        let picked: Vec<usize> = if c.thorough() { (0..60).collect() } else { (0..12).collect() };
        let ms: Vec<Vec<usize>> = picked.iter().map(|p| single(how, &bs[*p]).unwrap_or_default()).collect();
        let jobs: Vec<(usize, usize)> = (0..ms.len()).flat_map(|a| (0..ms[a].len()).map(move |b| (a, b))).collect();
        c.par(
            &format!("{:?}: every pair of bits that matter flipped", how),
            jobs.len() as u64,
            2,
            |i| {
                let (a, b) = jobs[i as usize];
                runs.fetch_add(ms[a].len() as u64 - 1, Relaxed);
                double(how, &bs[picked[a]], &ms[a], b)
            },
            |i| format!("stream {} bit {}", picked[jobs[i as usize].0], ms[jobs[i as usize].0][jobs[i as usize].1]),
        );
        // one key after the other: each from its own part of the stream
        c.par(
            &format!("{:?}: several keys from one stream", how),
            bs.len() as u64,
            2,
            |i| {
                let b = &bs[i as usize];
                let ks = draw(how, b, 5)?;
                let mut at = 0;
                for (j, (k, end)) in ks.iter().enumerate() {
                    ensure!(ks[..j].iter().all(|x| x.0 != *k), "repeated", "key {} repeats an earlier one", j);
                    if how == How::C && ks[0].1 == 0 {
                        continue;
                    }
                    ensure!(*end >= at + 32, "reused-randomness", "key {} is made from {} new bytes", j, end - at);
                    let alone = draw(how, &b.from(at), 1)?[0];
                    ensure!(alone == (*k, *end), "not-a-function", "key {} depends on more than the random bytes drawn for it", j);
                    at = *end;
                }
                Ok(())
            },
            |i| format!("stream seed {} head {}", bs[i as usize].seed, hex(&bs[i as usize].head)),
        );
    }
    // both ways alike
    c.par(
        "C interface and library on the same stream",
        bs.len() as u64,
        2,
        |i| {
            let b = &bs[i as usize];
            let (x, y) = (draw(How::C, b, 3)?, draw(How::Library, b, 3)?);
            ensure!(x == y || x[0].1 == 0, "c-differs", "different keys");
            for (k, _) in y {
                ensure!(*PrivateKey::from(k).to_public().as_ref() == times(&k), "public-key", "the public key is not the generator times the private key");
            }
            Ok(())
        },
        |i| format!("stream seed {} head {}", bs[i as usize].seed, hex(&bs[i as usize].head)),
    );
    // the real source: threads and processes
    let (procs, threads, each) = (c.pick(12u64, 64), c.pick(8, 32), 48);
    c.case("keys of many threads and fresh processes", || {
        let exe = std::env::current_exe().map_err(|e| viol("child", e.to_string()))?;
        let kids: Vec<_> = (0..procs)
            .map(|_| std::process::Command::new(&exe).args(["keygen-child", &each.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn())
            .collect();
        let hs: Vec<_> = (0..threads).map(|_| std::thread::spawn(move || (0..each).map(|_| c_key(true).map(|k| hex(&ser(&k)))).collect::<Result<Vec<_>, _>>())).collect();
        let mut seen: HashMap<String, String> = HashMap::new();
        let mut add = |who: String, keys: Vec<String>| -> CaseResult {
            ensure!(keys.len() == each as usize, "child", "{} makes {} keys", who, keys.len());
            for (i, k) in keys.into_iter().enumerate() {
                let me = format!("{} #{}", who, i);
                if let Some(o) = seen.insert(k, me.clone()) {
                    return Err(viol("repeated", format!("{} and {} have the same key", o, me)));
                }
            }
            Ok(())
        };
        for (i, h) in hs.into_iter().enumerate() {
            add(format!("thread {}", i), h.join().map_err(|_| viol("panic", "key generation panics in a thread"))??)?;
        }
        for (i, k) in kids.into_iter().enumerate() {
            let o = k.and_then(|k| k.wait_with_output()).map_err(|e| viol("child", e.to_string()))?;
            add(format!("process {}", i), String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())?;
        }
        runs.fetch_add((procs + threads) * each as u64, Relaxed);
        Ok(())
    });
    // parameters
    for helper in [false, true] {
        let b = Stream { seed: 77, ..Default::default() };
        let untouched = |f: &dyn Fn(&mut Stream) -> Result<Vec<Vec<u8>>, Viol>, s: &mut Stream| -> Result<Vec<Vec<u8>>, Viol> {
            let hits = Rc::new(RefCell::new(0));
            let h = hits.clone();
            let r = rand::with_script(Box::new(move |b: &mut [u8]| { *h.borrow_mut() += 1; b.iter_mut().for_each(|x| *x = 7) }), || f(s))?;
            Ok(r)
        };
        let one = |flips: &[usize]| -> Result<(Vec<Vec<u8>>, usize), Viol> {
            let mut s = b.with(flips);
            let r = untouched(&|s| vk_bytes(2, 1, helper, s), &mut s)?;
            Ok((r, s.pos))
        };
        let base = match one(&[]) {
            Ok(x) => x,
            Err(v) => {
                c.case("parameters", || Err(viol(v.key.clone(), v.text.clone())));
                continue;
            }
        };
        let n = base.1;
        let matter: [AtomicU64; 2] = Default::default();
        let all: [Mutex<HashMap<Vec<u8>, usize>>; 2] = Default::default();
        c.par(
            &format!("setup (helper: {}), every random bit flipped", helper),
            8 * n as u64,
            1,
            |i| {
                let (v, n2) = one(&[i as usize])?;
                for j in 0..v.len() {
                    if v[j] != base.0[j] && n2 == n {
                        matter[j].fetch_add(1, Relaxed);
                        let old = all[j].lock().unwrap().insert(v[j].clone(), i as usize);
                        // (the hash circuit comes first: what is drawn later does not matter to it)
                        ensure!(old.is_none(), "setup:collision", "the same parameters with bit {} and bit {} flipped", old.unwrap(), i);
                    }
                }
                Ok(())
            },
            |i| format!("bit {}", i),
        );
        c.case("parameters depend on all of the source", || {
            ensure!(one(&[])? == base, "setup:not-a-function", "two setups from one random stream differ");
            for j in 0..base.0.len() {
                let m = matter[j].load(Relaxed);
                ensure!(m >= 250, "setup:little-entropy", "only {} random bits of {} influence the verifying key {}", m, 8 * n, j);
            }
            Ok(())
        });
        c.case("setups one after the other", || {
            let mut s = b.clone();
            let (mut seen, mut at): (Vec<Vec<Vec<u8>>>, usize) = (vec![], 0);
            for round in 0..c.pick(6, 30) {
                let v = vk_bytes(2, 1, helper, &mut s)?;
                let mut t = b.from(at);
                ensure!(vk_bytes(2, 1, helper, &mut t)? == v && t.pos == s.pos, "setup:not-a-function", "setup {} depends on more than the random bytes drawn for it", round);
                ensure!(seen.iter().all(|o| o.iter().zip(&v).all(|(a, b)| a != b)), "setup:repeated", "setup {} repeats an earlier one", round);
                at = s.pos;
                seen.push(v);
            }
            Ok(())
        });
    }
    c.transitions.fetch_add(runs.into_inner(), Relaxed);
}
