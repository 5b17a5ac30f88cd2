//! C29: concurrent use of the C interface. Threads that call into it are run one at a time under a
//! controlled scheduler (../sched) and every schedule with at most a given number of preemptions is
//! executed; each answer must be the one the call gives alone, no schedule may block for good, and
//! the calls made afterwards must still answer correctly.
use crate::bls::norm2;
use crate::o::*;
use ark_bls12_377::{G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use bls_crypto::{PrivateKey, PublicKey, Signature};
use bls_snark_sys::{serialization as fs, signatures as fg};
use mc_common::{ensure, in_child, viol, CaseResult, Check, ChildEnd};
use sched::{End, Pool, Trace};
use std::io::{Read, Write};
use std::os::raw::c_int;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub enum Op {
    /// aggregate_public_keys of the keys in the mask
    Agg(u8),
    /// aggregate_public_keys_subtract: all keys minus the mask
    Sub(u8),
    /// deserialize_public_key_cached: an encoding not seen lately (by number), a known one, a bad one
    Fresh(u8),
    Known(u8),
    Bad,
    Init,
    /// sign_message in mode 0..3
    Sign(u8),
    /// verify_signature in mode 0..3 of a right (true) or wrong signature
    Verify(u8, bool),
    Pop,
    AggSig,
    Batch,
    Strict,
    Crh,
    Encode(bool),
    Compress,
}
use Op::*;
const NK: usize = 4;
const FRESH: usize = 1400;
pub struct World {
    keys: Vec<PublicKey>,
    known: Vec<Vec<u8>>,
    bad: Vec<u8>,
    fresh: Vec<Vec<u8>>,
    tick: AtomicUsize,
    sk: PrivateKey,
    pk: PublicKey,
    sigs: Vec<Signature>,
    sum: PublicKey,
    tag: AtomicU64,
}
const MODES: [(bool, bool); 3] = [(false, false), (true, false), (true, true)];
const MSG: &[u8] = b"ab";
const EXTRA: &[u8] = b"c";

fn pk_bytes(p: *mut PublicKey) -> Vec<u8> {
    sched::unscheduled(|| {
        let v = ser(unsafe { &*p });
        unsafe { fs::destroy_public_key(p) };
        v
    })
}
fn sig_bytes(p: *mut Signature) -> Vec<u8> {
    sched::unscheduled(|| {
        let v = ser(unsafe { &*p });
        unsafe { fs::destroy_signature(p) };
        v
    })
}
fn buf(p: *mut u8, n: c_int) -> Vec<u8> {
    sched::unscheduled(|| {
        let v = unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec();
        unsafe { fs::free_vec(p, n) };
        v
    })
}
impl World {
    /// Uses reference arithmetic only: no lazy value of the library is touched.
    pub fn new() -> World {
        let keys: Vec<PublicKey> = [3i64, 8, -3, 21].iter().map(|k| PublicKey::from(norm2(g2(*k)))).collect();
        let known: Vec<Vec<u8>> = keys.iter().map(ser).collect();
        let mut bad = known[0].clone();
        bad[0] ^= 1;
        while matches!(decode_x::<ark_bls12_377::g2::Parameters>(&bad, bad[95] & 0x80 != 0, false), Dec::Point(_)) {
            bad[0] = bad[0].wrapping_add(1);
        }
        let mut p = g2(1000);
        let g = g2(1);
        let fresh = (0..FRESH)
            .map(|_| {
                p = norm2(p + g);
                ser(&PublicKey::from(p))
            })
            .collect();
        let k = 77i64;
        let sigs = (0..3)
            .map(|m| {
                let h = ref_tai::<ark_bls12_377::g1::Parameters>([Inner::Direct, Inner::Composite, Inner::Composite][m], m == 2, true, b"ULforxof", MSG, EXTRA).unwrap().0;
                Signature::from(h.mul(ark_ff::PrimeField::into_repr(&fr(k))))
            })
            .collect();
        World {
            sum: PublicKey::from(keys.iter().map(|k| *k.as_ref()).sum::<G2Projective>()),
            keys,
            known,
            bad,
            fresh,
            tick: AtomicUsize::new(0),
            sk: PrivateKey::from(fr(k)),
            pk: PublicKey::from(norm2(g2(k))),
            sigs,
            tag: AtomicU64::new(0),
        }
    }
    fn total(&self, m: u8) -> G2Projective {
        (0..NK).filter(|i| m >> i & 1 == 1).map(|i| *self.keys[i].as_ref()).sum()
    }
    fn fresh_at(&self, base: usize, i: u8) -> &[u8] {
        &self.fresh[(base * 5 + i as usize) % FRESH]
    }
    /// The call's answer in bytes; empty when it reports failure.
    fn call(&self, op: Op, base: usize) -> Vec<u8> {
        let list = |m: u8| -> Vec<*const PublicKey> { (0..NK).filter(|i| m >> i & 1 == 1).map(|i| &self.keys[i] as *const _).collect() };
        let b01 = |ok: bool, v: bool| if ok { vec![u8::from(v)] } else { vec![] };
        match op {
            Agg(m) => {
                let l = list(m);
                let mut p: *mut PublicKey = null_mut();
                if fg::aggregate_public_keys(l.as_ptr(), l.len() as c_int, &mut p) { pk_bytes(p) } else { vec![] }
            }
            Sub(m) => {
                let l = list(m);
                let mut p: *mut PublicKey = null_mut();
                if fg::aggregate_public_keys_subtract(&self.sum, l.as_ptr(), l.len() as c_int, &mut p) { pk_bytes(p) } else { vec![] }
            }
            Fresh(_) | Known(_) | Bad => {
                let d: &[u8] = match op {
                    Fresh(i) => self.fresh_at(base, i),
                    Known(i) => &self.known[i as usize],
                    _ => &self.bad,
                };
                let mut p: *mut PublicKey = null_mut();
                if fs::deserialize_public_key_cached(d.as_ptr(), d.len() as c_int, &mut p) { pk_bytes(p) } else { vec![] }
            }
            Init => {
                bls_snark_sys::init();
                vec![1]
            }
            Sign(m) => {
                let mut p: *mut Signature = null_mut();
                let (c, n) = MODES[m as usize];
                if fg::sign_message(&self.sk, MSG.as_ptr(), 2, EXTRA.as_ptr(), 1, c, n, &mut p) { sig_bytes(p) } else { vec![] }
            }
            Verify(m, right) => {
                let (c, n) = MODES[m as usize];
                let s = &self.sigs[if right { m as usize } else { (m as usize + 1) % 3 }];
                let mut v = false;
                let ok = fg::verify_signature(&self.pk, MSG.as_ptr(), 2, EXTRA.as_ptr(), 1, s, c, n, &mut v);
                b01(ok, v)
            }
            Pop => {
                let mut p: *mut Signature = null_mut();
                if fg::sign_pop(&self.sk, MSG.as_ptr(), 2, &mut p) { sig_bytes(p) } else { vec![] }
            }
            AggSig => {
                let l: Vec<*const Signature> = self.sigs.iter().map(|s| s as *const _).collect();
                let mut p: *mut Signature = null_mut();
                if fg::aggregate_signatures(l.as_ptr(), l.len() as c_int, &mut p) { sig_bytes(p) } else { vec![] }
            }
            Crh => {
                let (mut p, mut n) = (null_mut(), 0);
                if fg::hash_crh(MSG.as_ptr(), 2, 64, &mut p, &mut n) { buf(p, n) } else { vec![] }
            }
            Compress => {
                let u = sched::unscheduled(|| ser_u(&self.pk));
                let (mut p, mut n) = (null_mut(), 0);
                if fs::compress_pubkey(u.as_ptr(), u.len() as c_int, &mut p, &mut n) { buf(p, n) } else { vec![] }
            }
            Batch | Strict | Encode(_) => crate::ffi::conc_call(match op { Batch => 0, Strict => 1, Encode(false) => 2, _ => 3 }, &self.pk, &self.sigs, MSG, EXTRA),
        }
    }
    /// What the call must answer, where reference arithmetic says so.
    fn known_answer(&self, op: Op, base: usize) -> Option<Vec<u8>> {
        Some(match op {
            Agg(m) => ser(&PublicKey::from(self.total(m))),
            Sub(m) => ser(&PublicKey::from(*self.sum.as_ref() - self.total(m))),
            Fresh(i) => self.fresh_at(base, i).to_vec(),
            Known(i) => self.known[i as usize].clone(),
            Bad => vec![],
            Init => vec![1],
            Sign(m) => ser(&self.sigs[m as usize]),
            Verify(_, r) => vec![u8::from(r)],
            AggSig => ser(&Signature::from(self.sigs.iter().map(|s| *s.as_ref()).sum::<G1Projective>())),
            Compress => ser(&self.pk),
            Batch => vec![1, 1, 0],
            Strict => vec![0, 1, 0],
            _ => return None,
        })
    }
}
/// One program: what was called before, what each thread calls.
#[derive(Clone, Debug)]
pub struct Prog {
    pub before: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
}
fn show(t: &Trace) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < t.decisions.len() {
        let c = t.decisions[i].1;
        let mut n = 0;
        while i < t.decisions.len() && t.decisions[i].1 == c {
            i += 1;
            n += 1;
        }
        s += &format!("{}x{} ", c, n);
    }
    s.trim_end().into()
}
type Answers = Arc<Mutex<Vec<(usize, Op, Vec<u8>)>>>;
fn jobs(w: &'static World, p: &Prog, base: usize, out: &Answers) -> Vec<Box<dyn FnOnce() + Send>> {
    p.threads
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, ops)| {
            let out = out.clone();
            Box::new(move || {
                for op in ops {
                    let a = w.call(op, base);
                    sched::unscheduled(|| out.lock().unwrap().push((i, op, a)));
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect()
}
fn judge(w: &World, p: &Prog, base: usize, t: &Trace, out: &Answers, alone: &dyn Fn(Op) -> Option<Vec<u8>>) -> CaseResult {
    match &t.end {
        End::Deadlock(l) => return Err(viol("deadlock", format!("threads {:?} wait for each other for good; schedule {}", l, show(t)))),
        End::Stuck(i) => return Err(viol("stuck", format!("thread {} neither goes on nor waits; schedule {}", i, show(t)))),
        End::Finished => {}
    }
    let got = out.lock().unwrap();
    ensure!(got.len() == p.threads.iter().map(|x| x.len()).sum::<usize>(), "answers", "calls lost; schedule {}", show(t));
    for (i, op, a) in got.iter() {
        let want = w.known_answer(*op, base).or_else(|| alone(*op));
        if let Some(want) = want {
            ensure!(*a == want, format!("answer:{}", format!("{:?}", op).split('(').next().unwrap()), "thread {}: {:?} answers {} and alone {}; schedule (thread x points) {}", i, op, mc_common::shex(a), mc_common::shex(&want), show(t));
        }
    }
    Ok(())
}
/// Runs in a child process; what it found is sent to the parent.
fn child(limit: f64, f: impl FnOnce() -> String) -> Result<String, String> {
    let (mut a, mut b) = std::os::unix::net::UnixStream::pair().unwrap();
    let e = in_child(limit, || {
        let s = f();
        let _ = a.write_all(s.as_bytes());
        0
    });
    drop(a);
    let mut s = String::new();
    let _ = b.read_to_string(&mut s);
    match e {
        ChildEnd::Exit(0) => Ok(s),
        e => Err(format!("{:?}", e)),
    }
}
fn world() -> &'static World {
    static W: std::sync::OnceLock<World> = std::sync::OnceLock::new();
    W.get_or_init(World::new)
}
/// Explores every program in a child process of its own.
fn programs(c: &Check, space: &str, progs: &[Prog], level: u8, bound: usize, limit: usize) {
    let (runs, steps, blocked, div, cut) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    c.par(
        &format!("{}: programs", space),
        progs.len() as u64,
        1,
        |i| {
            let p = &progs[i as usize];
            let r = child(800.0, || {
                let w = world();
                let pool = Pool::new(p.threads.len());
                let mut alone: Vec<(Op, Vec<u8>)> = vec![];
                for op in p.threads.iter().flatten().chain(&p.before) {
                    if alone.iter().all(|x| x.0 != *op) {
                        alone.push((*op, w.call(*op, 0)));
                    }
                }
                let alone = |op: Op| alone.iter().find(|x| x.0 == op).map(|x| x.1.clone());
                let mut bad: CaseResult = Ok(());
                let cell: Mutex<(usize, Answers)> = Mutex::new((0, Arc::new(Mutex::new(vec![]))));
                let (mut blocked, mut div) = (0, 0);
                let (runs, steps, all) = pool.explore(
                    bound,
                    level,
                    limit,
                    || {
                        let base = w.tick.fetch_add(1, Ordering::Relaxed);
                        // bring the shared state to where the program starts
                        w.call(Agg(0), base);
                        for op in &p.before {
                            w.call(*op, base);
                        }
                        let out: Answers = Arc::new(Mutex::new(vec![]));
                        *cell.lock().unwrap() = (base, out.clone());
                        jobs(w, p, base, &out)
                    },
                    |t| {
                        blocked += t.blocked;
                        div += usize::from(t.diverged);
                        let (base, out) = cell.lock().unwrap().clone();
                        let mut r = judge(w, p, base, t, &out, &alone);
                        if r.is_ok() {
                            for op in [Known(1), Agg(0b1001), Fresh(4), Bad, Agg(0b0111)] {
                                let a = w.call(op, base);
                                if Some(&a) != w.known_answer(op, base).as_ref() {
                                    r = Err(viol("afterwards", format!("afterwards {:?} answers {}; schedule {}", op, mc_common::shex(&a), show(t))));
                                    break;
                                }
                            }
                        }
                        let ok = r.is_ok();
                        bad = r;
                        ok
                    },
                );
                match bad {
                    Err(v) => format!("V\n{}\n{}", v.key, v.text),
                    Ok(()) => format!("O {} {} {} {} {}", runs, steps, blocked, div, u8::from(!all)),
                }
            });
            match r {
                Err(e) => Err(viol("abort", format!("the calling process ends with {}", e))),
                Ok(s) if s.starts_with('V') => {
                    let mut l = s.splitn(3, '\n').skip(1);
                    Err(viol(l.next().unwrap_or("?").to_string(), l.next().unwrap_or("?").to_string()))
                }
                Ok(s) => {
                    let n: Vec<u64> = s.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
                    ensure!(n.len() == 5, "child", "no report from the child process");
                    for (a, v) in [&runs, &steps, &blocked, &div, &cut].iter().zip(n) {
                        a.fetch_add(v, Ordering::Relaxed);
                    }
                    Ok(())
                }
            }
        },
        |i| format!("{:?}", progs[i as usize]),
    );
    let g = |x: &AtomicU64| x.load(Ordering::Relaxed);
    c.count(&format!("{}: schedules with at most {} preemptions", space, bound), g(&runs), g(&steps) / g(&runs).max(1));
    c.note(format!("{}: {} schedules, {} scheduling points, {} times a thread waited for a lock, {} schedules that could not be repeated exactly, {} programs cut off at {} schedules", space, g(&runs), g(&steps), g(&blocked), g(&div), g(&cut), limit));
}
fn pairs<T: Clone>(v: &[T]) -> Vec<(T, T)> {
    let mut r = vec![];
    for i in 0..v.len() {
        for j in i..v.len() {
            r.push((v[i].clone(), v[j].clone()));
        }
    }
    r
}
pub fn c29(c: &Check) {
    let w = world();
    let _ = w.tag.load(Ordering::Relaxed);
    c.assume("threads are switched at uses of lazy values, of the bounded map, at group additions, allocations and frees, and when a thread waits for a lock; between two of these points a thread runs alone");
    // first use: the library's lazy values are not made yet in the parent, so every child makes them
    let first: Vec<Vec<Vec<Op>>> = {
        let two = [Init, Sign(0), Sign(1), Verify(2, true), Agg(3), Fresh(0)];
        let mut v: Vec<Vec<Vec<Op>>> = pairs(&two).into_iter().map(|(a, b)| vec![vec![a], vec![b]]).collect();
        v.push(vec![vec![Init, Agg(1)], vec![Init, Agg(2)]]);
        if c.thorough() {
            v.push(vec![vec![Init], vec![Init], vec![Init]]);
            v.push(vec![vec![Init], vec![Sign(1)], vec![Verify(2, true)]]);
            v.push(vec![vec![Sign(2)], vec![Agg(3)], vec![Verify(1, false)]]);
        }
        v
    };
    first_use(c, &first, c.pick(2, 8));
    bls_snark_sys::init();
    let cache = [Agg(0), Agg(1), Agg(3), Agg(6), Sub(3), Fresh(0), Fresh(1), Known(0), Bad];
    let befores = [vec![], vec![Agg(3), Known(0), Fresh(0)]];
    let mut two = vec![];
    for b in &befores {
        for (x, y) in pairs(&cache) {
            two.push(Prog { before: b.clone(), threads: vec![vec![x], vec![y]] });
        }
    }
    programs(c, "two threads, one cached call each, all points", &two, 1, c.pick(2, 3), c.pick(20_000, 400_000));
    let few = [Agg(1), Agg(6), Sub(3), Fresh(0)];
    let mut seqs = vec![];
    for a in few {
        for b in few {
            seqs.push(vec![a, b]);
        }
    }
    let mut four = vec![];
    for (x, y) in pairs(&seqs) {
        four.push(Prog { before: vec![Agg(3)], threads: vec![x, y] });
    }
    programs(c, "two threads, two cached calls each", &four, 2, c.pick(2, 4), c.pick(20_000, 400_000));
    let mut three = vec![];
    for a in 0..cache.len() {
        for b in a..cache.len() {
            for d in b..cache.len() {
                if c.thorough() || [a, b, d].iter().all(|x| [1, 2, 3, 4, 5].contains(x)) {
                    three.push(Prog { before: vec![Agg(5)], threads: vec![vec![cache[a]], vec![cache[b]], vec![cache[d]]] });
                }
            }
        }
    }
    programs(c, "three threads, one cached call each", &three, 2, c.pick(2, 4), c.pick(20_000, 400_000));
    // everything else: calls that share nothing
    let other = [Sign(0), Sign(1), Sign(2), Verify(0, true), Verify(1, false), Verify(2, true), Pop, AggSig, Batch, Strict, Crh, Encode(false), Encode(true), Compress, Agg(3), Fresh(0), Init];
    let rest: Vec<Prog> = pairs(&other).into_iter().map(|(a, b)| Prog { before: vec![], threads: vec![vec![a], vec![b]] }).collect();
    programs(c, "two threads, one call each, every function", &rest, c.pick(2, 1), 1, c.pick(4_000, 40_000));
}
/// Every schedule of the first calls of a process, one child process per schedule.
fn first_use(c: &Check, progs: &[Vec<Vec<Op>>], bound: usize) {
    let (runs, steps, div) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let space = "first calls of a process";
    c.par(
        &format!("{}: programs", space),
        progs.len() as u64,
        1,
        |i| {
            let p = Prog { before: vec![], threads: progs[i as usize].clone() };
            let mut stack: Vec<Vec<u8>> = vec![vec![]];
            while let Some(pre) = stack.pop() {
                let r = child(120.0, || {
                    let w = world();
                    let pool = Pool::new(p.threads.len());
                    let out: Answers = Arc::new(Mutex::new(vec![]));
                    let t = pool.run(jobs(w, &p, 0, &out), 3, &pre);
                    if let Err(v) = judge(w, &p, 0, &t, &out, &|_| None) {
                        return format!("V\n{}\n{}", v.key, v.text);
                    }
                    for op in [Sign(1), Agg(3), Known(0)] {
                        if Some(w.call(op, 0)) != w.known_answer(op, 0) {
                            return format!("V\nafterwards\nafterwards {:?} is wrong; schedule {}", op, show(&t));
                        }
                    }
                    let d: Vec<String> = t.decisions.iter().map(|(e, c)| format!("{}:{}", e.iter().map(|x| x.to_string()).collect::<String>(), c)).collect();
                    format!("O {} {}", u8::from(t.diverged), d.join(" "))
                });
                let s = match r {
                    Err(e) => return Err(viol("abort", format!("the calling process ends with {}", e))),
                    Ok(s) => s,
                };
                if s.starts_with('V') {
                    let mut l = s.splitn(3, '\n').skip(1);
                    return Err(viol(l.next().unwrap_or("?").to_string(), l.next().unwrap_or("?").to_string()));
                }
                let mut it = s.split(' ').skip(1);
                let diverged = it.next() == Some("1");
                div.fetch_add(u64::from(diverged), Ordering::Relaxed);
                let dec: Vec<(Vec<u8>, u8)> = it
                    .map(|x| {
                        let (e, ch) = x.split_once(':').unwrap();
                        (e.bytes().map(|b| b - b'0').collect(), ch.parse().unwrap())
                    })
                    .collect();
                runs.fetch_add(1, Ordering::Relaxed);
                steps.fetch_add(dec.len() as u64, Ordering::Relaxed);
                let (mut cost, mut last) = (0, u8::MAX);
                for (k, (en, ch)) in dec.iter().enumerate() {
                    let free = en[0] != last;
                    if k >= pre.len() {
                        for &o in &en[1..] {
                            if cost + usize::from(!free) <= bound {
                                let mut s: Vec<u8> = dec[..k].iter().map(|d| d.1).collect();
                                s.push(o);
                                stack.push(s);
                            }
                        }
                    }
                    if !free && *ch != en[0] {
                        cost += 1;
                    }
                    last = *ch;
                }
            }
            Ok(())
        },
        |i| format!("{:?}", progs[i as usize]),
    );
    let g = |x: &AtomicU64| x.load(Ordering::Relaxed);
    c.count(&format!("{}: schedules", space), g(&runs), g(&steps) / g(&runs).max(1));
    c.note(format!("{}: {} schedules with at most {} preemptions, {} scheduling points, {} that could not be repeated exactly", space, g(&runs), bound, g(&steps), g(&div)));
}
