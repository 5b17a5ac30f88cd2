//! Checks C01-C05: the modules that need no arkworks, explored directly on the code in /repo.
use bls_crypto::hashers::{DirectHasher, Hasher};
use bls_crypto::BLSError;
use mc_common::*;

fn pat(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(167).wrapping_add((i >> 8) as u8).wrapping_mul(29).wrapping_add(k)).collect()
}
fn sel(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn domains() -> Vec<Vec<u8>> {
    // every length 0..8, three contents each, and the protocol's domains
    let mut d = vec![sel("ULforxof"), sel("ULforpop"), sel("ULforout")];
    for n in 0..=8usize {
        d.push((0..n).map(|i| b'A' + i as u8).collect());
        d.push(vec![0xff; n]);
        d.push((0..n).map(|i| if i + 1 == n { 0 } else { 0x80 + i as u8 }).collect());
    }
    d.sort();
    d.dedup();
    d
}
fn eq(key: &str, got: Result<Vec<u8>, BLSError>, want: &[u8], d: &[u8], m: &[u8], l: usize) -> CaseResult {
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(viol(key, format!("domain={} msg={} len={}: got {} want {}", shex(d), shex(m), l, shex(&g), shex(want)))),
        Err(e) => Err(viol(key, format!("domain={} msg={} len={}: error {} but {} expected", shex(d), shex(m), l, e, shex(want)))),
    }
}

type Op = fn(&[u8], &[u8], usize) -> Result<Vec<u8>, BLSError>;
type Ref = fn(&[u8], &[u8], u16) -> Vec<u8>;
fn crh(d: &[u8], m: &[u8], l: usize) -> Result<Vec<u8>, BLSError> {
    DirectHasher.crh(d, m, l)
}
fn xof(d: &[u8], m: &[u8], l: usize) -> Result<Vec<u8>, BLSError> {
    DirectHasher.xof(d, m, l)
}
fn hash(d: &[u8], m: &[u8], l: usize) -> Result<Vec<u8>, BLSError> {
    DirectHasher.hash(d, m, l)
}

/// The spaces shared by C01, C02 and C03: exhaustive slices of domain x message x length.
fn explore(c: &Check, name: &str, f: Op, r: Ref, cheap_len: bool) {
    let doms = domains();
    let nd = doms.len() as u64;
    let one = |d: &[u8], m: &[u8], l: usize| eq(name, f(d, m, l), &r(d, m, l as u16), d, m, l);
    // S1: every output length 0..=65535
    {
        let ds: Vec<Vec<u8>> = if cheap_len {
            doms.clone()
        } else if c.thorough() {
            vec![sel("ULforxof"), vec![], sel("abc")]
        } else {
            vec![sel("ULforxof"), sel("ab\0")]
        };
        let ms: Vec<Vec<u8>> = if cheap_len { vec![vec![], pat(1, 7), pat(64, 1), pat(65, 2)] } else { vec![pat(32, 1)] };
        let n = 65536 * ds.len() as u64 * ms.len() as u64;
        let dec = |i: u64| {
            let l = (i % 65536) as usize;
            let i = i / 65536;
            (&ds[(i % ds.len() as u64) as usize], &ms[(i / ds.len() as u64) as usize], l)
        };
        c.par(
            &format!("{}: every output length x domains x messages", name),
            n,
            1,
            |i| {
                let (d, m, l) = dec(i);
                one(d, m, l)
            },
            |i| {
                let (d, m, l) = dec(i);
                format!("domain={} msg={} len={}", shex(d), shex(m), l)
            },
        );
    }
    // S2: every message length x every domain x selected lengths
    {
        let ls = [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 96, 128, 255, 256, 257, 300];
        let maxm = c.pick(700u64, 3000);
        let nl = ls.len() as u64;
        let buf = pat(maxm as usize, 3);
        let dec = |i: u64| (&doms[(i % nd) as usize], &buf[..(i / nd / nl) as usize], ls[(i / nd % nl) as usize]);
        c.par(
            &format!("{}: every message length x every domain x lengths", name),
            maxm * nd * nl,
            1,
            |i| {
                let (d, m, l) = dec(i);
                one(d, m, l)
            },
            |i| {
                let (d, m, l) = dec(i);
                format!("domain={} msg={} len={}", shex(d), shex(m), l)
            },
        );
    }
    // S2a: output lengths around every multiple of 32 that is next to a power of two, every domain, several messages
    {
        let mut ls = vec![];
        for k in 0..=16u32 {
            for d in [-33i64, -32, -31, -1, 0, 1, 31, 32, 33] {
                ls.push((1i64 << k) + d);
            }
        }
        ls.extend([65535 - 32, 65504, 65505, 65534, 65535, 8160, 8161, 8191, 8192, 8193]);
        let mut ls: Vec<usize> = ls.into_iter().filter(|l| (0..=65535).contains(l)).map(|l| l as usize).collect();
        ls.sort();
        ls.dedup();
        let ms = [vec![], pat(1, 1), pat(31, 2), pat(33, 3), pat(64, 4), pat(65, 5), vec![0; 32], vec![0xff; 128]];
        let (nl, nm) = (ls.len() as u64, ms.len() as u64);
        let dec = |i: u64| (&doms[(i / nl / nm) as usize], &ms[(i / nl % nm) as usize], ls[(i % nl) as usize]);
        c.par(
            &format!("{}: output lengths around powers of two x every domain x messages", name),
            nl * nm * nd,
            1,
            |i| {
                let (d, m, l) = dec(i);
                one(d, m, l)
            },
            |i| {
                let (d, m, l) = dec(i);
                format!("domain={} msg={} len={}", shex(d), shex(m), l)
            },
        );
    }
    // S2c: every message length, one domain and output length
    {
        let maxm = c.pick(6000u64, 40000);
        let buf = pat(maxm as usize, 6);
        c.par(&format!("{}: every message length", name), maxm, 1, |i| one(b"ULforxof", &buf[..i as usize], 96), |i| format!("msg of {} bytes", i));
    }
    // S2b: long messages around multiples of 64 KiB and of 2^k
    {
        let mut lens = vec![];
        for k in 11..=c.pick(20, 24) {
            for d in [-65i64, -64, -1, 0, 1, 63, 64] {
                lens.push(((1i64 << k) + d) as usize);
            }
        }
        let buf = pat(*lens.iter().max().unwrap(), 9);
        c.par(
            &format!("{}: long messages", name),
            lens.len() as u64 * 2,
            1,
            |i| one(b"ULforxof", &buf[..lens[(i / 2) as usize]], [96, 48][(i % 2) as usize]),
            |i| format!("msg of {} bytes", lens[(i / 2) as usize]),
        );
    }
    // S3: every message of at most 2 bytes (3 in the thorough tier)
    {
        let n2 = 1 + 256 + 65536u64 + c.pick(0, 256 * 65536);
        let dec = |i: u64| -> Vec<u8> {
            if i == 0 {
                vec![]
            } else if i < 257 {
                vec![(i - 1) as u8]
            } else if i < 257 + 65536 {
                ((i - 257) as u16).to_le_bytes().to_vec()
            } else {
                ((i - 257 - 65536) as u32).to_le_bytes()[..3].to_vec()
            }
        };
        for (d, l) in [(&b"ULforxof"[..], 96usize), (b"", 32), (b"ULforpop", 33)] {
            c.par(
                &format!("{}: every message of at most {} bytes", name, c.pick(2, 3)),
                n2,
                1,
                |i| one(d, &dec(i), l),
                |i| format!("domain={} len={} msg={}", shex(d), l, shex(&dec(i))),
            );
        }
    }
    // S4: every single-byte deviation from base messages (all positions, all values)
    {
        let lens = [3usize, 16, 32, 48, 63, 64, 65, 96, 100, 127, 128, 129, 192, 256, 300];
        for (b, base_k) in [0u8, 5].iter().enumerate() {
            for &ml in lens.iter() {
                let base = if b == 0 { vec![0u8; ml] } else { pat(ml, *base_k) };
                c.par(
                    &format!("{}: every single-byte deviation of base messages", name),
                    ml as u64 * 256,
                    1,
                    |i| {
                        let mut m = base.clone();
                        m[(i / 256) as usize] = (i % 256) as u8;
                        one(b"ULforxof", &m, 96)
                    },
                    |i| format!("base {} len {} pos {} value {}", b, ml, i / 256, i % 256),
                );
            }
        }
    }
    // S5: every single-byte deviation of domains of every length; every 2-byte domain
    {
        let mut cases: Vec<Vec<u8>> = vec![];
        for n in 1..=8usize {
            for base in [vec![0u8; n], b"ULforxof"[..n].to_vec(), vec![0xffu8; n]] {
                for p in 0..n {
                    for v in 0..=255u8 {
                        let mut d = base.clone();
                        d[p] = v;
                        cases.push(d);
                    }
                }
            }
        }
        for v in 0..=65535u16 {
            cases.push(v.to_le_bytes().to_vec());
        }
        let ms = [vec![], pat(40, 4)];
        c.par(
            &format!("{}: every deviation of a domain", name),
            cases.len() as u64 * 2,
            1,
            |i| one(&cases[(i / 2) as usize], &ms[(i % 2) as usize], 64 + (i % 3) as usize),
            |i| format!("domain={}", shex(&cases[(i / 2) as usize])),
        );
    }
    // S6: every pair of flipped bits in a message, around one and two blocks
    {
        for ml in [64usize, c.pick(80, 130)] {
            let nb = (ml * 8) as u64;
            let base = pat(ml, 11);
            c.par(
                &format!("{}: every pair of flipped message bits", name),
                nb * nb,
                1,
                |i| {
                    let (a, b) = (i % nb, i / nb);
                    let mut m = base.clone();
                    m[(a / 8) as usize] ^= 1 << (a % 8);
                    m[(b / 8) as usize] ^= 1 << (b % 8);
                    one(b"ULforxof", &m, 32)
                },
                |i| format!("len {} bits {} {}", ml, i % nb, i / nb),
            );
        }
    }
    // S7: repeated-byte messages: every byte value x every length up to 200
    c.par(
        &format!("{}: constant messages", name),
        256 * 200,
        1,
        |i| one(b"ULforpop", &vec![(i % 256) as u8; (i / 256) as usize], 97),
        |i| format!("byte {} x {}", i % 256, i / 256),
    );
}

fn c01(c: &Check) {
    explore(c, "crh", crh, b2s::crh, true);
}
fn c02(c: &Check) {
    explore(c, "xof", xof, b2s::xof, false);
}

#[derive(Clone)]
struct Call {
    op: u8, // 0 crh 1 xof 2 hash
    d: Vec<u8>,
    m: Vec<u8>,
    l: usize,
    want: Option<Vec<u8>>, // None: an error
}
impl Call {
    fn new(op: u8, d: &[u8], m: &[u8], l: usize) -> Call {
        let want = if d.len() > 8 || l > 65535 {
            None
        } else {
            Some([b2s::crh, b2s::xof, b2s::hash][op as usize](d, m, l as u16))
        };
        Call { op, d: d.to_vec(), m: m.to_vec(), l, want }
    }
    fn desc(&self) -> String {
        format!("{}(domain={},msg={},len={})", ["crh", "xof", "hash"][self.op as usize], shex(&self.d), shex(&self.m), self.l)
    }
    fn run(&self, h: &DirectHasher) -> CaseResult {
        let key = |what: &str| {
            let n = ["crh", "xof", "hash"][self.op as usize];
            if self.d.len() > 8 {
                format!("{}:{}:oversized-domain", n, what)
            } else if self.l > 65535 {
                format!("{}:{}:oversized-length", n, what)
            } else {
                format!("{}:{}", n, what)
            }
        };
        let got = caught(|| match self.op {
            0 => h.crh(&self.d, &self.m, self.l),
            1 => h.xof(&self.d, &self.m, self.l),
            _ => h.hash(&self.d, &self.m, self.l),
        });
        match (got, &self.want) {
            (Err(p), _) => Err(viol(key("panic"), format!("{} panics: {}", self.desc(), p))),
            (Ok(Ok(g)), Some(w)) if g == *w => Ok(()),
            (Ok(Err(_)), None) => Ok(()),
            (Ok(Ok(g)), Some(w)) => Err(viol(key("value"), format!("{} = {} want {}", self.desc(), shex(&g), shex(w)))),
            (Ok(Ok(g)), None) => Err(viol(key("accepted"), format!("{} accepted, gives {}", self.desc(), shex(&g)))),
            (Ok(Err(e)), Some(_)) => Err(viol(key("error"), format!("{} fails: {}", self.desc(), e))),
        }
    }
}

/// A hasher that answers with its arguments, or fails (bit 0 of `bad`: crh, bit 1: xof).
struct Toy {
    bad: u64,
    log: std::cell::RefCell<Vec<(u8, Vec<u8>, Vec<u8>, usize)>>,
}
impl Toy {
    fn tagged(op: u8, d: &[u8], m: &[u8], l: usize) -> Vec<u8> {
        [&[op, d.len() as u8][..], d, m, &l.to_le_bytes()].concat()
    }
    fn call(&self, op: u8, d: &[u8], m: &[u8], l: usize) -> Result<Vec<u8>, u8> {
        self.log.borrow_mut().push((op, d.to_vec(), m.to_vec(), l));
        if self.bad >> op & 1 == 1 {
            Err(op)
        } else {
            Ok(Toy::tagged(op, d, m, l))
        }
    }
}
impl Hasher for Toy {
    type Error = u8;
    fn crh(&self, d: &[u8], m: &[u8], l: usize) -> Result<Vec<u8>, u8> {
        self.call(0, d, m, l)
    }
    fn xof(&self, d: &[u8], m: &[u8], l: usize) -> Result<Vec<u8>, u8> {
        self.call(1, d, m, l)
    }
}
fn c03(c: &Check) {
    explore(c, "hash", hash, b2s::hash, false);
    // relation hash = xof . crh on the real code (no reference involved)
    {
        let doms = domains();
        let nd = doms.len() as u64;
        let buf = pat(400, 5);
        c.par(
            "hash = xof(crh), same domain and length",
            nd * 400 * 8,
            3,
            |i| {
                let d = &doms[(i % nd) as usize];
                let m = &buf[..(i / nd % 400) as usize];
                let l = [0usize, 1, 32, 48, 64, 65, 96, 300][(i / nd / 400) as usize];
                let a = hash(d, m, l).map_err(|e| viol("hash", e.to_string()))?;
                let b = xof(d, &crh(d, m, l).map_err(|e| viol("crh", e.to_string()))?, l).map_err(|e| viol("xof", e.to_string()))?;
                ensure!(a == b, "hash-composition", "hash != xof(crh)");
                Ok(())
            },
            |i| format!("domain={} msg {} bytes", shex(&doms[(i % nd) as usize]), i / nd % 400),
        );
    }
    // the same for any other hasher: `hash` is the composition and passes errors on
    c.par(
        "hash of any hasher is its crh, then its xof, and passes their errors on",
        4 * 10 * 40 * 8,
        2,
        |i| {
            let (bad, dl, ml) = (i % 4, (i / 4 % 10) as usize, (i / 40 % 40) as usize);
            let l = [0usize, 1, 31, 48, 64, 96, 65535, 1 << 20][(i / 1600) as usize];
            let t = Toy { bad, log: Default::default() };
            let (d, m) = (pat(dl, 3), pat(ml * 9, 4));
            let r = t.hash(&d, &m, l);
            let inner = Toy::tagged(0, &d, &m, l);
            let mut calls = vec![(0u8, d.clone(), m.clone(), l)];
            if bad & 1 == 0 {
                calls.push((1, d.clone(), inner.clone(), l));
            }
            let want = match bad {
                0 => Ok(Toy::tagged(1, &d, &inner, l)),
                2 => Err(1u8),
                _ => Err(0),
            };
            ensure!(r == want, "hash-composition", "gives {:?} instead of {:?}", r, want);
            ensure!(*t.log.borrow() == calls, "hash-composition", "makes other calls: {:?}", t.log.borrow());
            Ok(())
        },
        |i| format!("{}", i),
    );
    // unusable parameters
    {
        let mut calls = vec![];
        for op in 0..3u8 {
            for dl in 0..=c.pick(72usize, 300) {
                for l in [0usize, 1, 31, 32, 96, 65535, 65536, 65537, 65536 + 96, 131072, 1 << 20, (1 << 32) + 96, usize::MAX - 30, usize::MAX] {
                    if l > (1 << 20) && dl != 8 && dl != 9 {
                        continue;
                    }
                    for m in [vec![], pat(33, 1)] {
                        if dl <= 8 && l > 1000 && l < 65536 && dl != 8 {
                            continue;
                        }
                        {
                            calls.push(Call::new(op, &pat(dl, 65), &m, l));
                        }
                    }
                }
            }
            for l in 65536..65536 + c.pick(600usize, 5000) {
                calls.push(Call::new(op, b"ULforxof", &pat(32, 1), l));
            }
        }
        c.par("domain lengths and output lengths in and out of range", calls.len() as u64, 1, |i| calls[i as usize].run(&DirectHasher), |i| calls[i as usize].desc());
    }
    // histories: every call sequence up to a depth, each in a fresh copy of the process
    {
        let m1 = pat(40, 1);
        let m2 = pat(70, 2);
        let mut al = vec![];
        for op in 0..3u8 {
            al.push(Call::new(op, b"ULforxof", &m1, 96));
            al.push(Call::new(op, b"ULforpop", &m1, 96));
            al.push(Call::new(op, b"ULforxof", &m2, 33));
            al.push(Call::new(op, b"toolarge9", &m1, 96));
        }
        let more = [Call::new(2, b"ULforxof", &m1, 33), Call::new(2, b"", &m1, 96), Call::new(1, b"ULforxof", &m1, 65536 + 96), Call::new(2, b"ULforxof", &m1, 0)];
        let depth = c.pick(3, 4);
        let mut wide = al.clone();
        wide.extend(more.iter().cloned());
        for (alphabet, d) in [(&al, depth), (&wide, depth - 1)] {
            let k = alphabet.len() as u64;
            let n = k.pow(d as u32);
            let mut done = 0;
            for i in 0..n {
                let s = seq(i, k, d);
                let end = in_child(20.0, || {
                    for &x in &s {
                        if alphabet[x].run(&DirectHasher).is_err() {
                            return 1;
                        }
                    }
                    0
                });
                done += 1;
                if end != ChildEnd::Exit(0) {
                    // find the failing step for the report
                    let alone = s.iter().find_map(|&x| alphabet[x].run(&DirectHasher).err());
                    let d: Vec<String> = s.iter().map(|&x| alphabet[x].desc()).collect();
                    match alone {
                        Some(v) => c.report(v),
                        None => c.report(viol("history", format!("only after this history: {} ({:?})", d.join("; "), end))),
                    }
                    if c.nviol() > 3 {
                        break;
                    }
                }
            }
            c.count(&format!("every call sequence of length {} over {} calls, fresh process each", d, k), done, d as u64);
            c.sample("histories", || seq(n / 2 + 7, k, d).iter().map(|&x| alphabet[x].desc()).collect::<Vec<_>>().join("; "));
        }
    }
}

fn c04(c: &Check) {
    let want: [(&str, &[u8], &[u8]); 3] = [
        ("signatures", bls_crypto::SIG_DOMAIN, b"ULforxof"),
        ("proofs of possession", bls_crypto::POP_DOMAIN, b"ULforpop"),
        ("public outputs", bls_crypto::OUT_DOMAIN, b"ULforout"),
    ];
    for (n, got, w) in want.iter() {
        c.case("domain constants", || {
            ensure!(got == w, format!("constant:{}", n), "domain of {} is {} not {}", n, shex(got), shex(w));
            ensure!(got.len() == 8, format!("constant:{}", n), "domain of {} has {} bytes", n, got.len());
            Ok(())
        });
    }
    c.count("domain constants", 3, 1);
    // separation: all ordered pairs of single-byte-different and protocol domains, all explored messages and lengths
    let mut doms: Vec<Vec<u8>> = want.iter().map(|x| x.1.to_vec()).collect();
    for p in 0..8 {
        for b in 0..8 {
            let mut d = bls_crypto::SIG_DOMAIN.to_vec();
            if d.len() == 8 {
                d[p] ^= 1 << b;
            }
            doms.push(d);
        }
    }
    let lens = [1usize, 2, 4, 8, 16, 31, 32, 33, 48, 64, 95, 96, 97, 128, 192, 255, 256, 512, 65535];
    let nm = c.pick(260u64, 1500);
    let buf = pat(nm as usize, 13);
    c.par(
        "separation of the protocol domains and their one-bit neighbours",
        nm * lens.len() as u64,
        doms.len() as u64 * 3,
        |i| {
            let l = lens[(i % lens.len() as u64) as usize];
            if l == 65535 && i / lens.len() as u64 % 50 != 0 {
                return Ok(());
            }
            let m = &buf[..(i / lens.len() as u64) as usize];
            for (name, f) in [("crh", crh as Op), ("xof", xof as Op), ("hash", hash as Op)] {
                if name != "crh" && l < 16 {
                    continue; // short outputs may coincide by chance
                }
                let mut seen: std::collections::HashMap<Vec<u8>, Vec<u8>> = Default::default();
                for d in &doms {
                    let o = f(d, m, l).map_err(|e| viol("separation", e.to_string()))?;
                    if let Some(prev) = seen.insert(o.clone(), d.clone()) {
                        return Err(viol("separation", format!("{} of msg={} len={} is {} under both {} and {}", name, shex(m), l, shex(&o), shex(&prev), shex(d))));
                    }
                }
            }
            Ok(())
        },
        |i| format!("len {} msg {} bytes", lens[(i % lens.len() as u64) as usize], i / lens.len() as u64),
    );
    // the personalisation is the domain itself: value check with the constants as the library exposes them
    c.par(
        "digests under the library's constants equal the reference under the fixed strings",
        3 * 300 * 3,
        3,
        |i| {
            let (n, d, w) = want[(i % 3) as usize];
            let l = [32usize, 48, 96][(i / 3 % 3) as usize];
            let m = pat((i / 9) as usize, 1);
            for (name, f, r) in [("crh", crh as Op, b2s::crh as Ref), ("xof", xof as Op, b2s::xof as Ref), ("hash", hash as Op, b2s::hash as Ref)] {
                eq(&format!("{}:{}", n, name), f(d, &m, l), &r(w, &m, l as u16), d, &m, l)?;
            }
            Ok(())
        },
        |i| format!("domain {} msg {} bytes", want[(i % 3) as usize].0, i / 9),
    );
}

// ---- C05: numbers as explicit little-endian bit sequences
use bls_gadgets::utils as u;
fn ref_pack(le: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; (le.len() + 7) / 8];
    for (i, b) in le.iter().enumerate() {
        if *b {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    out
}
fn ref_unpack(b: &[u8], n: usize) -> Vec<bool> {
    (0..n.min(b.len() * 8)).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
}
fn rev(v: &[bool]) -> Vec<bool> {
    v.iter().rev().cloned().collect()
}
fn bstr(v: &[bool]) -> String {
    let s: String = v.iter().map(|b| if *b { '1' } else { '0' }).collect();
    if s.len() > 160 {
        format!("{}..({} bits)", &s[..160], v.len())
    } else {
        s
    }
}
fn chk_bits(le: &[bool]) -> CaseResult {
    let want = ref_pack(le);
    let a = u::bits_le_to_bytes_le(le);
    ensure!(a == want, "bits_le_to_bytes_le", "le bits {}: got {} want {}", bstr(le), shex(&a), shex(&want));
    let b = u::bits_be_to_bytes_le(&rev(le));
    ensure!(b == want, "bits_be_to_bytes_le", "be bits {}: got {} want {}", bstr(&rev(le)), shex(&b), shex(&want));
    let r = u::bytes_le_to_bits_le(&a, le.len());
    ensure!(r == le, "roundtrip-le", "le bits {} come back as {}", bstr(le), bstr(&r));
    let r = u::bytes_le_to_bits_be(&b, le.len());
    ensure!(r == rev(le), "roundtrip-be", "be bits {} come back as {}", bstr(&rev(le)), bstr(&r));
    Ok(())
}
fn chk_bytes(b: &[u8], n: usize) -> CaseResult {
    let want = ref_unpack(b, n);
    let a = u::bytes_le_to_bits_le(b, n);
    ensure!(a == want, "bytes_le_to_bits_le", "bytes {} take {}: got {} want {}", shex(b), n, bstr(&a), bstr(&want));
    let a = u::bytes_le_to_bits_be(b, n);
    ensure!(a == rev(&want), "bytes_le_to_bits_be", "bytes {} take {}: got {} want {}", shex(b), n, bstr(&a), bstr(&rev(&want)));
    if n >= b.len() * 8 {
        let back = u::bits_le_to_bytes_le(&want);
        ensure!(back == b, "roundtrip-bytes", "bytes {} come back as {}", shex(b), shex(&back));
    }
    Ok(())
}
fn c05(c: &Check) {
    let maxb = c.pick(18u32, 23);
    let total = (1u64 << (maxb + 1)) - 1;
    let dec = |i: u64| -> Vec<bool> {
        // all bit strings of length 0..=maxb
        let len = 63 - (i + 1).leading_zeros();
        let v = i + 1 - (1 << len);
        (0..len).map(|k| v >> k & 1 == 1).collect()
    };
    c.par("every bit vector of at most N bits", total, 4, |i| chk_bits(&dec(i)), |i| bstr(&dec(i)));
    // longer: every length, base all-0 / all-1 / alternating with up to two flipped bits
    let maxl = c.pick(2100usize, 5000);
    c.par(
        "every length: constant and alternating vectors",
        (maxl as u64 + 1) * 5,
        4,
        |i| {
            let l = (i / 5) as usize;
            let v: Vec<bool> = (0..l)
                .map(|k| match i % 5 {
                    0 => false,
                    1 => true,
                    2 => k % 2 == 0,
                    3 => (k / 8) % 2 == 0,
                    _ => (k * k / 3) % 7 < 3,
                })
                .collect();
            chk_bits(&v)
        },
        |i| format!("length {} pattern {}", i / 5, i % 5),
    );
    c.par(
        "long vectors around powers of two: one marked bit",
        4 * 9 * 6,
        4,
        |i| {
            let l = ((1i64 << [12, 13, 16, 18][(i % 4) as usize]) + [-9, -8, -7, -1, 0, 1, 7, 8, 9][(i / 4 % 9) as usize]) as usize;
            let mut v = vec![i / 36 >= 3; l];
            let at = [0, l / 2, l - 1][(i / 36 % 3) as usize];
            v[at] ^= true;
            chk_bits(&v)
        },
        |i| format!("{}", i),
    );
    c.par(
        "long byte vectors x bits to take",
        40 * 40,
        2,
        |i| {
            let n = [71usize, 96, 127, 128, 129, 192, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 300, 301, 302, 303, 640, 641, 1500][(i % 40) as usize];
            let t = i / 40;
            let take = match t {
                0..=9 => (n * 8).saturating_sub(t as usize),
                10..=19 => n * 8 + t as usize - 10,
                20..=29 => n * 8 * (t as usize - 20) / 10,
                _ => 1usize << (t - 26),
            };
            chk_bytes(&pat(n, 17), take)
        },
        |i| format!("{}", i),
    );
    let lens: Vec<usize> = (0..=c.pick(40usize, 130)).chain([63, 64, 65, 253, 256, 377, 384]).chain(c.pick(vec![], vec![512, 761, 768])).collect();
    for inv in [false, true] {
        for &l in &lens {
            let n = (l * l) as u64;
            if l == 0 {
                continue;
            }
            c.par(
                "every one- and two-bit deviation",
                n,
                4,
                |i| {
                    let mut v = vec![inv; l];
                    v[(i % l as u64) as usize] ^= true;
                    let j = (i / l as u64) as usize;
                    if j != (i % l as u64) as usize {
                        v[j] ^= true;
                    }
                    chk_bits(&v)
                },
                |i| format!("length {} inverted {} bits {} {}", l, inv, i % l as u64, i / l as u64),
            );
        }
    }
    // bytes x bits_to_take
    let n2 = 1 + 256 + 65536u64;
    let decb = |i: u64| -> Vec<u8> {
        if i == 0 {
            vec![]
        } else if i < 257 {
            vec![(i - 1) as u8]
        } else {
            ((i - 257) as u16).to_be_bytes().to_vec()
        }
    };
    c.par(
        "every byte vector of at most 2 bytes x every number of bits to take 0..=20",
        n2 * 21,
        2,
        |i| chk_bytes(&decb(i / 21), (i % 21) as usize),
        |i| format!("bytes {} take {}", shex(&decb(i / 21)), i % 21),
    );
    if c.thorough() {
        c.par(
            "every byte vector of 3 bytes x take {0,7,8,9,15,16,17,23,24,25,100}",
            (1 << 24) * 11,
            2,
            |i| chk_bytes(&((i / 11) as u32).to_le_bytes()[..3], [0usize, 7, 8, 9, 15, 16, 17, 23, 24, 25, 100][(i % 11) as usize]),
            |i| format!("{}", i),
        );
    }
    let bl = c.pick(70usize, 200);
    for k in 0..4u8 {
        let buf: Vec<u8> = match k {
            0 => vec![0xff; bl],
            1 => vec![0x80; bl],
            2 => vec![0x01; bl],
            _ => pat(bl, 3),
        };
        let w = (bl * 8 + 20) as u64;
        c.par(
            "every byte length x every number of bits to take",
            (bl as u64 + 1) * w,
            2,
            |i| chk_bytes(&buf[..(i / w) as usize], (i % w) as usize),
            |i| format!("pattern {} bytes {} take {}", k, i / w, i % w),
        );
    }
    for take in [usize::MAX, usize::MAX - 7, 1 << 40] {
        c.case("huge bits_to_take", || chk_bytes(&pat(5, 1), take));
    }
    c.count("huge bits_to_take", 3, 2);
    let maxpos = c.pick(60u64, 130);
    for base in [0u8, 0xff] {
        c.par(
            "every single-byte deviation at every position",
            maxpos * 256,
            2,
            |i| {
                let mut b = vec![base; maxpos as usize];
                b[(i / 256) as usize] = (i % 256) as u8;
                chk_bytes(&b, b.len() * 8)?;
                chk_bytes(&b, (i / 256) as usize * 8 + 3)?;
                chk_bytes(&b, (i / 256) as usize * 8 + 9)
            },
            |i| format!("base {} pos {} value {}", base, i / 256, i % 256),
        );
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let c = Check::new(&id);
    let n = b2s::self_test();
    c.note(format!("reference BLAKE2s agrees with {} vectors of Python's hashlib", n));
    c.assume("the code under test is crates/bls-crypto/src/hashers and crates/bls-gadgets/src/utils.rs compiled from /repo's working tree without the modules that need arkworks");
    match id.as_str() {
        "C01" => c01(&c),
        "C02" => c02(&c),
        "C03" => c03(&c),
        "C04" => c04(&c),
        "C05" => c05(&c),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
    c.finish()
}
