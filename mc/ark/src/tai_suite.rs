// Included twice: `k` is bls-crypto with or without the compat feature, COMPAT says which.
use crate::o::*;
use ark_bls12_377::{g1, g2};
use ark_ec::{models::short_weierstrass_jacobian as sw, AffineCurve, ProjectiveCurve};
use ark_ff::Zero;
use k::hash_to_curve::{try_and_increment::*, try_and_increment_cip22::*, HashToCurve};
use k::hashers::composite::{CompositeHasher, COMPOSITE_HASHER, CRH};
use k::hashers::{DirectHasher, Hasher};
use k::BLSError;
use mc_common::{caught, ensure, hex, shex, CaseResult, Check};

/// A hasher whose answers the explorer chooses. It recognises a query by its content only: the
/// first step returns an injective encoding of its arguments; the second step answers from the
/// script when the query is exactly the one the construction prescribes for some counter, and
/// with an unrelated valid point otherwise.
struct Scripted<'a> {
    cip22: bool,
    domain: &'a [u8],
    message: &'a [u8],
    extra: &'a [u8],
    len: usize,
    script: &'a (dyn Fn(u8) -> Option<Vec<u8>> + Sync),
    wrong: &'a [u8],
}
fn tag(domain: &[u8], message: &[u8], len: usize) -> Vec<u8> {
    [&[b'<', domain.len() as u8][..], domain, &(len as u64).to_le_bytes(), message, b">"].concat()
}
impl<'a> Hasher for Scripted<'a> {
    type Error = BLSError;
    fn crh(&self, domain: &[u8], message: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        Ok(tag(domain, message, len))
    }
    fn xof(&self, domain: &[u8], input: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        let mut out = self.wrong.to_vec();
        out.resize(len, 0x33);
        if domain != self.domain || len != self.len {
            return Ok(out);
        }
        let counter = if self.cip22 { input.first().copied() } else { input.get(2 + self.domain.len() + 8).copied() };
        if let Some(c) = counter {
            let want = if self.cip22 {
                [&[c][..], self.extra, &tag(self.domain, self.message, self.len)].concat()
            } else {
                tag(self.domain, &[&[c][..], self.extra, self.message].concat(), self.len)
            };
            if want == input {
                return match (self.script)(c) {
                    None => Err(BLSError::VerificationFailed),
                    Some(mut v) => {
                        let n = v.len();
                        v.resize(len, 0);
                        for (i, b) in v.iter_mut().enumerate().skip(n) {
                            *b = (i as u8).wrapping_mul(29) ^ c;
                        }
                        Ok(v)
                    }
                };
            }
        }
        Ok(out)
    }
}
type Out<P> = Result<(sw::GroupProjective<P>, usize), BLSError>;
fn run<P: Curve>(cip22: bool, h: &impl Hasher<Error = BLSError>, domain: &[u8], message: &[u8], extra: &[u8]) -> (Out<P>, Result<sw::GroupProjective<P>, BLSError>) {
    if cip22 {
        let t = TryAndIncrementCIP22::<_, P>::new(h);
        (t.hash_with_attempt_cip22(domain, message, extra), t.hash(domain, message, extra))
    } else {
        let t = TryAndIncrement::<_, P>::new(h);
        (t.hash_with_attempt(domain, message, extra), t.hash(domain, message, extra))
    }
}
fn judge<P: Curve>(got: (Out<P>, Result<sw::GroupProjective<P>, BLSError>), want: Option<(sw::GroupProjective<P>, usize)>, what: &dyn Fn() -> String) -> CaseResult {
    match (&got.0, &want) {
        (Err(_), None) => {}
        (Ok((p, a)), Some((q, b))) => {
            ensure!(a == b, "attempt", "{}: attempt {} want {}", what(), a, b);
            ensure!(p == q, "point", "{}: point {:?} want {:?}", what(), p, q);
            ensure!(!p.is_zero(), "zero", "{}: identity", what());
        }
        (g, w) => ensure!(false, "outcome", "{}: {:?} want {:?}", what(), g.as_ref().map(|x| x.1).map_err(|e| e.to_string()), w.map(|x| x.1)),
    }
    match (&got.1, &want) {
        (Err(_), None) => {}
        (Ok(p), Some((q, _))) => ensure!(p == q, "hash", "{}: hash() gives {:?} want {:?}", what(), p, q),
        _ => ensure!(false, "hash", "{}: hash() and hash_with_attempt() disagree", what()),
    }
    Ok(())
}
/// What a candidate can be.
const KINDS: usize = 9;
const KIND_NAMES: [&str; KINDS] = [
    "x off the curve",
    "point, larger y",
    "point, smaller y",
    "x=0 with infinity flag",
    "x=0 without infinity flag",
    "point with junk in the ignored bits",
    "x out of range",
    "point of an order dividing the cofactor",
    "hasher error",
];
struct Pool<P: Curve> {
    valid: Vec<Vec<u8>>,
    off: Vec<Vec<u8>>,
    torsion: Vec<Vec<u8>>,
    _p: std::marker::PhantomData<P>,
}
fn pool<P: Curve>() -> Pool<P> {
    let (mut valid, mut off, mut torsion) = (vec![], vec![], vec![]);
    let mut i = 1u64;
    while valid.len() < 300 || off.len() < 260 {
        let mut b = pat(P::B::BYTES, 5000 + i);
        for k in (47..P::B::BYTES).step_by(48) {
            b[k] &= 1;
        }
        i += 1;
        match decode_x::<P>(&b, true, false) {
            Dec::Point(p) => {
                if torsion.len() < 6 {
                    let t = p.into_projective().mul(order());
                    if !t.is_zero() {
                        torsion.push(t.into_affine().x.encode());
                    }
                }
                valid.push(b)
            }
            _ => off.push(b),
        }
    }
    Pool { valid, off, torsion, _p: std::marker::PhantomData }
}
impl<P: Curve> Pool<P> {
    fn cand(&self, kind: usize, c: usize) -> Option<Vec<u8>> {
        let n = P::B::BYTES;
        let sign = if COMPAT { 2u8 } else { 0x80 };
        let mut v = match kind {
            0 => self.off[c % self.off.len()].clone(),
            1 | 2 | 5 => self.valid[c % self.valid.len()].clone(),
            3 | 4 => vec![0; n],
            6 => {
                let mut v = vec![0xff; n];
                v[n - 1] = 1;
                v
            }
            7 => self.torsion[c % self.torsion.len()].clone(),
            _ => return None,
        };
        let l = &mut v[n - 1];
        match kind {
            1 => *l |= sign,
            3 => *l |= 0x40,
            5 => {
                // everything but x, the sign and (where x is not zero) the infinity flag is ignored
                *l |= if c % 2 == 0 { 0xfe & !sign } else { 0x3c | sign };
                if n > 48 {
                    v[47] |= 0xfe;
                }
            }
            0 => *l |= if c % 2 == 0 { sign } else { 0x40 },
            7 => *l |= if c % 2 == 0 { sign } else { 0 },
            _ => {}
        }
        Some(v)
    }
}
/// Result the construction prescribes for the script.
fn expect<P: Curve>(script: &dyn Fn(u8) -> Option<Vec<u8>>) -> Option<(sw::GroupProjective<P>, usize)> {
    for c in 0..255u8 {
        match script(c) {
            None => return None,
            Some(b) => {
                if let Some(p) = candidate::<P>(&b, COMPAT) {
                    return Some((p, c as usize));
                }
            }
        }
    }
    None
}
fn scripted<P: Curve>(c: &Check, cip22: bool, depth: usize) {
    let pool = pool::<P>();
    let wrong = pool.valid[299].clone();
    let mode = format!("{}{}", P::NAME, if COMPAT { "" } else { " non-compat" });
    let len = curve_len::<P>();
    let k = KINDS as u64;
    let doms: Vec<Vec<u8>> = vec![b"ULforxof".to_vec(), b"ULforpop".to_vec(), vec![], vec![7], vec![0xff; 8]];
    let texts: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], b"msg".to_vec(), pat(70, 3)];
    c.par(
        &format!("{}: every sequence of candidate kinds of length {}", mode, depth),
        k.pow(depth as u32),
        2,
        |i| {
            let s = mc_common::seq(i, k, depth);
            // the kinds repeat after the first `depth` candidates only as valid points
            let script = |c: u8| pool.cand(if (c as usize) < depth { s[c as usize] } else { 1 + (c as usize) % 2 }, c as usize);
            let (d, m, e) = (&doms[(i % 5) as usize], &texts[(i / 5 % 5) as usize], &texts[(i / 25 % 5) as usize]);
            let h = Scripted { cip22, domain: d, message: m, extra: e, len, script: &script, wrong: &wrong };
            judge::<P>(run::<P>(cip22, &h, d, m, e), expect::<P>(&script), &|| format!("{:?} domain {} message {} extra {}", s, hex(d), shex(m), shex(e)))
        },
        |i| mc_common::seq(i, k, depth).iter().map(|x| KIND_NAMES[*x]).collect::<Vec<_>>().join(", "),
    );
    // position of the first success: every counter, and none
    let fail = [0usize, 3, 4, 6, 7];
    let step = if P::B::BYTES == 96 { c.pick(9, 1) } else { 1 };
    let pos: Vec<u64> = (0..=256u64).filter(|x| x % step == 0 || *x >= 250 || (126..=130).contains(x)).collect();
    c.par(
        &format!("{}: first success at every counter and never", mode),
        pos.len() as u64 * 4,
        2,
        |i| {
            let k = pos[(i / 4) as usize] as usize;
            let script = |c: u8| {
                let c = c as usize;
                if k == 256 || c < k {
                    // a whole run of one kind of failure, or a mixture
                    match i % 4 {
                        0 => pool.cand(0, c),
                        1 => pool.cand(fail[c % 5], c),
                        2 => pool.cand(6, c),
                        _ => pool.cand(if c % 2 == 0 { 4 } else { 0 }, c),
                    }
                } else {
                    pool.cand(1 + c % 2, c)
                }
            };
            let h = Scripted { cip22, domain: b"ULforxof", message: b"m", extra: b"e", len, script: &script, wrong: &wrong };
            let w = expect::<P>(&script);
            ensure!(w.is_some() == (k <= 254), "oracle", "oracle at {}", k);
            judge::<P>(run::<P>(cip22, &h, b"ULforxof", b"m", b"e"), w, &|| format!("first success at counter {} (256: never), failures of pattern {}", k, i % 4))
        },
        |i| format!("first success at {}, pattern {}", pos[(i / 4) as usize], i % 4),
    );
    // an error of the hasher at every early counter
    c.par(
        &format!("{}: hasher error at every counter", mode),
        40,
        2,
        |i| {
            let script = |c: u8| if c as u64 == i { None } else { pool.cand(0, c as usize) };
            let h = Scripted { cip22, domain: b"ULforxof", message: b"m", extra: b"e", len, script: &script, wrong: &wrong };
            judge::<P>(run::<P>(cip22, &h, b"ULforxof", b"m", b"e"), None, &|| format!("error at {}", i))
        },
        |i| format!("error at counter {}", i),
    );
    // the query itself: every domain x message x extra
    let nt = texts.len() as u64;
    c.par(
        &format!("{}: domains x messages x extra data", mode),
        doms.len() as u64 * nt * nt,
        2,
        |i| {
            let (d, m, e) = (&doms[(i / nt / nt) as usize], &texts[(i % nt) as usize], &texts[(i / nt % nt) as usize]);
            let script = |c: u8| pool.cand(if c < 2 { 0 } else { 1 }, c as usize);
            let h = Scripted { cip22, domain: d, message: m, extra: e, len, script: &script, wrong: &wrong };
            judge::<P>(run::<P>(cip22, &h, d, m, e), expect::<P>(&script), &|| format!("domain {} message {} extra {}", hex(d), shex(m), shex(e)))
        },
        |i| format!("{}", i),
    );
}
fn real<P: Curve>(c: &Check, cip22: bool) {
    let mode = format!("{}{}", P::NAME, if COMPAT { "" } else { " non-compat" });
    let composite = CompositeHasher::<CRH>::new().unwrap();
    let doms: Vec<Vec<u8>> = vec![b"ULforxof".to_vec(), b"ULforpop".to_vec(), b"ULforout".to_vec(), vec![], vec![1, 2, 3], vec![0; 8]];
    let mut msgs: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    msgs.insert(0, vec![]);
    for n in [2usize, 3, 7, 31, 32, 33, 34, 35, 63, 64, 65, 128, 200, 255, 300] {
        msgs.push(pat(n, n as u64));
    }
    let extras: Vec<Vec<u8>> = vec![vec![], vec![0], vec![5, 0], pat(36, 8)];
    let stride = if P::B::BYTES == 96 { c.pick(16, 3) } else { c.pick(2, 1) };
    let all = (msgs.len() * doms.len() * extras.len() * 2) as u64;
    c.par(
        &format!("{}: real hashers x domains x messages x extra data", mode),
        all / stride,
        3,
        |i| {
            let i = (i * stride + i / 7 % stride) as usize;
            let inner = if i % 2 == 0 { Inner::Direct } else { Inner::Composite };
            let (m, d, e) = (&msgs[i / 2 % msgs.len()], &doms[i / 2 / msgs.len() % doms.len()], &extras[i / 2 / msgs.len() / doms.len() % extras.len()]);
            let got = match inner {
                Inner::Direct => run::<P>(cip22, &DirectHasher, d, m, e),
                Inner::Composite => {
                    if i / 2 % 3 == 0 {
                        run::<P>(cip22, &*COMPOSITE_HASHER, d, m, e)
                    } else {
                        run::<P>(cip22, &composite, d, m, e)
                    }
                }
            };
            judge::<P>(got, ref_tai::<P>(inner, cip22, COMPAT, d, m, e), &|| format!("{:?} domain {} message {} extra {}", inner, hex(d), shex(m), shex(e)))
        },
        |i| format!("{}", i),
    );
    // long messages and extra data, up to what the hasher takes
    let long = [0usize, 1, 400, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 19500, 32768, 65535, 65536, 65537, 70000];
    let mut l: Vec<(Inner, usize, usize)> = vec![];
    for inner in [Inner::Direct, Inner::Composite] {
        for m in long {
            for e in [0usize, 1, 36, 255, 256, 257, 1000, 4096, 65535, 65536, 65537] {
                let fits = matches!(inner, Inner::Direct) || if cip22 { m <= 19530 } else { 1 + m + e <= 19530 };
                if (m > 300 || e > 36) && fits && (c.thorough() || m < 4000 || e < 300) && (c.thorough() || P::B::BYTES == 48 || e == 0 || m < 2) {
                    l.push((inner, m, e));
                }
            }
        }
    }
    c.par(
        &format!("{}: long messages and extra data", mode),
        l.len() as u64,
        3,
        |i| {
            let (inner, m, e) = l[i as usize];
            let (m, e) = (pat(m, 3), pat(e, 4));
            let d = b"ULforpop";
            let got = match inner {
                Inner::Direct => run::<P>(cip22, &DirectHasher, d, &m, &e),
                Inner::Composite => run::<P>(cip22, &composite, d, &m, &e),
            };
            judge::<P>(got, ref_tai::<P>(inner, cip22, COMPAT, d, &m, &e), &|| format!("{:?} message of {} bytes extra of {}", inner, m.len(), e.len()))
        },
        |i| format!("{:?}", l[i as usize]),
    );
    // unusable domains: an error
    for d in [9usize, 12, 64] {
        c.case("long domain", || {
            let d = pat(d, 1);
            for inner in 0..2 {
                let r = caught(|| {
                    let g = if inner == 0 { run::<P>(cip22, &DirectHasher, &d, b"m", b"") } else { run::<P>(cip22, &composite, &d, b"m", b"") };
                    g.0.is_err() && g.1.is_err()
                });
                ensure!(r == Ok(true), "long-domain", "domain of {} bytes: {:?} instead of an error", d.len(), r);
            }
            Ok(())
        });
        c.count("unusable domains", 1, 2);
    }
}
pub fn suite(c: &Check, cip22: bool) {
    let q = c.pick(true, false);
    scripted::<g1::Parameters>(c, cip22, if q { if COMPAT { 4 } else { 3 } } else { 5 });
    scripted::<g2::Parameters>(c, cip22, if q { 2 } else { 3 });
    real::<g1::Parameters>(c, cip22);
    real::<g2::Parameters>(c, cip22);
    // the ready-made hashers
    c.par(
        "ready-made hashers",
        300,
        3,
        |i| {
            let m = pat((i % 60) as usize, i);
            let e = pat((i / 60) as usize, 2);
            let d: &[u8] = if i % 2 == 0 { b"ULforxof" } else { b"ULforpop" };
            let (got, inner) = if cip22 {
                (COMPOSITE_HASH_TO_G1_CIP22.hash(d, &m, &e), Inner::Composite)
            } else if i % 3 == 0 {
                (DIRECT_HASH_TO_G1.hash(d, &m, &e), Inner::Direct)
            } else {
                (COMPOSITE_HASH_TO_G1.hash(d, &m, &e), Inner::Composite)
            };
            let w = ref_tai::<g1::Parameters>(inner, cip22, COMPAT, d, &m, &e).unwrap().0;
            ensure!(got.ok() == Some(w), "static", "ready-made hasher, message {}", shex(&m));
            Ok(())
        },
        |i| format!("{}", i),
    );
}
