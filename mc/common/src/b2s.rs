//! Reference BLAKE2s (RFC 7693) with the full BLAKE2s parameter block, and BLAKE2Xs on top.
//! Written from the specifications; independent of the crate the repository uses.
const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
fn g(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(12);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(8);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(7);
}
pub fn compress(h: &mut [u32; 8], block: &[u8; 64], t: u64, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last {
        v[14] = !v[14];
    }
    for s in SIGMA.iter() {
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}
/// The 32-byte parameter block.
#[derive(Clone, Copy)]
pub struct Pb {
    pub digest: u8,
    pub key: u8,
    pub fanout: u8,
    pub depth: u8,
    pub leaf: u32,
    pub node_offset: u64, // 48 bits
    pub node_depth: u8,
    pub inner: u8,
    pub salt: [u8; 8],
    pub personal: [u8; 8],
}
impl Pb {
    pub fn sequential(digest: u8) -> Pb {
        Pb { digest, key: 0, fanout: 1, depth: 1, leaf: 0, node_offset: 0, node_depth: 0, inner: 0, salt: [0; 8], personal: [0; 8] }
    }
    pub fn bytes(&self) -> [u8; 32] {
        let mut p = [0u8; 32];
        p[0] = self.digest;
        p[1] = self.key;
        p[2] = self.fanout;
        p[3] = self.depth;
        p[4..8].copy_from_slice(&self.leaf.to_le_bytes());
        p[8..14].copy_from_slice(&self.node_offset.to_le_bytes()[..6]);
        p[14] = self.node_depth;
        p[15] = self.inner;
        p[16..24].copy_from_slice(&self.salt);
        p[24..32].copy_from_slice(&self.personal);
        p
    }
    pub fn hash(&self, msg: &[u8]) -> Vec<u8> {
        let mut out = Pb::hash_block(&self.bytes(), msg);
        out.truncate(self.digest as usize);
        out
    }
    /// All 32 bytes of the state for an arbitrary parameter block.
    pub fn hash_block(p: &[u8; 32], msg: &[u8]) -> Vec<u8> {
        let mut h = IV;
        for i in 0..8 {
            h[i] ^= u32::from_le_bytes([p[4 * i], p[4 * i + 1], p[4 * i + 2], p[4 * i + 3]]);
        }
        let n = msg.len();
        let blocks = if n == 0 { 1 } else { (n + 63) / 64 };
        for b in 0..blocks {
            let mut blk = [0u8; 64];
            let e = (64 * (b + 1)).min(n);
            if 64 * b < e {
                blk[..e - 64 * b].copy_from_slice(&msg[64 * b..e]);
            }
            compress(&mut h, &blk, e as u64, b + 1 == blocks);
        }
        h.iter().flat_map(|w| w.to_le_bytes()).collect()
    }
}
fn person(domain: &[u8]) -> [u8; 8] {
    let mut p = [0u8; 8];
    p[..domain.len()].copy_from_slice(domain);
    p
}
/// The CRH of the direct hasher, from its specification.
pub fn crh(domain: &[u8], msg: &[u8], len: u16) -> Vec<u8> {
    let mut pb = Pb::sequential(32);
    pb.node_offset = (len as u64) << 32;
    pb.personal = person(domain);
    pb.hash(msg)
}
/// BLAKE2Xs expansion of `input`, as the direct hasher specifies it.
pub fn xof(domain: &[u8], input: &[u8], len: u16) -> Vec<u8> {
    let mut out = Vec::with_capacity(len as usize);
    let mut i = 0u64;
    while out.len() < len as usize {
        let n = (len as usize - out.len()).min(32);
        let pb = Pb {
            digest: n as u8,
            key: 0,
            fanout: 0,
            depth: 0,
            leaf: 32,
            node_offset: i | ((len as u64) << 32),
            node_depth: 0,
            inner: 32,
            salt: [0; 8],
            personal: person(domain),
        };
        out.extend(pb.hash(input));
        i += 1;
    }
    out
}
pub fn hash(domain: &[u8], msg: &[u8], len: u16) -> Vec<u8> {
    xof(domain, &crh(domain, msg, len), len)
}
#[path = "b2s_vectors.rs"]
mod vectors;
/// Conformance of the reference itself against vectors computed by Python's hashlib.
pub fn self_test() -> usize {
    for v in vectors::V {
        let msg: Vec<u8> = (0..v.9).map(|i| ((i * 7 + 3) % 256) as u8).collect();
        let pb = Pb { digest: v.0, key: 0, fanout: v.1, depth: v.2, leaf: v.3, node_offset: v.4, node_depth: v.5, inner: v.6, salt: v.7, personal: v.8 };
        assert_eq!(crate::hex(&pb.hash(&msg)), v.10, "reference BLAKE2s");
    }
    vectors::V.len()
}
