//! BLAKE3 hash mode, written from the specification.
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) { s[a] = s[a].wrapping_add(s[b]).wrapping_add(x); s[d] = (s[d] ^ s[a]).rotate_right(16); s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_right(12); s[a] = s[a].wrapping_add(s[b]).wrapping_add(y); s[d] = (s[d] ^ s[a]).rotate_right(8); s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_right(7); }
fn compress(cv: &[u32; 8], block: &[u8; 64], len: u32, t: u64, flags: u32) -> [u32; 16] {
    let mut m = [0u32; 16]; for i in 0..16 { m[i] = u32::from_le_bytes(block[4 * i..4 * i + 4].try_into().unwrap()); }
    let mut s = [cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3], t as u32, (t >> 32) as u32, len, flags];
    for r in 0..7 { for (k, (a, b, c, d)) in [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)].into_iter().enumerate() { g(&mut s, a, b, c, d, m[2 * k], m[2 * k + 1]); } if r < 6 { let o = m; for i in 0..16 { m[i] = o[PERM[i]]; } } }
    for i in 0..8 { s[i] ^= s[i + 8]; s[i + 8] ^= cv[i]; } s
}
fn cv8(s: [u32; 16]) -> [u32; 8] { s[..8].try_into().unwrap() }
fn node(d: &[u8], t: u64, root: bool) -> [u32; 8] {
    if d.len() <= 1024 {
        let mut cv = IV; let n = d.chunks(64).count().max(1);
        for i in 0..n { let b = &d[64 * i..d.len().min(64 * i + 64)]; let mut blk = [0u8; 64]; blk[..b.len()].copy_from_slice(b); let f = if i == 0 { 1 } else { 0 } | if i == n - 1 { 2 | if root { 8 } else { 0 } } else { 0 }; cv = cv8(compress(&cv, &blk, b.len() as u32, t, f)); }
        return cv;
    }
    let l = ((d.len() - 1) / 1024 + 1).next_power_of_two() / 2 * 1024;
    let (a, b) = (node(&d[..l], t, false), node(&d[l..], t + (l / 1024) as u64, false));
    let mut blk = [0u8; 64]; for i in 0..8 { blk[4 * i..4 * i + 4].copy_from_slice(&a[i].to_le_bytes()); blk[32 + 4 * i..36 + 4 * i].copy_from_slice(&b[i].to_le_bytes()); }
    cv8(compress(&IV, &blk, 64, 0, 4 | if root { 8 } else { 0 }))
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash([u8; 32]);
impl Hash { pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } }
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> [u8; 32] { h.0 } }
impl AsRef<[u8]> for Hash { fn as_ref(&self) -> &[u8] { &self.0 } }
pub fn hash(d: &[u8]) -> Hash { let mut o = [0u8; 32]; for (i, w) in node(d, 0, true).iter().enumerate() { o[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes()); } Hash(o) }
#[derive(Clone, Default)]
pub struct Hasher(Vec<u8>);
impl Hasher { pub fn new() -> Self { Self(vec![]) } pub fn update(&mut self, d: &[u8]) -> &mut Self { self.0.extend_from_slice(d); self } pub fn finalize(&self) -> Hash { hash(&self.0) } }
