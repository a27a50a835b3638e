//! Independent AES-256, CTR (64-bit big-endian counter) and GCM, from FIPS 197 and SP 800-38D; oracle only.
fn xt(a: u8) -> u8 { (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 } }
fn gm(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 != 0 { r ^= a; } a = xt(a); b >>= 1; } r }
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for i in 0..256usize {
            let mut inv = 0u8;
            for j in 0..256usize { if gm(i as u8, j as u8) == 1 { inv = j as u8; } }
            s[i] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        s
    })
}
pub struct Aes { rk: Vec<[u8; 4]> }
impl Aes {
    pub fn new(key: &[u8]) -> Self {
        assert_eq!(key.len(), 32);
        let s = sbox();
        let mut w: Vec<[u8; 4]> = (0..8).map(|i| [key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]).collect();
        let mut rc = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 { t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]]; rc = xt(rc); }
            else if i % 8 == 4 { for b in t.iter_mut() { *b = s[*b as usize]; } }
            let p = w[i - 8];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes { rk: w }
    }
    pub fn block(&self, b: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut st = *b;
        let ark = |st: &mut [u8; 16], r: usize| for c in 0..4 { for k in 0..4 { st[4 * c + k] ^= self.rk[4 * r + c][k]; } };
        ark(&mut st, 0);
        for r in 1..15 {
            for x in st.iter_mut() { *x = s[*x as usize]; }
            let o = st;
            for c in 0..4 { for k in 0..4 { st[4 * c + k] = o[4 * ((c + k) % 4) + k]; } }
            if r != 14 {
                for c in 0..4 {
                    let a = [st[4 * c], st[4 * c + 1], st[4 * c + 2], st[4 * c + 3]];
                    for k in 0..4 { st[4 * c + k] = xt(a[k]) ^ xt(a[(k + 1) % 4]) ^ a[(k + 1) % 4] ^ a[(k + 2) % 4] ^ a[(k + 3) % 4]; }
                }
            }
            ark(&mut st, r);
        }
        st
    }
}
fn xor_stream(a: &Aes, mut ctr: [u8; 16], low: usize, msg: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(msg.len());
    for ch in msg.chunks(16) {
        let k = a.block(&ctr);
        for (i, b) in ch.iter().enumerate() { out.push(b ^ k[i]); }
        for i in (16 - low..16).rev() { ctr[i] = ctr[i].wrapping_add(1); if ctr[i] != 0 { break; } }
    }
    out
}
pub fn ctr64(key: &[u8], iv: &[u8], msg: &[u8]) -> Vec<u8> { xor_stream(&Aes::new(key), iv.try_into().unwrap(), 8, msg) }
fn gmul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in 0..128 { if (x >> (127 - i)) & 1 == 1 { z ^= v; } let l = v & 1; v >>= 1; if l == 1 { v ^= 0xe1u128 << 120; } }
    z
}
/// ciphertext || 16-byte tag, with no associated data
pub fn gcm_seal(key: &[u8], nonce: &[u8], msg: &[u8]) -> Vec<u8> {
    let a = Aes::new(key);
    let h = u128::from_be_bytes(a.block(&[0; 16]));
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(nonce);
    j0[15] = 1;
    let mut c1 = j0;
    c1[15] = 2;
    let mut ct = xor_stream(&a, c1, 4, msg);
    let mut y = 0u128;
    for ch in ct.chunks(16) { let mut b = [0u8; 16]; b[..ch.len()].copy_from_slice(ch); y = gmul(y ^ u128::from_be_bytes(b), h); }
    y = gmul(y ^ (ct.len() as u128 * 8), h);
    let t = (y ^ u128::from_be_bytes(a.block(&j0))).to_be_bytes();
    ct.extend_from_slice(&t);
    ct
}
