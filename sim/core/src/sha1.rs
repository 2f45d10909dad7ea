//! SHA-1, written for the oracles (independent of the code under test).
pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut tail = data[data.len() / 64 * 64..].to_vec();
    tail.push(0x80);
    while tail.len() % 64 != 56 { tail.push(0); }
    tail.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for blk in data.chunks_exact(64).chain(tail.chunks_exact(64)) {
        let mut w = [0u32; 80];
        for (i, c) in blk.chunks_exact(4).enumerate() { w[i] = u32::from_be_bytes([c[0], c[1], c[2], c[3]]); }
        for i in 16..80 { w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 { 0 => ((b & c) | (!b & d), 0x5A827999), 1 => (b ^ c ^ d, 0x6ED9EBA1), 2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC), _ => (b ^ c ^ d, 0xCA62C1D6u32) };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d; d = c; c = b.rotate_left(30); b = a; a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) { *x = x.wrapping_add(y); }
    }
    let mut o = [0; 20];
    for (i, x) in h.iter().enumerate() { o[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes()); }
    o
}
