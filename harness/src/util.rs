pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub fn hex(b: &[u8]) -> String {
    const H: &[u8] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let v = |c: u8| -> u8 { if c <= b'9' { c - b'0' } else { c - b'a' + 10 } };
    (0..b.len() / 2).map(|i| v(b[2 * i]) * 16 + v(b[2 * i + 1])).collect()
}
/// For some texts: texts that are easily taken for the same one (a result remembered from the text
/// before shows on these).
pub fn alike(b: &[u8]) -> Vec<Vec<u8>> {
    let n = b.len();
    let mut h = fnv(b);
    if n < 2 || h % 4 != 0 { return vec![]; }
    let mut next = |m: usize| -> usize {
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (h >> 29);
        ((h >> 11) % m as u64) as usize
    };
    let mut o = vec![];
    let mut v = b.to_vec();
    let (i, j) = (next(n), next(n));
    v.swap(i, j);
    o.push(v.clone());
    let mut v = b.to_vec();
    v[next(n)] ^= [0x20, 0x40, 0x80, 0x60, 0x01, 0x10][next(6)];
    o.push(v);
    let mut v = b.to_vec();
    v.rotate_left(1);
    o.push(v);
    let mut v = b.to_vec();
    v.swap(n - 1, next(n));
    o.push(v);
    o
}
