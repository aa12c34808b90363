//! Random types, values, header fields and messages.
use crate::names::random_valid;
use crate::rng::Rng;
use crate::wire::*;

pub const BASIC: &[u8] = b"ybnqiuxtdsogh";
pub struct Cfg { pub depth: usize, pub len: usize, pub fd: usize, pub vmax: usize }
pub fn sig(r: &mut Rng, c: &Cfg, depth: usize) -> String {
    if r.chance(c.fd, 10) { return "h".into(); }
    let k = if depth == 0 { 0 } else { r.below(10) };
    match k {
        0..=4 => (*r.pick(BASIC) as char).to_string(),
        5 | 6 => format!("a{}", sig(r, c, depth - 1)),
        7 => { let n = 1 + r.below(3); format!("({})", (0..n).map(|_| sig(r, c, depth - 1)).collect::<String>()) }
        8 => format!("a{{{}{}}}", *r.pick(BASIC) as char, sig(r, c, depth - 1)),
        _ => "v".into(),
    }
}
pub fn sigs(r: &mut Rng, c: &Cfg, n: usize) -> String { (0..n).map(|_| sig(r, c, c.depth)).collect() }
pub fn string(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 30, 200]);
    let n = if n > 8 { r.below(n) } else { n };
    (0..n).map(|_| *r.pick(&['a', 'b', '/', '.', '\'', '\\', ',', '=', ' ', '\u{0}', '\u{7f}', '\u{e9}', '\u{20ac}', '\u{1f600}', '_', 'z', '1'])).collect()
}
pub fn val(r: &mut Rng, t: &[u8], c: &Cfg, vd: usize) -> V {
    let edge = |r: &mut Rng| -> u64 { match r.below(6) { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => 1u64 << r.below(64), 4 => 0x0102_0304_0506_0708, _ => r.u64() } };
    match t[0] {
        b'y' => V::Y(edge(r) as u8), b'b' => V::B(r.chance(1, 2)), b'n' => V::N(edge(r) as i16), b'q' => V::Q(edge(r) as u16), b'i' => V::I(edge(r) as i32), b'u' => V::U(edge(r) as u32),
        b'x' => V::X(edge(r) as i64), b't' => V::T(edge(r)), b'd' => V::D(if r.chance(1, 4) { edge(r) } else { (r.u64() as i32 as f64 / 7.0).to_bits() }),
        b's' => V::S(string(r)), b'o' => V::O(String::from_utf8(random_valid(r, "path")).unwrap()),
        b'g' => { let n = r.below(3); V::G({ let s = sigs(r, &Cfg { depth: 3, len: 2, fd: 0, vmax: 0 }, n); if s.len() > 255 { String::new() } else { s } }) }
        b'h' => V::H(r.below(6) as i32),
        b'a' => { let n = match r.below(4) { 0 => 0, 1 => 1, _ => r.below(c.len + 1) }; V::A(String::from_utf8(t[1..].to_vec()).unwrap(), (0..n).map(|_| val(r, &t[1..], c, vd)).collect()) }
        b'(' => V::R(parts(t).iter().map(|x| val(r, x, c, vd)).collect()),
        b'{' => { let p = parts(t); V::E(Box::new((val(r, &p[0], c, vd), val(r, &p[1], c, vd)))) }
        _ => {
            let d = if vd + 1 >= c.vmax { 0 } else { c.depth.saturating_sub(1) };
            let mut s = if vd + 1 < c.vmax && r.chance(1, 4) { "v".to_string() } else { sig(r, c, d) };
            if vd + 1 >= c.vmax && s.contains('v') { s = "y".into(); }
            V::V(Box::new(val(r, s.as_bytes(), c, vd + 1)))
        }
    }
}
pub fn parts(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 1;
    while i < t.len() - 1 { let j = one(t, i, 0, 0, 0).unwrap_or(t.len() - 1); v.push(t[i..j].to_vec()); i = j; }
    v
}
pub fn name(r: &mut Rng, k: &str) -> String { String::from_utf8(random_valid(r, k)).unwrap() }
pub fn field(r: &mut Rng, c: u8) -> V {
    match c { 1 => V::O(name(r, "path")), 2 => V::S(name(r, "interface")), 3 => V::S(name(r, "member")), 4 => V::S(name(r, "error")), 5 | 9 => V::U(r.below(4) as u32), 6 | 7 => V::S(name(r, "bus")), _ => V::G("".into()) }
}
/// a valid message; the body's descriptors are numbers (values or indices, as the caller wants)
pub fn msg(r: &mut Rng, c: &Cfg, nvals: usize) -> Raw {
    let typ = 1 + r.below(4) as u8;
    let mut fields = vec![];
    for k in [1u8, 2, 3, 4, 5, 6, 7].iter() {
        let need = match typ { 1 => *k == 1 || *k == 3, 2 => *k == 5, 3 => *k == 4 || *k == 5, _ => *k <= 3 };
        if need || r.chance(2, 5) { fields.push((*k, field(r, *k))); }
    }
    if r.chance(1, 6) { fields.push((9, V::U(r.u64() as u32))); }
    if r.chance(1, 4) { for i in (1..fields.len()).rev() { let j = r.below(i + 1); fields.swap(i, j); } }
    let n = if nvals == 0 { 0 } else { r.below(nvals + 1) };
    let mut body = vec![];
    for _ in 0..n {
        let s = sig(r, c, c.depth);
        if s.len() + body_sig(&body).len() > 250 { continue; }
        body.push(val(r, s.as_bytes(), c, 0));
    }
    Raw { le: r.chance(1, 2), typ, flags: r.below(8) as u8, version: *r.pick(&[1u8, 1, 0, 255]), serial: r.u64() as u32 >> r.below(32), fields, body }
}
/// the fields as they must stand on the wire (body signature included at a random place)
pub fn with_sig(r: &mut Rng, m: &Raw) -> Raw {
    let mut m = m.clone();
    if !m.body.is_empty() { let i = r.below(m.fields.len() + 1); m.fields.insert(i, (8, V::G(body_sig(&m.body)))); }
    else if r.chance(1, 8) { m.fields.push((8, V::G("".into()))); }
    m
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        if b.is_empty() { return; }
        let i = if r.chance(1, 3) { r.below(b.len().min(24)) } else { r.below(b.len()) };
        match r.below(9) {
            0 => b[i] = r.u64() as u8,
            1 => b[i] ^= 1 << r.below(8),
            2 => b[i] = *r.pick(&[0u8, 1, 2, 0xff, 0x7f, 0x80, b'a', b'(', b'v', b'h', b's']),
            3 => { b.remove(i); }
            4 => b.insert(i, *r.pick(&[0u8, 0, 1, 255, b'a'])),
            5 => b.truncate(i),
            6 => { for _ in 0..r.below(12) { b.push(if r.chance(1, 2) { 0 } else { r.u64() as u8 }); } }
            7 => { // a length word
                let j = i & !3;
                let w = *r.pick(&[0u32, 1, 2, 3, 4, 5, 8, 0xffff_ffff, 0xffff_fffb, 0x7fff_ffff, 67108864, 67108865, 134217728, 256]);
                let w = if r.chance(1, 2) { w.to_le_bytes() } else { w.to_be_bytes() };
                if j + 4 <= b.len() { b[j..j + 4].copy_from_slice(&w); }
            }
            _ => { b[i] = b[i].wrapping_add(if r.chance(1, 2) { 1 } else { 255 }); }
        }
    }
}
