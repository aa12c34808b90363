//! Bounded tests of the contracts ASSUMED for std and for the bytes crate (contracts/00_bytes.rs, 01_th.rs, 02_std.rs):
//! every stand-in's postcondition, written out over plain vectors, against the real function.
//! They support the assumptions; they are never counted as proof.
use crate::rng::Rng;
use bytes::{Buf, BufMut, Bytes, BytesMut};

type R = Result<(), String>;
fn same<T: PartialEq + std::fmt::Debug>(what: &str, real: T, contract: T) -> R {
    if real == contract { Ok(()) } else { Err(format!("{}: the real function gives {:?}, the assumed contract says {:?}", what, real, contract)) }
}
/// the number whose bytes are given, least significant first if le
fn rd(b: &[u8], le: bool) -> u128 {
    let mut v = 0u128;
    for i in 0..b.len() {
        let x = if le { b[b.len() - 1 - i] } else { b[i] };
        v = v * 256 + x as u128;
    }
    v
}
fn wr(v: u128, n: usize, le: bool) -> Vec<u8> {
    let mut o: Vec<u8> = (0..n).map(|i| (v / 256u128.pow(i as u32) % 256) as u8).collect();
    if !le { o.reverse(); }
    o
}
fn bytes_of(r: &mut Rng) -> Vec<u8> {
    let n = r.below(40);
    (0..n).map(|_| *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, b'a', b'/', b'.', 0x55])).collect::<Vec<u8>>().into_iter().map(|b| if r.chance(1, 3) { r.u64() as u8 } else { b }).collect()
}
fn text_of(r: &mut Rng) -> String {
    let n = r.below(12);
    (0..n).map(|_| *r.pick(&['a', 'b', '/', '.', '0', '9', '+', '-', ',', '=', '\'', '\\', '\0', 'ß', 'ż', '€', '\u{10348}', '\u{80}', 'Z', ':'])).collect()
}
fn number(r: &mut Rng) -> u128 {
    let v = r.u64();
    (match r.below(4) { 0 => v, 1 => v % 300, 2 => 1u64 << (v % 64), _ => (1u64 << (v % 64)).wrapping_sub(1) }) as u128
}

macro_rules! gets { ($b:expr, $($n:expr, $f:ident, $t:ty, $le:expr);*) => { $( {
    if $b.len() >= $n {
        let mut x = Bytes::from($b.clone());
        let v = x.$f();
        same(stringify!($f), v, rd(&$b[..$n], $le) as $t)?;
        same(stringify!($f), x.to_vec(), $b[$n..].to_vec())?;
    } } )* } }
macro_rules! puts { ($b:expr, $v:expr, $($n:expr, $f:ident, $t:ty, $le:expr);*) => { $( {
    let mut x = BytesMut::new();
    x.put(&$b[..]);
    x.$f($v as $t);
    let mut e = $b.clone();
    e.extend(wr($v & (256u128.pow($n) - 1), $n, $le));
    same(stringify!($f), x.to_vec(), e)?;
    } )* } }

fn buffers(r: &mut Rng) -> R {
    let b = bytes_of(r);
    gets!(b, 2, get_u16_le, u16, true; 2, get_u16, u16, false; 2, get_i16_le, i16, true; 2, get_i16, i16, false;
        4, get_u32_le, u32, true; 4, get_u32, u32, false; 4, get_i32_le, i32, true; 4, get_i32, i32, false;
        8, get_u64_le, u64, true; 8, get_u64, u64, false; 8, get_i64_le, i64, true; 8, get_i64, i64, false);
    let v = number(r);
    puts!(b, v, 2, put_u16_le, u16, true; 2, put_u16, u16, false; 2, put_i16_le, i16, true; 2, put_i16, i16, false;
        4, put_u32_le, u32, true; 4, put_u32, u32, false; 4, put_i32_le, i32, true; 4, put_i32, i32, false;
        8, put_u64_le, u64, true; 8, put_u64, u64, false; 8, put_i64_le, i64, true; 8, put_i64, i64, false; 1, put_u8, u8, true);
    for le in [true, false].iter() {
        let mut x = BytesMut::new();
        let d = f64::from_bits(v as u64);
        if *le { x.put_f64_le(d) } else { x.put_f64(d) }
        same("put_f64", x.to_vec(), wr(v, 8, *le))?;
        same("f64 bits", d.to_bits() as u128, v)?;
    }
    // Bytes: len, is_empty, slice in its three forms, indexing, iteration, as_ref, to_vec, From<Vec>, clone
    let x = Bytes::from(b.clone());
    same("len", x.len(), b.len())?;
    same("is_empty", x.is_empty(), b.is_empty())?;
    let hi = r.below(b.len() + 1);
    let lo = r.below(hi + 1);
    same("slice", x.slice(lo..hi).to_vec(), b[lo..hi].to_vec())?;
    same("slice", x.slice(lo..).to_vec(), b[lo..].to_vec())?;
    same("slice", x.slice(..hi).to_vec(), b[..hi].to_vec())?;
    same("slice, original", &x[..], &b[..])?;
    same("as_ref", x.as_ref(), &b[..])?;
    same("clone", x.clone().to_vec(), b.clone())?;
    same("into_iter", x.clone().into_iter().collect::<Vec<u8>>(), b.clone())?;
    if lo < b.len() { same("index", x[lo], b[lo])?; }
    // BytesMut
    let mut y = BytesMut::new();
    same("new", y.len(), 0)?;
    y.put(&b[..lo]);
    y.reserve(r.below(100));
    same("reserve", &y[..], &b[..lo])?;
    let mut z = BytesMut::new();
    z.put(&b[lo..]);
    y.extend(z);
    same("extend", &y[..], &b[..])?;
    if lo < b.len() {
        y[lo] = v as u8;
        let mut e = b.clone();
        e[lo] = v as u8;
        same("set", &y[..], &e[..])?;
    }
    same("len", y.len(), b.len())?;
    same("freeze", y.clone().freeze().to_vec(), y.to_vec())?;
    let u = v as u32;
    same("to_le_bytes", u.to_le_bytes().to_vec(), wr(u as u128, 4, true))?;
    same("to_be_bytes", u.to_be_bytes().to_vec(), wr(u as u128, 4, false))?;
    Ok(())
}

/// UTF-8 as the Unicode standard defines it (what vstd::utf8 says)
fn enc(c: char) -> Vec<u8> {
    let v = c as u32;
    if v < 0x80 { vec![v as u8] }
    else if v < 0x800 { vec![0xc0 | (v >> 6) as u8, 0x80 | (v & 63) as u8] }
    else if v < 0x10000 { vec![0xe0 | (v >> 12) as u8, 0x80 | (v >> 6 & 63) as u8, 0x80 | (v & 63) as u8] }
    else { vec![0xf0 | (v >> 18) as u8, 0x80 | (v >> 12 & 63) as u8, 0x80 | (v >> 6 & 63) as u8, 0x80 | (v & 63) as u8] }
}
fn sb(s: &[char]) -> Vec<u8> { s.iter().flat_map(|c| enc(*c)).collect() }
fn valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let n = if c < 0x80 { 1 } else if c >= 0xc2 && c < 0xe0 { 2 } else if c >= 0xe0 && c < 0xf0 { 3 } else if c >= 0xf0 && c < 0xf5 { 4 } else { return false };
        if i + n > b.len() { return false; }
        for j in 1..n { if b[i + j] & 0xc0 != 0x80 { return false; } }
        if c == 0xe0 && b[i + 1] < 0xa0 || c == 0xed && b[i + 1] >= 0xa0 || c == 0xf0 && b[i + 1] < 0x90 || c == 0xf4 && b[i + 1] >= 0x90 { return false; }
        i += n;
    }
    true
}
fn pieces(s: &[u8], c: u8) -> Vec<Vec<u8>> {
    let mut o = vec![vec![]];
    for b in s { if *b == c { o.push(vec![]) } else { o.last_mut().unwrap().push(*b) } }
    o
}
fn pre(p: &[u8], s: &[u8]) -> bool { p.len() <= s.len() && (0..p.len()).all(|i| p[i] == s[i]) }
fn suf(p: &[u8], s: &[u8]) -> bool { p.len() <= s.len() && (0..p.len()).all(|i| p[i] == s[s.len() - p.len() + i]) }
fn usize_of(s: &[char]) -> Option<usize> {
    let t = if s.len() > 1 && s[0] == '+' { &s[1..] } else { s };
    if t.is_empty() || !t.iter().all(|c| *c >= '0' && *c <= '9') { return None; }
    let mut v = 0u128;
    for c in t { v = (v * 10 + (*c as u128 - 48)).min(1 << 100); }
    if v <= usize::MAX as u128 { Some(v as usize) } else { None }
}
fn dec(n: u128) -> Vec<u8> { if n < 10 { vec![48 + n as u8] } else { let mut o = dec(n / 10); o.push(48 + (n % 10) as u8); o } }

fn texts(r: &mut Rng) -> R {
    let s = text_of(r);
    let cs: Vec<char> = s.chars().collect();
    let bs = sb(&cs);
    same("as_bytes", s.as_bytes(), &bs[..])?;
    same("len", s.len(), bs.len())?;
    same("String::from_utf8_unchecked", unsafe { String::from_utf8_unchecked(bs.clone()) }, s.clone())?;
    let mut raw = bytes_of(r);
    if r.chance(1, 2) { raw = bs.clone(); if !raw.is_empty() && r.chance(1, 2) { let i = r.below(raw.len()); raw[i] = r.u64() as u8; } if r.chance(1, 3) { raw.pop(); } }
    match std::str::from_utf8(&raw) {
        Ok(t) => { same("from_utf8", &t.as_bytes()[..], &raw[..])?; same("from_utf8 accepts", true, valid(&raw))? }
        Err(_) => same("from_utf8 rejects", false, valid(&raw))?,
    }
    let t = if r.chance(1, 2) { let n = r.below(cs.len() + 1); if r.chance(1, 2) { cs[..n].iter().collect() } else { cs[n..].iter().collect() } } else { text_of(r) };
    let tc: Vec<char> = t.chars().collect();
    let tb = sb(&tc);
    let c = if r.chance(1, 2) && !cs.is_empty() { *r.pick(&cs) } else { *r.pick(&['/', '.', ',', '\'', '=', 'ß']) };
    let cb = enc(c);
    same("starts_with str", s.starts_with(&t[..]), pre(&tb, &bs))?;
    same("ends_with str", s.ends_with(&t[..]), suf(&tb, &bs))?;
    same("starts_with slice", bs.starts_with(&tb), pre(&tb, &bs))?;
    if (c as u32) < 128 {
        same("starts_with char", s.starts_with(c), !bs.is_empty() && bs[0] == c as u8)?;
        let mut it = s.split(c);
        let mut left: Vec<Vec<u8>> = pieces(&bs, c as u8);
        loop {
            let cl: Vec<Vec<u8>> = it.clone().map(|p| p.as_bytes().to_vec()).collect();
            same("split, clone", cl, left.clone())?;
            match it.next() { Some(p) => { same("split", p.as_bytes().to_vec(), left.remove(0))? } None => { same("split, end", left.len(), 0)?; break } }
        }
        same("split, after the end", it.next().is_none(), true)?;
        let mut p = s.clone();
        p.push(c);
        let mut e = bs.clone();
        e.push(c as u8);
        same("push", p.into_bytes(), e)?;
    }
    same("ends_with char", s.ends_with(c), suf(&cb, &bs))?;
    for (what, got, p) in [("strip_prefix str", s.strip_prefix(&t[..]), &tb), ("strip_prefix char", s.strip_prefix(c), &cb)].iter() {
        match got { Some(x) => { let mut e = p.to_vec(); e.extend(x.as_bytes()); same(what, &e, &bs)? } None => same(what, pre(p, &bs), false)? }
    }
    for (what, got, p) in [("strip_suffix str", s.strip_suffix(&t[..]), &tb), ("strip_suffix char", s.strip_suffix(c), &cb)].iter() {
        match got { Some(x) => { let mut e = x.as_bytes().to_vec(); e.extend(p.iter()); same(what, &e, &bs)? } None => same(what, suf(p, &bs), false)? }
    }
    let i = r.below(cs.len() + 1);
    let (a, b) = s.split_at(sb(&cs[..i]).len());
    same("split_at", (a.chars().collect::<Vec<_>>(), b.chars().collect::<Vec<_>>()), (cs[..i].to_vec(), cs[i..].to_vec()))?;
    match s.split_once(c) {
        Some((a, b)) => { let mut e: Vec<char> = a.chars().collect(); same("split_once, first", e.contains(&c), false)?; e.push(c); e.extend(b.chars()); same("split_once", &e, &cs)? }
        None => same("split_once", cs.contains(&c), false)?,
    }
    let ci: Vec<(usize, char)> = (0..cs.len()).map(|i| (sb(&cs[..i]).len(), cs[i])).collect();
    same("char_indices", s.char_indices().collect::<Vec<_>>(), ci)?;
    same("String == str", s == *t, cs == tc)?;
    same("String == &str", s == &t[..], cs == tc)?;
    same("str == String", *s == t, cs == tc)?;
    same("String == String", s == t, cs == tc)?;
    let cat = s.clone() + &t;
    same("+", cat.into_bytes(), { let mut e = bs.clone(); e.extend(&tb); e })?;
    // numerals
    let num: String = match r.below(4) {
        0 => (0..r.below(24)).map(|_| *r.pick(&['0', '1', '9'])).collect(),
        1 => format!("{}{}", r.pick(&["", "+", "-", " ", "++"]), number(r) * (1 + (r.below(40) as u128))),
        2 => format!("{}{}", *r.pick(&["", "+", "0", "00"]), (u64::MAX as u128) + r.below(3) as u128 - 1),
        _ => text_of(r),
    };
    same("parse::<usize>", num.parse::<usize>().ok(), usize_of(&num.chars().collect::<Vec<_>>()))?;
    let v = number(r);
    same("usize Display", (v as usize).to_string().into_bytes(), dec(v))?;
    same("u8 Display", (v as u8).to_string().into_bytes(), dec(v % 256))?;
    same("str Display", format!("{}{}", s, &t[..]), s.clone() + &t)?;
    // options and positions
    let o = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(r.below(3)) };
    let (a, b) = (o(r), o(r));
    same("max", std::cmp::max(a, b), match (a, b) { (None, _) => b, (_, None) => a, (Some(x), Some(y)) => if x > y { a } else { b } })?;
    let vs: Vec<i32> = (0..r.below(6)).map(|_| r.below(4) as i32 - 1).collect();
    let d = r.below(5) as i32 - 1;
    let mut first = None;
    for j in (0..vs.len()).rev() { if vs[j] == d { first = Some(j) } }
    same("position", vs.iter().position(|i| *i == d), first)?;
    same("from_ref", std::slice::from_ref(&d), &[d][..])?;
    same("to_vec", vs[..].to_vec(), vs.clone())?;
    Ok(())
}
/// contracts/02_std.rs
fn more(r: &mut Rng) -> R {
    let o = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(r.below(3)) };
    let (a, b) = (o(r), o(r));
    same("copied", a.as_ref().copied(), match a { Some(x) => Some(x), None => None })?;
    same("or", a.or(b), if a.is_some() { a } else { b })?;
    same("and", a.and(b), if a.is_some() { b } else { None })?;
    let mut c = a;
    same("replace", (c.replace(7), c), (a, Some(7)))?;
    let e: Result<usize, ()> = a.ok_or(());
    same("unwrap_or", e.unwrap_or(9), match e { Ok(x) => x, Err(_) => 9 })?;
    let v: Vec<u8> = bytes_of(r);
    let x = r.u64() as u8 % 3;
    same("contains", v.contains(&x), (0..v.len()).any(|i| v[i] == x))?;
    match v.split_last() { Some((l, i)) => { same("split_last", *l, v[v.len() - 1])?; same("split_last", i, &v[..v.len() - 1])? } None => same("split_last", v.len(), 0)? }
    let mut m = x;
    same("mem::replace", (std::mem::replace(&mut m, 200), m), (x, 200))?;
    let (p, q) = (number(r) as usize, number(r) as usize);
    same("abs_diff", p.abs_diff(q), if p >= q { p - q } else { q - p })?;
    same("is_power_of_two", p.is_power_of_two(), p != 0 && p & (p.wrapping_sub(1)) == 0)?;
    if q > 0 {
        let t = (p as u128 + q as u128 - 1) / q as u128;
        if t * (q as u128) <= usize::MAX as u128 { same("next_multiple_of", p.next_multiple_of(q) as u128, t * q as u128)? }
        same("div_ceil", p.div_ceil(q) as u128, t)?;
        same("rem_euclid", p.rem_euclid(q), p % q)?;
        let (p, q) = (p as u32, q as u32);
        if q > 0 {
            let t = (p as u128 + q as u128 - 1) / q as u128;
            if t * (q as u128) <= u32::MAX as u128 { same("next_multiple_of u32", p.next_multiple_of(q) as u128, t * q as u128)? }
            same("rem_euclid u32", p.rem_euclid(q), p % q)?;
        }
    }
    same("max", (std::cmp::max(p, q), std::cmp::max(p as u32, q as u32), std::cmp::max(p as u8, q as u8)), (if p > q { p } else { q }, if p as u32 > q as u32 { p as u32 } else { q as u32 }, if p as u8 > q as u8 { p as u8 } else { q as u8 }))?;
    same("min", (std::cmp::min(p, q), std::cmp::min(p as u32, q as u32), std::cmp::min(p as u8, q as u8)), (if p > q { q } else { p }, if p as u32 > q as u32 { q as u32 } else { p as u32 }, if p as u8 > q as u8 { q as u8 } else { p as u8 }))?;
    same("min Option", std::cmp::min(a, b), match (a, b) { (None, _) => a, (_, None) => b, (Some(x), Some(y)) => if x > y { b } else { a } })?;
    let n = p as u128;
    for le in [true, false].iter() {
        let w = |k: usize| wr(n & (256u128.pow(k as u32) - 1), k, *le);
        let (a2, a4, a8) = ([w(2)[0], w(2)[1]], [w(4)[0], w(4)[1], w(4)[2], w(4)[3]], { let z = w(8); [z[0], z[1], z[2], z[3], z[4], z[5], z[6], z[7]] });
        if *le {
            same("to_le_bytes", ((n as u16).to_le_bytes(), (n as u32).to_le_bytes(), (n as u64).to_le_bytes()), (a2, a4, a8))?;
            same("from_le_bytes", (u16::from_le_bytes(a2), u32::from_le_bytes(a4), u64::from_le_bytes(a8)), (n as u16, n as u32, n as u64))?;
        } else {
            same("to_be_bytes", ((n as u16).to_be_bytes(), (n as u32).to_be_bytes(), (n as u64).to_be_bytes()), (a2, a4, a8))?;
            same("from_be_bytes", (u16::from_be_bytes(a2), u32::from_be_bytes(a4), u64::from_be_bytes(a8)), (n as u16, n as u32, n as u64))?;
        }
    }
    same("swap_bytes", (n as u32).swap_bytes() as u128, rd(&wr(n & 0xffff_ffff, 4, true), false))?;
    // text searches
    let s = text_of(r);
    let bs = sb(&s.chars().collect::<Vec<_>>());
    let t: String = match r.below(3) { 0 => text_of(r), 1 => s.chars().take(r.below(3)).collect(), _ => s.chars().rev().take(1).collect() };
    let tb = sb(&t.chars().collect::<Vec<_>>());
    let c = *r.pick(&['a', '/', '.', 'ß']);
    let first = |p: &[u8]| (0..=bs.len()).find(|i| pre(p, &bs[*i..]));
    same("find str", s.find(&t[..]), first(&tb))?;
    same("find char", s.find(c), first(&enc(c)))?;
    same("contains str", s.contains(&t[..]), first(&tb).is_some())?;
    same("contains char", s.contains(c), first(&enc(c)).is_some())?;
    let ltrim = |p: &[u8]| { let mut x = &bs[..]; while !p.is_empty() && pre(p, x) { x = &x[p.len()..] } x.to_vec() };
    let rtrim = |p: &[u8]| { let mut x = &bs[..]; while !p.is_empty() && suf(p, x) { x = &x[..x.len() - p.len()] } x.to_vec() };
    same("trim_start_matches", (s.trim_start_matches(&t[..]).as_bytes().to_vec(), s.trim_start_matches(c).as_bytes().to_vec()), (ltrim(&tb), ltrim(&enc(c))))?;
    same("trim_end_matches", (s.trim_end_matches(&t[..]).as_bytes().to_vec(), s.trim_end_matches(c).as_bytes().to_vec()), (rtrim(&tb), rtrim(&enc(c))))?;
    // slices of a text: `s[a..b]` panics exactly when `s.get(a..b)` is None
    for a in 0..bs.len() + 2 {
        let edge = |n: usize| n <= bs.len() && valid(&bs[..n]);
        let is = |x: Option<&str>| x.map(|x| x.as_bytes().to_vec());
        same("slice from", is(s.get(a..)), if edge(a) { Some(bs[a..].to_vec()) } else { None })?;
        same("slice to", is(s.get(..a)), if edge(a) { Some(bs[..a].to_vec()) } else { None })?;
        let b = r.below(bs.len() + 2);
        same("slice", is(s.get(a..b)), if a <= b && edge(a) && edge(b) { Some(bs[a..b].to_vec()) } else { None })?;
    }
    // buffers
    let w = Bytes::from(v.clone());
    same("first", w.first().copied(), if v.is_empty() { None } else { Some(v[0]) })?;
    same("last", w.last().copied(), if v.is_empty() { None } else { Some(v[v.len() - 1]) })?;
    let i = r.below(45);
    same("get", w.get(i).copied(), if i < v.len() { Some(v[i]) } else { None })?;
    let mut y = BytesMut::with_capacity(i);
    same("with_capacity", y.to_vec(), vec![])?;
    y.put_slice(&bs);
    same("is_empty", y.is_empty(), bs.is_empty())?;
    y.extend_from_slice(&v);
    y.put(&v[..]);
    y.put(w);
    y.extend(BytesMut::from(&bs[..]));
    let all = [&bs[..], &v[..], &v[..], &v[..], &bs[..]].concat();
    same("appended", y.to_vec(), all.clone())?;
    y.truncate(i);
    same("truncate", y.to_vec(), all[..i.min(all.len())].to_vec())?;
    y.clear();
    same("clear", y.to_vec(), vec![])?;
    Ok(())
}
fn classes() -> R {
    for c in 0..=255u8 {
        let alpha = c >= 65 && c <= 90 || c >= 97 && c <= 122;
        let digit = c >= 48 && c <= 57;
        same("is_ascii_alphabetic", c.is_ascii_alphabetic(), alpha)?;
        same("is_ascii_digit", c.is_ascii_digit(), digit)?;
        same("is_ascii_alphanumeric", c.is_ascii_alphanumeric(), alpha || digit)?;
        same("is_ascii_uppercase", c.is_ascii_uppercase(), 65 <= c && c <= 90)?;
        same("is_ascii_lowercase", c.is_ascii_lowercase(), 97 <= c && c <= 122)?;
        same("is_ascii_punctuation", c.is_ascii_punctuation(), 33 <= c && c <= 126 && !(alpha || digit))?;
    }
    for v in 0..=0x10ffffu32 {
        if let Some(c) = std::char::from_u32(v) {
            same("char::is_ascii_alphanumeric", c.is_ascii_alphanumeric(), v < 128 && (v as u8).is_ascii_alphanumeric())?;
            same("char::is_ascii", c.is_ascii(), v < 128)?;
            same("char::is_ascii_digit", c.is_ascii_digit(), '0' <= c && c <= '9')?;
            same("char::is_ascii_alphabetic", c.is_ascii_alphabetic(), 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z')?;
            let mut b = [0u8; 4];
            same("UTF-8", c.encode_utf8(&mut b).as_bytes(), &enc(c)[..])?;
        }
    }
    Ok(())
}

/// number of rounds done, or what disagreed
pub fn run(rounds: u64, seed: u64) -> Result<u64, String> {
    classes()?;
    let mut r = Rng::new(seed);
    for _ in 0..rounds {
        buffers(&mut r)?;
        texts(&mut r)?;
        more(&mut r)?;
    }
    Ok(rounds)
}
