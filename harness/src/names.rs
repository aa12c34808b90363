//! C05: names against an independent recogniser written over split elements.
use crate::rng::Rng;
use crate::util::{hex, alike, unhex};
use crate::Prop;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

pub struct Names;
pub const KINDS: [&str; 7] = ["unique", "wellknown", "bus", "interface", "member", "error", "path"];

fn elems(b: &[u8]) -> Vec<Vec<u8>> {
    b.split(|c| *c == b'.').map(|x| x.to_vec()).collect()
}
fn word(e: &[u8], hyphen: bool, lead_digit: bool) -> bool {
    !e.is_empty()
        && e.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || (hyphen && *c == b'-'))
        && (lead_digit || !e[0].is_ascii_digit())
}
pub fn grammar(kind: &str, b: &[u8]) -> bool {
    match kind {
        "unique" => b.len() <= 255 && b.first() == Some(&b':') && { let e = elems(&b[1..]); e.len() >= 2 && e.iter().all(|x| word(x, true, true)) },
        "wellknown" => b.len() <= 255 && { let e = elems(b); e.len() >= 2 && e.iter().all(|x| word(x, true, false)) },
        "bus" => if b.first() == Some(&b':') { grammar("unique", b) } else { grammar("wellknown", b) },
        "interface" | "error" => b.len() <= 255 && { let e = elems(b); e.len() >= 2 && e.iter().all(|x| word(x, false, false)) },
        "member" => b.len() <= 255 && word(b, false, false),
        "path" => b == b"/" || (b.first() == Some(&b'/') && b[1..].split(|c| *c == b'/').all(|x| word(x, false, true))),
        _ => unreachable!(),
    }
}

fn three<'a, T, E1, E2, E3>(b: &'a [u8], kind: &str) -> Result<bool, String>
where
    T: TryFrom<&'a [u8], Error = E1> + AsRef<str>,
    T: for<'x> TryFrom<&'x str, Error = E2>,
    T: TryFrom<String, Error = E3> + PartialEq + PartialEq<str> + Into<String> + std::fmt::Display + Clone,
{
    let want = grammar(kind, b);
    let r = T::try_from(b);
    if r.is_ok() != want {
        return Err(format!("{} from bytes: accepted={} but the grammar says {}", kind, r.is_ok(), want));
    }
    if let Ok(x) = &r {
        if x.as_ref().as_bytes() != b {
            return Err(format!("{} from bytes holds {:?}", kind, x.as_ref()));
        }
        if x.to_string().as_bytes() != b {
            return Err(format!("{} prints as {:?}", kind, x.to_string()));
        }
    }
    if let Ok(s) = std::str::from_utf8(b) {
        let a = T::try_from(s);
        let o = T::try_from(s.to_string());
        if a.is_ok() != want || o.is_ok() != want {
            return Err(format!("{}: &str accepted={} String accepted={} but the grammar says {}", kind, a.is_ok(), o.is_ok(), want));
        }
        if let (Ok(a), Ok(o), Ok(r)) = (a, o, r) {
            if a.as_ref() != s || o.as_ref() != s || a != r || o != r || !(a == *s) {
                return Err(format!("{}: the three constructors disagree or hold another text", kind));
            }
            for t in [format!("{} ", s), format!(" {}", s), s[1..].to_string(), s[..s.len() - 1].to_string(), s.to_lowercase(), s.to_uppercase(), format!("{}.a", s), s.replace('-', "_")] {
                if t != s && a == *t.as_str() {
                    return Err(format!("{}: {:?} compares equal to {:?}", kind, s, t));
                }
            }
            let q: String = o.into();
            if q != s {
                return Err(format!("{}: into String gives {:?}", kind, q));
            }
        }
    }
    Ok(want || b.len() > 1)
}

const ALPHA: [&[u8]; 18] = [b"a", b"Z", b"_", b"0", b"9", b".", b"-", b":", b"/", b" ", b"@", b"[", b"`", b"{", b"\xc3\xa9", b"\x80", b"\0", b"z"];

impl Prop for Names {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        // every byte alone and around a valid frame
        for k in KINDS.iter() {
            for c in 0u16..256 {
                let c = c as u8;
                for tpl in [&[c][..], &[b'a', c], &[c, b'a'], &[b'a', b'.', c], &[b'a', b'.', b'b', c], &[b'/', c], &[b'/', b'a', c], &[b':', c, b'.', b'a'], &[b':', b'a', b'.', c], &[b':', b'1', b'.', b'2', c], &[c, b'.', b'a']].iter() {
                    if !f(&|| format!("{}:{}", k, hex(tpl))) { return; }
                }
            }
            // lengths around the limit
            for l in 250..262usize {
                for tail in [&b""[..], b".", b".a", b"/", b"/a", b"-", b"0"].iter() {
                    for head in [&b""[..], b"a.", b":1.", b"/", b"a", b":"].iter() {
                        if l < tail.len() + head.len() { continue; }
                        let mut v = head.to_vec();
                        v.extend(vec![b'a'; l - tail.len() - head.len()]);
                        v.extend(*tail);
                        if !f(&|| format!("{}:{}", k, hex(&v))) { return; }
                    }
                }
            }
        }
        // all strings up to 5 over the interesting alphabet
        let al: [u8; 9] = [b'a', b'0', b'_', b'.', b'-', b':', b'/', b' ', b'Z'];
        for len in 0..=5u32 {
            for mut i in 0..9usize.pow(len) {
                let mut v = vec![];
                for _ in 0..len {
                    v.push(al[i % 9]);
                    i /= 9;
                }
                for k in KINDS.iter() {
                    if !f(&|| format!("{}:{}", k, hex(&v))) { return; }
                }
            }
        }
    }
    fn random(&self, r: &mut Rng) -> String {
        let k = KINDS[r.below(KINDS.len())];
        let b = random_name(r, k);
        format!("{}:{}", k, hex(&b))
    }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let (k, h) = case.split_at(case.find(':').unwrap());
        let b = unhex(&h[1..]);
        let r = judge(k, &b)?;
        for x in alike(&b) { judge(k, &x)?; }
        Ok(r)
    }
    fn rule(&self) -> &'static str {
        "kind and text (hex): every byte in every frame position, lengths 250..261, all strings up to 5 bytes over 9 characters, then random valid texts with mutations; non-trivial: accepted by the grammar or longer than one byte"
    }
}
fn judge(k: &str, b: &[u8]) -> Result<bool, String> {
        match k {
            "unique" => three::<UniqueConnectionName, _, _, _>(b, k),
            "wellknown" => three::<WellKnownBusName, _, _, _>(b, k),
            "bus" => {
                if let Ok(x) = Bus::try_from(b) {
                    let u = matches!(x, Bus::UniqueConnectionName(_));
                    if u != (b[0] == b':') {
                        return Err(format!("bus name classified wrongly: {:?}", x));
                    }
                }
                three::<Bus, _, _, _>(b, k)
            }
            "interface" => three::<Interface, _, _, _>(b, k),
            "member" => three::<Member, _, _, _>(b, k),
            "error" => three::<Error, _, _, _>(b, k),
            _ => three::<ObjectPath, _, _, _>(b, k),
        }
    }

/// mostly valid, sometimes mutated
pub fn random_name(r: &mut Rng, k: &str) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let sep = if k == "path" { b'/' } else { b'.' };
    let n = if k == "member" { 1 } else { 1 + r.below(5) };
    if k == "unique" || (k == "bus" && r.chance(1, 2)) { v.push(b':'); }
    let maxe = *r.pick(&[3usize, 8, 60, 127]);
    for i in 0..n {
        if i > 0 || k == "path" { v.push(sep); }
        let l = 1 + r.below(maxe);
        for j in 0..l {
            let set: &[u8] = if j == 0 { b"abzAZ_" } else { b"abzAZ_059-" };
            let mut c = *r.pick(set);
            if c == b'-' && !(k == "unique" || k == "wellknown" || k == "bus") { c = b'_'; }
            v.push(c);
        }
    }
    for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2]) {
        let i = r.below(v.len() + 1);
        match r.below(3) {
            0 => { let x = *r.pick(&ALPHA); for (q, c) in x.iter().enumerate() { v.insert(i + q, *c); } }
            1 if i < v.len() => { v.remove(i); }
            _ if i < v.len() => { v[i] = r.pick(&ALPHA)[0]; }
            _ => {}
        }
    }
    v
}

/// a valid text of a kind, biased to short and related ones
pub fn random_valid(r: &mut Rng, k: &str) -> Vec<u8> {
    if r.chance(1, 2) {
        let p: &[&str] = match k {
            "path" => &["/", "/a", "/a/b", "/aa", "/a/b/c", "/ab", "/a_/b", "/0"],
            "interface" | "error" => &["a.b", "a.b.c", "a.bc", "org.freedesktop.DBus", "_a._b", "A.B1"],
            "member" => &["a", "Get", "_", "Ab0"],
            "unique" => &[":1.1", ":1.1.2", ":a.0-b", ":1.10"],
            "wellknown" => &["a.b", "a.b-c", "a.b.c", "org.freedesktop.DBus"],
            _ => &["a.b", ":1.1", ":1.10", "a-b.c", "a.b.c"],
        };
        return r.pick(p).as_bytes().to_vec();
    }
    loop {
        let v = random_name(r, k);
        if grammar(k, &v) { return v; }
    }
}
