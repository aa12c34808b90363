//! C06, C07, C14-C16: signatures, object paths and match rules against independent definitions.
use crate::gen::{name, string};
use crate::names::grammar;
use crate::rng::Rng;
use crate::util::{hex, alike, unhex};
use crate::wire::*;
use crate::Prop;
use dbus_message_parser::match_rule::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

fn seed_of(case: &str) -> u64 { case[2..].parse().unwrap() }
fn text(h: &str) -> String { String::from_utf8(unhex(h)).unwrap() }
const TY: &[u8] = b"ybnqiuxtdsogvh";

// ---------------------------------------------------------------- C06
pub struct C06;
fn tree(r: &mut Rng, d: usize, wide: usize) -> Type {
    if d == 0 || r.chance(1, 4) {
        if r.chance(1, 60) { return Type::Struct(vec![]); }
        return ty_of(&[*r.pick(TY)]);
    }
    match r.below(4) {
        0 | 1 => Type::Array(Box::new(tree(r, d - 1, wide))),
        2 => { let n = 1 + r.below(wide); Type::Struct((0..n).map(|i| { let k = if i == 0 { d - 1 } else { r.below(2) }; tree(r, k, 2) }).collect()) }
        _ => { let k = r.below(2); let x = tree(r, k, 2); Type::DictEntry(Box::new((x, tree(r, d - 1, wide)))) }
    }
}
/// what one nesting level may look like; levels repeat one of these or alternate two of them
pub const WRAP: &[(&str, &str)] = &[("a", ""), ("(", ")"), ("{y", "}"), ("{", "y}"), ("(y", ")"), ("(", "y)"), ("(y", "y)"), ("(ay", ")"), ("((y)", ")"), ("(", "(y))"), ("(yy", ")"), ("(", "{yy})"), ("({yy}", ")"), ("{(y)", "}"), ("{ay", "}"), ("{", "ay}"), ("{", "(y)}")];
const WRAP2: u64 = 8 + (WRAP.len() * WRAP.len()) as u64;
/// n levels of the counted kind: one wrapper alone, or two wrappers in turn (2 * n levels)
fn wrapped(k: u64, n: usize) -> String {
    let (a, b) = (WRAP[k as usize / WRAP.len()], WRAP[k as usize % WRAP.len()]);
    let (mut x, mut y) = (String::new(), vec![]);
    for i in 0..n { for w in if a == b { vec![a] } else if i % 2 == 0 { vec![a, b] } else { vec![b, a] } { x.push_str(w.0); y.push(w.1); } }
    x.push('y');
    for w in y.iter().rev() { x.push_str(w); }
    x
}
/// structs without a field print as "()", which is no type
fn judge_sig(b: &[u8]) -> Result<bool, String> {
    let r = judge_sig1(b)?;
    for x in alike(b) { judge_sig1(&x)?; }
    Ok(r)
}
fn judge_sig1(b: &[u8]) -> Result<bool, String> {
    let want = sig_ok(b);
    let got = Type::from_bytes_to_signature(b);
    if got.is_ok() != want { return Err(format!("signature {:?}: accepted={} but the rules say {}", String::from_utf8_lossy(b), got.is_ok(), want)); }
    let single = b.len() <= 255 && one(b, 0, 0, 0, 0) == Some(b.len());
    let t = Type::try_from(b);
    if t.is_ok() != single { return Err(format!("one type {:?}: accepted={} but the rules say {}", String::from_utf8_lossy(b), t.is_ok(), single)); }
    if let Ok(t) = &t {
        if ty_str(t).as_bytes() != b || t.to_string().as_bytes() != b { return Err(format!("{:?} parsed as {}", String::from_utf8_lossy(b), ty_str(t))); }
        let al = al(b[0]);
        if t.get_alignment() != al { return Err(format!("alignment {} reported for {}", t.get_alignment(), ty_str(t))); }
    }
    if let Ok(s) = std::str::from_utf8(b) {
        if Type::from_string_to_signature(s) != got || Type::try_from(s) != t { return Err(format!("{:?}: &str and bytes disagree", s)); }
    }
    if let Ok(l) = &got {
        let s: String = l.iter().map(ty_str).collect();
        if s.as_bytes() != b { return Err(format!("{:?} parsed as {:?}", String::from_utf8_lossy(b), s)); }
        let parts = split_sig(b).unwrap();
        if parts.len() != l.len() { return Err(format!("{:?} parsed as {} types", s, l.len())); }
        match Type::from_signature_to_string(l) { Ok(p) if p.as_bytes() == b => {} x => return Err(format!("{:?} prints back as {:?}", s, x)) }
    }
    Ok(want || b.len() > 1)
}
fn judge_types(l: &[Type]) -> Result<bool, String> {
    let s: String = l.iter().map(ty_str).collect();
    let want = sig_ok(s.as_bytes());
    match Type::from_signature_to_string(l) {
        Ok(p) => {
            if !want || p != s { return Err(format!("the types {:?} print as {:?}", s, p)); }
            match Type::from_string_to_signature(&p) { Ok(b) if b == l => {} x => return Err(format!("{:?} parses back as {:?}", p, x)) }
        }
        Err(e) => if want { return Err(format!("the types {:?} do not print: {}", s, e)); },
    }
    for t in l { if t.get_alignment() != al(ty_str(t).as_bytes()[0]) { return Err(format!("alignment {} reported for {}", t.get_alignment(), ty_str(t))); } }
    Ok(want)
}
/// texts of given lengths: an opening, a filling, an end
pub fn shapes(l: &[usize]) -> Vec<String> {
    let mut out = vec![];
    for n in l { for a in ["", "(", "a(", "{", "{y", "a{y", "((", "v(", "(y", "a", "y(", "a{s("].iter() { for b in ["y", "ay", "s", "(y)"].iter() { for c in ["", ")", "}", "(", "a", "{", "))", ")}", "})", "{}", "()", "?", "\0"].iter() {
        if a.len() + c.len() > *n { continue; }
        let m = n - a.len() - c.len();
        let mut v = a.to_string();
        for _ in 0..m / b.len() { v += b; }
        for _ in 0..m % b.len() { v += "y"; }
        v += c;
        out.push(v);
    } } } }
    out
}
impl Prop for C06 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        for c in 0u16..256 { for t in [&[c as u8][..], &[b'a', c as u8], &[b'(', c as u8, b')'], &[b'{', b'y', c as u8, b'}'], &[b'y', c as u8], &[b'(', b'y', c as u8], &[b'a', b'{', c as u8, b'y', b'}']].iter() { if !f(&|| format!("P:{}", hex(t))) { return; } } }
        let al: &[u8] = b"ya(){}v";
        for len in 0..=7u32 { for mut i in 0..al.len().pow(len) { let mut v = vec![]; for _ in 0..len { v.push(al[i % al.len()]); i /= al.len(); } if !f(&|| format!("P:{}", hex(&v))) { return; } } }
        for n in 29..36usize { for k in 8..WRAP2 { if !f(&|| format!("N:{}:{}", k, n)) { return; } } }
        for n in 29..36usize { for k in 0..8 { if !f(&|| format!("N:{}:{}", k, n)) { return; } } }
        for n in 250..260usize { for k in 0..6 { if !f(&|| format!("L:{}:{}", k, n)) { return; } } }
        for v in shapes(&[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 200, 252, 253, 254, 255, 256, 257, 258]) { if !f(&|| format!("P:{}", hex(v.as_bytes()))) { return; } }
    }
    fn random(&self, r: &mut Rng) -> String {
        match r.below(3) {
            0 => format!("T:{}", r.u64()),
            1 => format!("M:{}", r.u64()),
            _ => { let n = r.below(14); let v: Vec<u8> = (0..n).map(|_| *r.pick(b"yahs(((){}}v)")).collect(); format!("P:{}", hex(&v)) }
        }
    }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let p: Vec<&str> = case.split(':').collect();
        match p[0] {
            "P" => judge_sig(&unhex(p[1])),
            "N" | "L" => {
                let (k, n): (u64, usize) = (p[1].parse().unwrap(), p[2].parse().unwrap());
                let s = if p[0] == "N" && k >= 8 { wrapped(k - 8, n) } else if p[0] == "N" { match k {
                    0 => format!("{}y", "a".repeat(n)), 1 => format!("{}y{}", "(".repeat(n), ")".repeat(n)), 2 => format!("{}y{}", "{y".repeat(n), "}".repeat(n)), 3 => format!("{}y{}y", "{".repeat(n), "y}".repeat(n - 1) + "y}"),
                    4 => format!("{}{}y{}", "a".repeat(32), "(".repeat(n), ")".repeat(n)), 5 => format!("(y{}y{}y)", "a".repeat(n), ")"), 6 => format!("y{}y{}", "a(".repeat(n), ")".repeat(n)), _ => format!("{}{}{}y{}{}", "a".repeat(n - 1), "(".repeat(32), "{y".repeat(32), "}".repeat(32), ")".repeat(32)) }
                } else { match k { 0 => "y".repeat(n), 1 => format!("({})", "y".repeat(n - 2)), 2 => format!("{}ay", "u".repeat(n - 2)), 3 => format!("y{}", "ay".repeat((n - 1) / 2)), 4 => format!("{}(y)", "y".repeat(n - 3)), _ => format!("{}{{yy}}", "y".repeat(n - 4)) } };
                judge_sig(s.as_bytes())?;
                // the same types built by hand, when they can be told apart
                if let Some(l) = loose(s.as_bytes()) { judge_types(&l)?; }
                Ok(true)
            }
            "M" => {
                let mut r = Rng::new(seed_of(case));
                let n = 1 + r.below(4);
                let d = r.below(36);
                let mut b: Vec<u8> = (0..n).map(|_| { let d = r.below(d + 1); ty_str(&tree(&mut r, d, 3)) }).collect::<String>().into_bytes();
                for _ in 0..r.below(3) {
                    if b.is_empty() { break; }
                    let i = r.below(b.len());
                    match r.below(4) { 0 => { b.remove(i); } 1 => b.insert(i, *r.pick(b"ya(){}vz\xc3")), 2 => b[i] = *r.pick(b"ya(){}vz\0"), _ => b.truncate(i) }
                }
                judge_sig(&b)
            }
            _ => {
                let mut r = Rng::new(seed_of(case));
                let d = *r.pick(&[1usize, 2, 3, 5, 34, 70]);
                let n = *r.pick(&[0usize, 1, 1, 2, 5, 40]);
                let l: Vec<Type> = (0..n).map(|_| { let d = r.below(d + 1); tree(&mut r, d, 4) }).collect();
                judge_types(&l)
            }
        }
    }
    fn rule(&self) -> &'static str { "P text (hex): every byte in every container, all strings up to 7 bytes over ya(){}v, random texts; N nesting 29..35, L lengths 250..259; M printed random trees with mutations; T random type lists incl. empty structs; parsing, printing, alignment; non-trivial: accepted or longer than one byte" }
}
/// reads types without limits
fn loose(s: &[u8]) -> Option<Vec<Type>> {
    fn go(s: &[u8], i: &mut usize) -> Option<Type> {
        let c = *s.get(*i)?;
        *i += 1;
        Some(match c {
            b'a' => Type::Array(Box::new(go(s, i)?)),
            b'(' => { let mut v = vec![]; while *s.get(*i)? != b')' { v.push(go(s, i)?); } *i += 1; Type::Struct(v) }
            b'{' => { let k = go(s, i)?; let v = go(s, i)?; if *s.get(*i)? != b'}' { return None; } *i += 1; Type::DictEntry(Box::new((k, v))) }
            c if TY.contains(&c) => ty_of(&[c]),
            _ => return None,
        })
    }
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() { v.push(go(s, &mut i)?); }
    Some(v)
}

// ---------------------------------------------------------------- C07
pub struct C07;
fn elements(p: &str) -> Vec<&str> { if p == "/" { vec![] } else { p[1..].split('/').collect() } }
fn word(e: &str) -> bool { !e.is_empty() && e.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') }
fn judge_append(p: &str, e: &str) -> Result<bool, String> {
    let mut o = ObjectPath::try_from(p).map_err(|x| format!("{}: {}", p, x))?;
    let ok = o.append(e);
    let now: &str = o.as_ref();
    if ok != word(e) { return Err(format!("append of {:?} to {:?} returned {}", e, p, ok)); }
    let want = if !ok { p.to_string() } else if p == "/" { format!("/{}", e) } else { format!("{}/{}", p, e) };
    if now != want { return Err(format!("append of {:?} to {:?} gives {:?}", e, p, now)); }
    if !grammar("path", now.as_bytes()) { return Err(format!("append of {:?} to {:?} leaves the invalid path {:?}", e, p, now)); }
    Ok(ok)
}
fn judge_prefix(p: &str, b: &str) -> Result<bool, String> {
    let (x, y) = (ObjectPath::try_from(p).map_err(|e| e.to_string())?, ObjectPath::try_from(b).map_err(|e| e.to_string())?);
    let (ep, eb) = (elements(p), elements(b));
    let below = ep.len() > eb.len() && ep[..eb.len()] == eb[..];
    if x.starts_with(&y) != below { return Err(format!("{:?} starts with {:?}: {}", p, b, !below)); }
    match x.strip_prefix_elements(&y) {
        Some(i) => { let g: Vec<&str> = i.collect(); if !below || g != ep[eb.len()..] { return Err(format!("{:?} without {:?} leaves {:?}", p, b, g)); } }
        None => if below { return Err(format!("{:?} without {:?} leaves nothing", p, b)); },
    }
    Ok(below || !eb.is_empty())
}
impl Prop for C07 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        for p in ["/", "/a", "/a/b", "/_0"].iter() {
            for c in 0u32..=0x180 { let c = match std::char::from_u32(c) { Some(c) => c, None => continue }; for e in [format!("{}", c), format!("a{}", c), format!("{}a", c), format!("a{}b", c)].iter() { if !f(&|| format!("A:{}:{}", hex(p.as_bytes()), hex(e.as_bytes()))) { return; } } }
            for e in ["", "/", "a/", "/a", "a", "a/b", "//"].iter() { if !f(&|| format!("A:{}:{}", hex(p.as_bytes()), hex(e.as_bytes()))) { return; } }
        }
        for n in (1..70usize).chain([127, 128, 129, 255, 256, 257, 1024, 4097].iter().copied()) {
            let e = "a".repeat(n);
            if !f(&|| format!("A:2f61:{}", hex(e.as_bytes()))) { return; }
            for k in 0..n { if n > 300 && k % 97 > 0 { continue; } for c in ["/", ".", "\u{e9}", "\0"].iter() { let e = format!("{}{}{}", "a".repeat(k), c, "b".repeat(n - 1 - k)); if !f(&|| format!("A:2f61:{}", hex(e.as_bytes()))) { return; } } }
        }
        // all pairs of paths with up to 3 elements over 4 words
        let w = ["a", "b", "aa", "a_"];
        let mut all = vec![String::from("/")];
        for n in 1..=3u32 { for mut i in 0..w.len().pow(n) { let mut s = String::new(); for _ in 0..n { s.push('/'); s += w[i % 4]; i /= 4; } all.push(s); } }
        for p in &all { for b in &all { if !f(&|| format!("S:{}:{}", hex(p.as_bytes()), hex(b.as_bytes()))) { return; } } }
    }
    fn random(&self, r: &mut Rng) -> String {
        let p = name(r, "path");
        if r.chance(1, 2) {
            let e = if r.chance(1, 2) { name(r, "member") } else { string(r) };
            return format!("A:{}:{}", hex(p.as_bytes()), hex(e.as_bytes()));
        }
        let e = elements(&p);
        let k = r.below(e.len() + 1);
        let mut b: Vec<String> = e[..k].iter().map(|x| x.to_string()).collect();
        match r.below(6) { 0 => if let Some(x) = b.last_mut() { x.pop(); if x.is_empty() { x.push('q'); } }, 1 => if let Some(x) = b.last_mut() { x.push('a'); }, 2 => b.push("z".into()), 3 => b = vec![name(r, "member")], _ => {} }
        let b = if b.is_empty() { "/".to_string() } else { b.iter().map(|x| format!("/{}", x)).collect() };
        format!("S:{}:{}", hex(p.as_bytes()), hex(b.as_bytes()))
    }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let p: Vec<&str> = case.split(':').collect();
        if p[0] == "A" { judge_append(&text(p[1]), &text(p[2])) } else { judge_prefix(&text(p[1]), &text(p[2])) }
    }
    fn rule(&self) -> &'static str { "A path and element (hex): every character up to U+0180 in four places; S path and prefix: all pairs with up to 3 elements over 4 words, then random related pairs; judged on lists of elements; non-trivial: accepted, or a prefix below the root" }
}

// ---------------------------------------------------------------- rules
#[derive(Debug, Clone, PartialEq)]
pub enum Rule { Type(u8), Sender(String), Interface(String), Member(String), Path(String), Ns(String), Dest(String), Arg(usize, String), ArgPath(usize, String), Arg0(String), Eaves(bool) }
fn to_rule(x: &Rule) -> Result<MatchRule, String> {
    fn e<T: std::fmt::Display>(x: T) -> String { x.to_string() }
    Ok(match x {
        Rule::Type(t) => MatchRule::Type(mtype(*t)),
        Rule::Sender(s) => MatchRule::Sender(Bus::try_from(s.as_str()).map_err(e)?),
        Rule::Interface(s) => MatchRule::Interface(Interface::try_from(s.as_str()).map_err(e)?),
        Rule::Member(s) => MatchRule::Member(Member::try_from(s.as_str()).map_err(e)?),
        Rule::Path(s) => MatchRule::Path(ObjectPath::try_from(s.as_str()).map_err(e)?),
        Rule::Ns(s) => MatchRule::PathNamespace(ObjectPath::try_from(s.as_str()).map_err(e)?),
        Rule::Dest(s) => MatchRule::Destination(UniqueConnectionName::try_from(s.as_str()).map_err(e)?),
        Rule::Arg(i, s) => MatchRule::Arg(Arg::try_from((*i, s.clone())).map_err(e)?),
        Rule::ArgPath(i, s) => MatchRule::ArgPath(ArgPath::from((*i, ObjectPath::try_from(s.as_str()).map_err(e)?))),
        Rule::Arg0(s) => MatchRule::Arg0Namespace(Interface::try_from(s.as_str()).map_err(e)?),
        Rule::Eaves(b) => MatchRule::Eavesdrop(*b),
    })
}
fn from_rule(x: &MatchRule) -> Rule {
    match x {
        MatchRule::Type(t) => Rule::Type(*t as u8),
        MatchRule::Sender(s) => Rule::Sender(s.as_ref().to_string()),
        MatchRule::Interface(s) => Rule::Interface(s.as_ref().to_string()),
        MatchRule::Member(s) => Rule::Member(s.as_ref().to_string()),
        MatchRule::Path(s) => Rule::Path(s.as_ref().to_string()),
        MatchRule::PathNamespace(s) => Rule::Ns(s.as_ref().to_string()),
        MatchRule::Destination(s) => Rule::Dest(s.as_ref().to_string()),
        MatchRule::Arg(a) => Rule::Arg(a.get_index(), a.get_value().to_string()),
        MatchRule::ArgPath(a) => Rule::ArgPath(a.get_index(), a.get_value().as_ref().to_string()),
        MatchRule::Arg0Namespace(s) => Rule::Arg0(s.as_ref().to_string()),
        MatchRule::Eavesdrop(b) => Rule::Eaves(*b),
    }
}
fn rule(r: &mut Rng) -> Rule {
    match r.below(14) {
        0 => Rule::Type(1 + r.below(4) as u8), 1 => Rule::Sender(name(r, "bus")), 2 => Rule::Interface(name(r, "interface")), 3 => Rule::Member(name(r, "member")), 4 => Rule::Path(name(r, "path")), 5 => Rule::Ns(name(r, "path")),
        6 => Rule::Dest(name(r, "unique")), 7 => Rule::ArgPath(*r.pick(&[0usize, 1, 2, 63, 64, 9, 10, usize::MAX]), name(r, "path")), 8 => Rule::Arg0(name(r, "interface")), 9 => Rule::Eaves(r.chance(1, 2)),
        _ => Rule::Arg(*r.pick(&[0usize, 1, 2, 9, 10, 62, 63]), argtext(r)),
    }
}
fn argtext(r: &mut Rng) -> String {
    if r.chance(1, 3) { return string(r); }
    let n = r.below(9);
    (0..n).map(|_| *r.pick(&['\'', '\\', ',', '=', 'a', ' ', '\u{e9}', '\u{1f600}', '"', '\u{0}'])).collect()
}

const ODD: [&str; 9] = ["'", "\\", ",", "\\'", "','", ",b=", "\u{e9}", "\u{1f600},", "'\\'"];
/// long values: one odd place behind, in front of, or between n plain characters, or n odd places
fn long_value(n: usize, k: usize) -> String {
    let o = ODD[k % 9];
    let (a, b) = ("a".repeat(n), "b".repeat(n / 2));
    match k / 9 { 0 => a + o, 1 => format!("{}{}", o, a), 2 => format!("{}{}{}", b, o, b), 3 => o.repeat(n), 4 => "\u{e9}".repeat(n) + o, _ => format!("{}{}{}{}", a, o, b, o) }
}
fn long_sizes() -> Vec<usize> { (0..=70).chain([100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097].iter().cloned()).collect() }

// ---------------------------------------------------------------- C14
pub struct C14;
const TRICKY: [char; 9] = ['\'', '\\', ',', '=', 'a', ' ', '\u{e9}', '"', '/'];
impl Prop for C14 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        if !f(&|| "L:0".into()) { return; }
        for len in 0..=5u32 { for mut i in 0..TRICKY.len().pow(len) { let mut v = String::new(); for _ in 0..len { v.push(TRICKY[i % 9]); i /= 9; } if !f(&|| format!("A:{}", hex(v.as_bytes()))) { return; } } }
        for i in 0..64 { for b in ["", "'", "\\", ",", "\\'", "','"].iter() { if !f(&|| format!("I:{}:{}", i, hex(b.as_bytes()))) { return; } } }
        for n in long_sizes() { for k in 0..54 { if !f(&|| format!("B:{}:{}", n, k)) { return; } } }
        for c in 0u32..0x3000 { if let Some(c) = std::char::from_u32(c) { let s = c.to_string(); if !f(&|| format!("A:{}", hex(s.as_bytes()))) { return; } } }
    }
    fn random(&self, r: &mut Rng) -> String { format!("R:{}", r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let p: Vec<&str> = case.split(':').collect();
        let l: Vec<Rule> = match p[0] {
            "L" => vec![],
            "A" => { let s = text(p[1]); vec![Rule::Arg(0, s.clone()), Rule::Eaves(true), Rule::Arg(63, s.clone()), Rule::Arg(1, s)] }
            "B" => vec![Rule::Arg(3, long_value(p[1].parse().unwrap(), p[2].parse().unwrap())), Rule::Eaves(false)],
            "I" => vec![Rule::Arg(p[1].parse().unwrap(), text(p[2])), Rule::ArgPath(p[1].parse().unwrap(), "/a".into()), Rule::Member("m".into())],
            _ => { let mut r = Rng::new(seed_of(case)); let n = r.below(7); (0..n).map(|_| rule(&mut r)).collect() }
        };
        let mut m = vec![];
        for x in &l { m.push(to_rule(x)?); }
        let t = MatchRule::encode(&m);
        match MatchRule::decode(&t) {
            Ok(g) => { if g != m || g.iter().map(from_rule).collect::<Vec<_>>() != l { return Err(format!("{:?} prints as {:?}, which parses as {:?}", l, t, g)); } }
            Err(e) => return Err(format!("{:?} prints as {:?}, which is rejected: {}", l, t, e)),
        }
        Ok(!l.is_empty())
    }
    fn rule(&self) -> &'static str { "B long values with odd places; A argument text (hex): all strings up to 5 characters over 9 tricky ones and every character up to U+3000, as first, middle and last rule; I every index; R random rule lists: parse(print(l)) == l; non-trivial: list not empty" }
}

// ---------------------------------------------------------------- C15
pub struct C15;
fn below(rule: &str, item: &str, sep: char) -> bool { item == rule || item.starts_with(&format!("{}{}", rule, sep)) || (rule.len() == 1 && rule.ends_with(sep) && item.starts_with(sep)) }
fn selects(x: &Rule, m: &Raw) -> bool {
    let f = |c: u8| m.fields.iter().find(|x| x.0 == c).map(|x| match &x.1 { V::S(s) | V::O(s) => s.clone(), _ => String::new() });
    match x {
        Rule::Type(t) => *t == m.typ,
        Rule::Sender(s) => f(7).as_ref() == Some(s),
        Rule::Interface(s) => f(2).as_ref() == Some(s),
        Rule::Member(s) => f(3).as_ref() == Some(s),
        Rule::Path(s) => f(1).as_ref() == Some(s),
        Rule::Dest(s) => f(6).as_ref() == Some(s),
        Rule::Ns(s) => f(1).map_or(false, |p| below(s, &p, '/')),
        Rule::Arg(i, s) => matches!(m.body.get(*i), Some(V::S(v)) if v == s),
        Rule::ArgPath(i, s) => match m.body.get(*i) { Some(V::S(v)) | Some(V::O(v)) => below(s, v, '/'), _ => false },
        Rule::Arg0(s) => match m.body.get(0) { Some(V::S(v)) => below(s, v, '.'), _ => false },
        Rule::Eaves(_) => true,
    }
}
fn vary(r: &mut Rng, k: &str, sep: char, s: &str) -> String {
    for _ in 0..6 {
        let mut v = s.to_string();
        match r.below(10) {
            0 | 1 | 2 => {}
            3 => { v.push(sep); v.push('a'); }
            4 => { v.push('a'); }
            5 => { if let Some(i) = v.rfind(sep) { v.truncate(i); } }
            6 => { v.pop(); }
            7 => { v = "/".into(); }
            8 => { let l = near(s); v = r.pick(&l).clone(); }
            _ => return name(r, k),
        }
        if grammar(k, v.as_bytes()) { return v; }
    }
    name(r, k)
}
const NEAR: [(&str, &str, &[&str]); 12] = [
    ("0", "path", &["/", "/a", "/abc/dEf_9/x"]), ("1", "path", &["/", "/a", "/abc/dEf_9/x", "/aaaaaaaaaaaaaaa/bbbbbbbb"]),
    ("2", "path", &["/", "/a", "/abc/dEf_9/x"]), ("3", "path", &["/", "/a", "/abc/dEf_9/x"]), ("4", "interface", &["a.b", "abc.dEf_9.x_"]),
    ("5", "unique", &[":1.12", ":1.1", ":a-b.c_9"]), ("5", "wellknown", &["a.b", "org.free-desktop.DBus", "a-b.c-d"]), ("5", "bus", &["a.b", ":a.b"]),
    ("6", "interface", &["a.b", "org.freedesktop.DBus", "abc.dEf_9.x_"]), ("7", "member", &["a", "Hello", "aB_9"]),
    ("8", "unique", &[":1.12", ":1.1", ":a-b.c_9", ":1.1234567.90"]), ("9", "", &["", "a", "Text ,'\\\u{e9}x", "16 characters !!"]),
];
/// texts that differ from `s` in one place
fn near(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out: Vec<String> = vec![s.to_string()];
    let mut add = |v: Vec<char>| { let v: String = v.into_iter().collect(); if !out.contains(&v) { out.push(v); } };
    for i in 0..c.len() {
        let mut w = vec!['a', 'z', 'A', '_', '0', '9', '-', '.', '/', ':'];
        for x in [c[i] as u32 ^ 1, c[i] as u32 + 1, c[i] as u32 ^ 0x20, c[i] as u32 ^ 0x40, c[i] as u32 ^ 0x10].iter() { if let Some(x) = std::char::from_u32(*x) { w.push(x); } }
        for x in w { let mut v = c.clone(); v[i] = x; add(v); let mut v = c.clone(); v.insert(i, x); add(v); }
        let mut v = c.clone(); v.remove(i); add(v);
        if i > 0 { let mut v = c.clone(); v.swap(i, i - 1); add(v); add(c[..i].to_vec()); add(c[i..].to_vec()); }
    }
    for x in ["a", "0", ".", "/", "-", ".a", "/a", ".0", " ", "\0", "\u{e9}"].iter() { let mut v = c.clone(); v.extend(x.chars()); add(v); let mut v: Vec<char> = x.chars().collect(); v.extend(c.iter()); add(v); }
    out
}
fn situation(seed: u64) -> (Raw, Vec<Rule>) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut m = crate::gen::msg(r, &crate::gen::Cfg { depth: 1, len: 2, fd: 0, vmax: 1 }, 2);
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 64, 70]);
    let n = if n > 3 { r.below(n) } else { n };
    let b: Vec<V> = (0..n).map(|_| match r.below(6) {
        0 => V::O(name(r, "path")), 1 => V::S(name(r, "path")), 2 => V::S(name(r, "interface")), 3 => V::S(argtext(r)),
        4 => V::S(format!("{}{}", name(r, "path"), r.pick(&["/", "//", "a/", ".", "/a/"]))), _ => V::U(1) }).collect();
    m.body.splice(0..0, b);
    let f: Vec<(u8, V)> = m.fields.clone();
    let fld = |r: &mut Rng, c: u8, k: &str, sep: char| -> String { match f.iter().find(|x| x.0 == c) { Some((_, V::S(s))) | Some((_, V::O(s))) => vary(r, k, sep, s), _ => name(r, k) } };
    let k = *r.pick(&[0usize, 1, 1, 1, 2, 3, 6]);
    let mut l = vec![];
    for _ in 0..k {
        let i = if n == 0 || r.chance(1, 8) { *r.pick(&[0usize, 1, 63]) } else { r.below(n + 1).min(63) };
        let at = match m.body.get(i) { Some(V::S(s)) | Some(V::O(s)) => s.clone(), _ => String::new() };
        l.push(match r.below(12) {
            0 => Rule::Type(if r.chance(1, 2) { m.typ } else { 1 + r.below(4) as u8 }),
            1 => Rule::Sender(fld(r, 7, "bus", '.')),
            2 => Rule::Interface(fld(r, 2, "interface", '.')),
            3 => Rule::Member(fld(r, 3, "member", '.')),
            4 => Rule::Path(fld(r, 1, "path", '/')),
            5 | 6 => Rule::Ns(fld(r, 1, "path", '/')),
            7 => { let s = fld(r, 6, "unique", '.'); Rule::Dest(if grammar("unique", s.as_bytes()) { s } else { ":1.1".into() }) }
            8 => Rule::Arg(i, if r.chance(2, 3) { at } else { argtext(r) }),
            9 => Rule::ArgPath(if r.chance(1, 30) { usize::MAX } else { i }, if grammar("path", at.as_bytes()) { vary(r, "path", '/', &at) } else { let t = at.trim_end_matches(|c| c == '/' || c == '.'); vary(r, "path", '/', if t.is_empty() { "/" } else { t }) }),
            10 => { let at = match m.body.get(0) { Some(V::S(s)) => s.clone(), _ => String::new() }; Rule::Arg0(vary(r, "interface", '.', &at)) }
            _ => Rule::Eaves(r.chance(1, 2)),
        });
    }
    (m, l)
}
fn judge_match(m: &Raw, l: &[Rule]) -> Result<bool, String> {
    let msg = lib_msg(m)?;
    let mut w = vec![];
    let mut all = true;
    for x in l {
        let q = to_rule(x)?;
        let want = selects(x, m);
        all &= want;
        if q.matching_rule(&msg) != want { return Err(format!("rule {:?} on a message with fields {:?} and body {}: {}", x, m.fields, short(&m.body), !want)); }
        w.push(q);
    }
    if MatchRule::matching_rules(&w, &msg) != all { return Err(format!("rules {:?} on a message with fields {:?} and body {}: {}", l, m.fields, short(&m.body), !all)); }
    Ok(!l.is_empty())
}
impl Prop for C15 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        let al = ["/", "a", "ab", "/a", "b"];
        let mut w2: Vec<String> = vec![];
        for len in 0..=4u32 { for mut i in 0..al.len().pow(len) { let mut v = String::new(); for _ in 0..len { v += al[i % al.len()]; i /= al.len(); } if !w2.contains(&v) { w2.push(v); } } }
        for p in w2.iter().filter(|p| grammar("path", p.as_bytes())) { for q in w2.iter() {
            let valid = grammar("path", q.as_bytes());
            for k in 0..4 { if (k == 2 || valid) && !f(&|| format!("N:{}:{}:{}", k, hex(p.as_bytes()), hex(q.as_bytes()))) { return; } }
        } }
        let dotted: Vec<String> = w2.iter().map(|x| x.replace('/', ".")).collect();
        for p in dotted.iter().filter(|p| grammar("interface", p.as_bytes())) { for q in dotted.iter() { if !f(&|| format!("N:4:{}:{}", hex(p.as_bytes()), hex(q.as_bytes()))) { return; } } }
        let w = ["/", "/a", "/a/b", "/aa", "/a_/b", "/b", "/a/b/a"];
        for p in w.iter() { for q in w.iter() { for k in 0..4 { if !f(&|| format!("N:{}:{}:{}", k, hex(p.as_bytes()), hex(q.as_bytes()))) { return; } } } }
        for p in ["a.b", "a.b.c", "a.bb", "a_.b", "b.a.b"].iter() { for q in ["", "a", "a.b", "a.b.", "a.b.c", "a.bb", "a.b-c", "a.b/c", "b.a.b", "a..b", ".a.b", "a.b.c.d"].iter() { if !f(&|| format!("N:4:{}:{}", hex(p.as_bytes()), hex(q.as_bytes()))) { return; } } }
        for p in w.iter() { for q in ["", "a", "//", "/a/", "/a//", "/ab", "/a.b", "/a/b/", "a/a", "/a b", "/\u{e9}"].iter() { if !f(&|| format!("N:2:{}:{}", hex(p.as_bytes()), hex(q.as_bytes()))) { return; } } }
        // near misses: two names that differ in one place only
        for (k, g, base) in NEAR.iter() {
            let long = match *g { "path" => "/abc_9".repeat(40), "unique" => format!(":1.{}", "07".repeat(30)), "member" => "aB_9".repeat(30), _ => format!("aa.{}", "bC_9".repeat(30)) };
            for b in base.iter().map(|b| b.to_string()).chain(Some(long)) { for v in near(&b) { if *k == "9" || grammar(g, v.as_bytes()) {
                if !f(&|| format!("N:{}:{}:{}", k, hex(b.as_bytes()), hex(v.as_bytes()))) { return; }
                if !f(&|| format!("N:{}:{}:{}", k, hex(v.as_bytes()), hex(b.as_bytes()))) { return; }
            } } }
        }
    }
    fn random(&self, r: &mut Rng) -> String { format!("R:{}", r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        if case.starts_with("R:") { let (m, l) = situation(seed_of(case)); return judge_match(&m, &l); }
        let p: Vec<&str> = case.split(':').collect();
        let (a, b) = (text(p[2]), text(p[3]));
        let mut m = Raw { le: true, typ: 2, flags: 0, version: 1, serial: 3, fields: vec![(5, V::U(1))], body: vec![] };
        let x = match p[1] {
            "0" => { m.fields.push((1, V::O(b))); Rule::Ns(a) }
            "1" => { m.fields.push((1, V::O(b))); Rule::Path(a) }
            "2" => { m.body = vec![V::U(1), V::S(b)]; Rule::ArgPath(1, a) }
            "3" => { m.body = vec![V::O(b)]; Rule::ArgPath(0, a) }
            "5" => { m.fields.push((7, V::S(b))); Rule::Sender(a) }
            "6" => { m.fields.push((2, V::S(b))); Rule::Interface(a) }
            "7" => { m.fields.push((3, V::S(b))); Rule::Member(a) }
            "8" => { m.fields.push((6, V::S(b))); Rule::Dest(a) }
            "9" => { m.body = vec![V::U(1), V::S(b)]; Rule::Arg(1, a) }
            _ => { m.body = vec![V::S(b)]; Rule::Arg0(a) }
        };
        judge_match(&m, &[x])
    }
    fn rule(&self) -> &'static str { "N namespace rules on all pairs of listed paths, names and texts, every kind of rule on pairs of names that differ in one place; R random messages with rules derived from their own fields and arguments (equal, child, parent, extended, unrelated): each rule and the whole list against an independent evaluation; non-trivial: at least one rule" }
}

// ---------------------------------------------------------------- C16
pub struct C16;
/// the rules a text stands for, read from the description of the syntax
fn parse(t: &str) -> Option<Vec<Rule>> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let s = i;
        while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1; }
        if i == s || i == c.len() || c[i] != '=' { return None; }
        let key: String = c[s..i].iter().collect();
        i += 1;
        let mut v = String::new();
        while i < c.len() && c[i] != ',' {
            if c[i] == '\'' {
                let e = (i + 1..c.len()).find(|j| c[*j] == '\'')?;
                v.extend(&c[i + 1..e]);
                i = e + 1;
            } else if c[i] == '\\' && c.get(i + 1) == Some(&'\'') {
                v.push('\'');
                i += 2;
            } else {
                v.push(c[i]);
                i += 1;
            }
        }
        i += 1;
        let ok = |k: &str| grammar(k, v.as_bytes());
        let digits = |s: &str| -> Option<usize> { if s.is_empty() || !s.bytes().all(|x| x.is_ascii_digit()) { return None; } s.bytes().try_fold(0usize, |n, d| n.checked_mul(10)?.checked_add((d - b'0') as usize)) };
        out.push(match key.as_str() {
            "type" => Rule::Type(["method_call", "method_return", "error", "signal"].iter().position(|x| *x == v)? as u8 + 1),
            "sender" if ok("bus") => Rule::Sender(v),
            "interface" if ok("interface") => Rule::Interface(v),
            "member" if ok("member") => Rule::Member(v),
            "path" if ok("path") => Rule::Path(v),
            "path_namespace" if ok("path") => Rule::Ns(v),
            "destination" if ok("unique") => Rule::Dest(v),
            "arg0namespace" if ok("interface") => Rule::Arg0(v),
            "eavesdrop" if v == "true" || v == "false" => Rule::Eaves(v == "true"),
            k if k.starts_with("arg") && k.ends_with("path") && k.len() >= 7 => { if !ok("path") { return None; } Rule::ArgPath(digits(&k[3..k.len() - 4])?, v) }
            k if k.starts_with("arg") => { let n = digits(&k[3..])?; if n > 63 { return None; } Rule::Arg(n, v) }
            _ => return None,
        });
    }
    Some(out)
}
fn judge_text(t: &str) -> Result<bool, String> {
    let want = parse(t);
    match (MatchRule::decode(t), &want) {
        (Ok(g), Some(w)) => { let g: Vec<Rule> = g.iter().map(from_rule).collect(); if g != *w { return Err(format!("{:?} parsed as {:?} instead of {:?}", t, g, w)); } }
        (Ok(g), None) => return Err(format!("{:?} was accepted as {:?}", t, g)),
        (Err(e), Some(w)) => return Err(format!("{:?} was rejected ({}) instead of giving {:?}", t, e, w)),
        _ => {}
    }
    Ok(want.map_or(t.len() > 3, |w| !w.is_empty()))
}
const KEYS: [&str; 24] = ["type", "sender", "interface", "member", "path", "path_namespace", "destination", "arg0", "arg1", "arg63", "arg64", "arg", "arg0path", "arg7path", "arg64path", "argpath", "arg0namespace", "arg1namespace", "eavesdrop", "arg007", "arg18446744073709551615path", "arg18446744073709551616path", "Type", "x_1"];
impl Prop for C16 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        let al = ['\'', '\\', ',', 'a', '=', ' ', '\u{e9}'];
        for len in 0..=7u32 { for mut i in 0..al.len().pow(len) { let mut v = String::from("arg0="); for _ in 0..len { v.push(al[i % 7]); i /= 7; } if !f(&|| format!("T:{}", hex(v.as_bytes()))) { return; } } }
        let al = ["arg1", "=", ",", "'", "\\", "a", " ", "-", "\u{e9}"];
        for len in 0..=5u32 { for mut i in 0..al.len().pow(len) { let mut v = String::new(); for _ in 0..len { v += al[i % 9]; i /= 9; } if !f(&|| format!("T:{}", hex(v.as_bytes()))) { return; } } }
        for n in long_sizes() { for k in 0..54 { for m in 0..3 { if !f(&|| format!("B:{}:{}:{}", n, k, m)) { return; } } } }
        let vals = ["", "signal", "method_call", "method_return", "error", "Signal", "'signal'", "true", "false", "True", "a", "a.b", ":1.1", "/", "/a", "/a/", "a b", "\\'", "a\\", "''", "'", "'a'b", "1", "a.b-c"];
        // keys put together from parts, each with values of every kind
        let parts = ["arg", "path", "0", "1", "63", "64", "9", "namespace", "_", "eavesdrop", "type", "sender", "member", "interface", "destination", "ar", "g"];
        let vs = ["/a", "true", "a.b", "signal", ":1.1"];
        for len in 1..=4u32 { for mut i in 0..parts.len().pow(len) { let mut k = String::new(); for _ in 0..len { k += parts[i % parts.len()]; i /= parts.len(); }
            for v in vs.iter() { if !f(&|| format!("T:{}", hex(format!("{}={}", k, v).as_bytes()))) { return; } } } }
        for n in 0..1300 { for z in ["", "0"].iter() { for (p, v) in [("", "a"), ("path", "/"), ("namespace", "a.b")].iter() { if !f(&|| format!("T:{}", hex(format!("arg{}{}{}={}", z, n, p, v).as_bytes()))) { return; } } } }
        for k in KEYS.iter() { for v in vals.iter() { for s in ["", ",", ",,", ",eavesdrop=true", "x"].iter() { if !f(&|| format!("T:{}", hex(format!("{}={}{}", k, v, s).as_bytes()))) { return; } } } }
    }
    fn random(&self, r: &mut Rng) -> String {
        let n = 1 + r.below(4);
        let mut t = String::new();
        for i in 0..n {
            if i > 0 { t.push(','); }
            if r.chance(1, 2) {
                if let Ok(x) = to_rule(&rule(r)) { t += &x.to_string(); }
            } else {
                let k = *r.pick(&KEYS);
                t += k;
                t.push('=');
                let v = match r.below(6) { 0 => name(r, "path"), 1 => name(r, "interface"), 2 => name(r, "bus"), 3 => name(r, "member"), 4 => argtext(r), _ => (*r.pick(&["signal", "true", "false", "error"])).to_string() };
                match r.below(4) { 0 => { t.push('\''); t += &v; t.push('\''); } 1 => { for c in v.chars() { if r.chance(1, 4) { t.push('\''); t.push(c); t.push('\''); } else { t.push(c); } } } _ => t += &v }
            }
        }
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..*r.pick(&[0usize, 0, 1, 2]) {
            if c.is_empty() { break; }
            let i = r.below(c.len());
            match r.below(6) { 0 => { c.remove(i); } 1 => c.insert(i, *r.pick(&TRICKY)), 2 => c[i] = *r.pick(&TRICKY), 3 => { let x = c[i]; c.insert(i, x); }
                4 => { // a piece again, somewhere
                    let j = (i + 1 + r.below(8)).min(c.len());
                    let piece: Vec<char> = c[i..j].to_vec();
                    let at = if r.chance(1, 2) { j } else { r.below(c.len() + 1) };
                    for (k, x) in piece.into_iter().enumerate() { c.insert(at + k, x); }
                }
                _ => { let j = r.below(c.len()); c.swap(i, j); } }
        }
        let t: String = c.into_iter().collect();
        format!("T:{}", hex(t.as_bytes()))
    }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let t = if case.starts_with("B:") {
            let p: Vec<usize> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
            let v = long_value(p[0], p[1]);
            if p[2] == 0 { format!("arg0={}", v) } else if p[2] == 1 { format!("arg0='{}',arg1=x", v) } else { format!("{}={}", v, v) }
        } else { text(&case[2..]) };
        let r = judge_text(&t)?;
        for x in alike(t.as_bytes()) { if let Ok(x) = std::str::from_utf8(&x) { judge_text(x)?; } }
        Ok(r)
    }
    fn rule(&self) -> &'static str { "B long values with odd places; text (hex): arg0= with all values up to 7 characters over 7 tricky ones, all strings of up to 5 tokens, every key with listed values, random rule texts quoted at random and mutated: accepted exactly when an independent parser accepts, with the same rules; non-trivial: has a rule or is longer than 3 bytes" }
}
