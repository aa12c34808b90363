//! C01-C04, C08-C13: messages against the independent marshaller.
use crate::gen::*;
use crate::names::grammar;
use crate::rng::Rng;
use crate::util::{hex, alike, unhex};
use crate::wire::*;
use crate::Prop;
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::encode::EncodeError;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;
use std::sync::Mutex;

fn cfgs(k: u64) -> Cfg {
    match k % 6 {
        0 => Cfg { depth: 2, len: 3, fd: 1, vmax: 2 },
        1 => Cfg { depth: 4, len: 4, fd: 0, vmax: 4 },
        2 => Cfg { depth: 3, len: 5, fd: 5, vmax: 3 },
        3 => Cfg { depth: 6, len: 2, fd: 0, vmax: 4 },
        4 => Cfg { depth: 1, len: 12, fd: 1, vmax: 1 },
        _ => Cfg { depth: 3, len: 3, fd: 1, vmax: 4 },
    }
}
/// the message a case stands for
fn emsg(seed: u64) -> (Rng, Raw) {
    let mut r = Rng::new(seed);
    let c = cfgs(seed);
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 6]);
    let m = msg(&mut r, &c, n);
    (r, m)
}
/// bytes for the decoder: a marshalled message, sometimes damaged
fn dcase(r: &mut Rng, damage: bool) -> (usize, Vec<u8>) {
    let seed = r.u64();
    let (mut q, m) = emsg(seed);
    let mut m = with_sig(&mut q, &m);
    let nf = q.below(7);
    if damage && q.chance(1, 4) { spoil(&mut q, &mut m); }
    let mut b = enc_msg(&m);
    if damage && q.chance(2, 3) { mutate(&mut q, &mut b); }
    (nf, b)
}
/// damage above the byte level
fn spoil(r: &mut Rng, m: &mut Raw) {
    match r.below(8) {
        0 => { m.typ = r.below(7) as u8; }
        1 => { let c = r.below(11) as u8; let v = { let c2 = 1 + r.below(9) as u8; field(r, c2) }; m.fields.push((c, v)); }
        2 => { if !m.fields.is_empty() { let i = r.below(m.fields.len()); m.fields.remove(i); } }
        3 => { if !m.fields.is_empty() { let i = r.below(m.fields.len()); let f = m.fields[i].clone(); m.fields.push(f); } }
        4 => { let c = cfgs(r.u64()); let s = sig(r, &c, 2); let v = val(r, s.as_bytes(), &c, 0); if !m.fields.is_empty() { let i = r.below(m.fields.len()); m.fields[i].1 = v; } else { m.fields.push((1, v)); } }
        5 => { let mut v = V::Y(1); for _ in 0..1 + r.below(6) { v = match r.below(4) { 0 => V::V(Box::new(V::R(vec![v]))), 1 => V::V(Box::new(V::A(sig_of(&v), vec![v]))), _ => V::V(Box::new(v)) }; } m.body = vec![v]; resig(m); }
        6 => { m.flags = r.u64() as u8; }
        _ => { if let Some(f) = m.fields.iter_mut().find(|f| matches!(f.1, V::S(_))) { f.1 = V::S(string(r)); } }
    }
}
fn resig(m: &mut Raw) {
    m.fields.retain(|f| f.0 != 8);
    m.fields.push((8, V::G(body_sig(&m.body))));
}
fn fdlist(n: usize) -> Vec<i32> { (0..n as i32).map(|i| 1000 - 7 * i).collect() }

/// C04: accept exactly the correct ones, and read them right
fn judge(b: &[u8], nf: usize) -> Result<bool, String> {
    let fds = fdlist(nf);
    let want = dec_msg(b, nf);
    let got = Message::decode_with_fds(Bytes::copy_from_slice(b), &fds);
    match (got, want) {
        (Err(_), Err(_)) => {}
        (Ok((m, n, _)), Err(_)) => return Err(format!("accepted ({} bytes) but it is not a correct marshalling: {}", n, short(&m))),
        (Err(e), Ok(_)) => return Err(format!("a correct marshalling was rejected: {:?}", short(&e))),
        (Ok((m, n, used)), Ok(mut w)) => {
            w.raw.body = w.raw.body.iter().map(|v| map_fds(v, &|i| fds[i as usize])).collect();
            if let Some(d) = differs(&m, &w.raw) { return Err(d); }
            if n != w.len { return Err(format!("length reported {} but {} bytes were used", n, w.len)); }
            if used != w.used { return Err(format!("descriptors used reported {} but {}", used, w.used)); }
        }
    }
    // without descriptors
    let w0 = dec_msg(b, 0);
    match (Message::decode(Bytes::copy_from_slice(b)), w0) {
        (Err(_), Err(_)) => Ok(b.len() > 16),
        (Ok((_, n)), Ok(w)) if n == w.len => Ok(true),
        (g, w) => Err(format!("decode without descriptors: {} but the reference {}", if g.is_ok() { "accepted" } else { "rejected" }, if w.is_ok() { "accepts" } else { "rejects" })),
    }
}
fn parse_d(case: &str) -> (usize, Vec<u8>) {
    let mut p = case.splitn(3, ':');
    p.next();
    (p.next().unwrap().parse().unwrap(), unhex(p.next().unwrap()))
}
fn fmt_d(x: (usize, Vec<u8>)) -> String { format!("D:{}:{}", x.0, hex(&x.1)) }
fn seed_of(case: &str) -> u64 { case[2..].parse().unwrap() }

/// small messages, each damaged at each byte
fn damaged(f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
    for seed in 1..40u64 {
        let (mut q, m) = emsg(seed * 7919);
        let m = with_sig(&mut q, &m);
        let b = enc_msg(&m);
        if b.len() > 260 { continue; }
        for i in 0..b.len() {
            for d in [0u8, 1, 2, 3, 4, 5, 8, 0x7f, 0x80, 0xff, b'a', b'(', b'v', b[i].wrapping_add(1), b[i].wrapping_sub(1)].iter() {
                if *d == b[i] { continue; }
                if !f(&|| { let mut c = b.clone(); c[i] = *d; fmt_d((3, c)) }) { return; }
            }
            if !f(&|| { let mut c = b.clone(); c.remove(i); fmt_d((3, c)) }) { return; }
            if !f(&|| { let mut c = b.clone(); c.insert(i, 0); fmt_d((3, c)) }) { return; }
            if !f(&|| fmt_d((3, b[..i].to_vec()))) { return; }
        }
    }
}

// ---------------------------------------------------------------- C01
pub struct C01;
impl Prop for C01 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        damaged(f);
        for n in 0..70usize {
            for b in [0u8, 1, b'l', b'B', 0xff].iter() {
                if !f(&|| fmt_d((2, vec![*b; n]))) { return; }
            }
        }
        for n in [1usize, 10, 31, 32, 33, 34, 64, 127, 128, 200, 254, 255, 256, 300, 5000].iter() {
            for s in ["a", "(", "{", "{y", "((", "a(", "a{y", "(a{s", "()", "v", "\u{e9}"].iter() {
                for t in ["", "y", "y)", "y}", ")", "}"].iter() {
                    if !f(&|| format!("N:{}", hex(format!("{}{}{}", s.repeat(*n), t, if s.contains('(') { ")".repeat(*n) } else { String::new() }).as_bytes()))) { return; }
                }
            }
        }
        limits(f);
    }
    fn random(&self, r: &mut Rng) -> String {
        match r.below(12) {
            0 => { let n = r.below(80); let v: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect(); fmt_d((1, v)) }
            1 => { let n = r.below(12); let v: Vec<u8> = (0..n).map(|_| *r.pick(b"a(){}ybvsoghxt\xff\0:/._1A-")).collect(); format!("N:{}", hex(&v)) }
            2 => { let mut x = dcase(r, true); for _ in 0..4 { mutate(r, &mut x.1); } fmt_d(x) }
            _ => fmt_d(dcase(r, true)),
        }
    }
    fn exec(&self, case: &str) -> Result<bool, String> {
        if case.starts_with("N:") {
            let b = unhex(&case[2..]);
            let _ = Type::from_bytes_to_signature(&b).map(|l| Type::from_signature_to_string(&l));
            let _ = Type::try_from(&b[..]).map(|t| t.to_string());
            let _ = UniqueConnectionName::try_from(&b[..]);
            let _ = WellKnownBusName::try_from(&b[..]);
            let _ = Bus::try_from(&b[..]);
            let _ = Interface::try_from(&b[..]);
            let _ = Member::try_from(&b[..]);
            let _ = Error::try_from(&b[..]);
            let _ = ObjectPath::try_from(&b[..]);
            if let Ok(s) = std::str::from_utf8(&b) {
                let _ = Type::from_string_to_signature(s);
                let _ = Type::try_from(s);
                let _ = Bus::try_from(s).map(|x| x.to_string());
                let _ = ObjectPath::try_from(s).map(|x| x.to_string());
            }
            return Ok(b.len() > 1);
        }
        if case.starts_with("L:") { return lim_exec(case, false); }
        let (nf, b) = parse_d(case);
        let r = Message::decode_with_fds(Bytes::copy_from_slice(&b), &fdlist(nf));
        let _ = Message::decode(Bytes::copy_from_slice(&b));
        if let Ok((m, n, u)) = r {
            if n > b.len() || u > nf { return Err(format!("reports {} of {} bytes, {} of {} descriptors", n, b.len(), u, nf)); }
            let _ = m.to_owned().get_signature();
        }
        Ok(b.len() > 16)
    }
    fn rule(&self) -> &'static str { "marshalled messages with every byte replaced/removed/inserted, random damage, hostile signatures, messages at the limits; judged: returns without panic (overflow checks on) within 25 s and reports lengths inside the input; non-trivial: more than 16 bytes" }
}

/// messages holding n of something: lengths where a fast path, a chunk or a narrower integer would show
const LADDER: [usize; 51] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 200001, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 22) + 1, (1 << 24) + 1];
const LSIGS: [&str; 22] = ["y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "(y)", "(yt)", "{sv}", "ay", "at", "(sy)", "{yt}", "h", "a(yt)"];
fn ladder(f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
    for n in 0..LADDER.len() { for k in 0..40 { for le in 0..2 { if !f(&|| format!("Z:{}:{}:{}", k, n, le)) { return; } } } }
}
fn zcase(case: &str) -> Option<Raw> {
    let p: Vec<usize> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
    let (k, n, le) = (p[0], LADDER[p[1]], p[2] == 1);
    let mut r = Rng::new((p[0] * 100 + p[1]) as u64);
    let c = Cfg { depth: 1, len: 2, fd: 0, vmax: 1 };
    if n > 200001 && ![0, 22, 24, 29].contains(&k) || n > 1 << 21 && k != 22 { return None; }
    let mut fields = vec![(5, V::U(7))];
    let body = match k {
        0..=21 => { if n > 70000 && k != 0 { return None; } let t = LSIGS[k]; let mut l = vec![]; for i in 0..n { l.push(if k == 20 { V::H((i % 700) as i32) } else { val(&mut r, t.as_bytes(), &c, 0) }); } let a = V::A(t.into(), l); if n % 2 == 0 { vec![a, V::T(9)] } else { vec![V::Y(3), a, V::Y(1)] } }
        22 => vec![V::S("x".repeat(n)), V::U(5)],
        23 => vec![V::Y(1), V::S("\u{e9}\u{4e2d}".repeat(n / 5)), V::S("\u{1f600}".repeat(n / 4)), V::T(5)],
        24 => vec![V::O(if n < 2 { "/".into() } else { format!("/{}", "a".repeat(n - 1)) }), V::Q(5)],
        25 => { if n > 255 { return None; } vec![V::G("y".repeat(n)), V::N(-5)] }
        26 => { if n > 255 { return None; } (0..n).map(|i| V::Y(i as u8)).collect() }
        27 => { if n > 253 || n == 0 { return None; } vec![V::R((0..n).map(|i| V::Y(i as u8)).collect()), V::D(5)] }
        28 => { if n > 255 { return None; } (0..n).map(|i| V::S("z".repeat(i))).collect() }
        29 => vec![V::V(Box::new(V::S("v".repeat(n)))), V::X(-1)],
        30 => vec![V::V(Box::new(V::A("t".into(), (0..n.min(70000)).map(|i| V::T(i as u64)).collect())))],
        31 => { if n == 0 { return None; } fields.push((1, V::O(format!("/{}", "p".repeat(n - 1))))); vec![V::Q(6)] }
        32 => { if n > 255 || n < 3 { return None; } fields.push((2, V::S(format!("a.{}", "i".repeat(n - 2))))); vec![V::Q(6)] }
        33 => { if n > 255 || n == 0 { return None; } fields.push((3, V::S("m".repeat(n)))); vec![] }
        34 => { if n > 255 || n < 4 { return None; } fields.push((6, V::S(format!(":{}.{}", "1".repeat((n - 2) / 2), "2".repeat(n - 2 - (n - 2) / 2))))); vec![V::T(1)] }
        35 => { if n > 255 || n < 3 { return None; } fields.push((7, V::S(format!("a.{}", "b".repeat(n - 2))))); fields.push((4, V::S(format!("e.{}", "b".repeat(n - 2))))); vec![V::Y(1)] }
        36 => vec![V::A("s".into(), (0..n.min(3000)).map(|i| V::S("s".repeat(i % 300))).collect())],
        37 => vec![V::A("ay".into(), (0..n.min(3000)).map(|i| V::A("y".into(), vec![V::Y(200); i % 40])).collect())],
        38 => { if n > 63 { return None; } vec![(0..n.min(31)).fold(V::Y(1), |v, i| if i % 3 == 0 { V::R(vec![V::Y(7), v]) } else { V::A(sig_of(&v), vec![v.clone(), v]) }); 1].into_iter().filter(|_| n <= 12).collect() }
        _ => { let s = ["y", "s", "t", "ay", "v", "(y)"]; if n > 70 { return None; } (0..n).map(|i| val(&mut r, s[i % s.len()].as_bytes(), &c, 0)).collect() }
    };
    if fields.len() > 1 { if let (1, V::O(_)) = &fields[1] { fields.push((3, V::S("m".into()))); } }
    Some(Raw { le, typ: 2, flags: 0, version: 1, serial: 0x7f000001, fields, body })
}

// ---------------------------------------------------------------- C02
pub struct C02;
fn wire_sizes_ok(m: &Raw) -> bool { m.body.iter().all(|v| vdepth(v) <= 4) }
fn roundtrip(m: &Raw) -> Result<bool, String> {
    let lm = lib_msg(m)?;
    let (b, fds) = match lm.encode_with_fds() { Ok(x) => x, Err(_) => return Ok(false) };
    if !wire_sizes_ok(m) || b.len() > MSG_MAX { return Ok(false); }
    let b = b.freeze();
    let (d, n, used) = Message::decode_with_fds(b.clone(), &fds).map_err(|e| format!("encoded message cannot be decoded: {:?}", short(&e)))?;
    if n != b.len() { return Err(format!("decoding used {} of {} bytes", n, b.len())); }
    if used != fds.len() { return Err(format!("decoding used {} of {} descriptors", used, fds.len())); }
    let mut w = m.clone();
    let mut all = vec![];
    m.body.iter().for_each(|v| fds_in(v, &mut all));
    let mut distinct: Vec<i32> = vec![];
    for x in all { if !distinct.contains(&x) { distinct.push(x); } }
    if !distinct.is_empty() { w.fields.retain(|f| f.0 != 9); w.fields.push((9, V::U(distinct.len() as u32))); }
    match differs(&d, &w) { Some(x) => Err(format!("after encode and decode: {}", x)), None => Ok(!m.body.is_empty()) }
}
impl Prop for C02 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) { pairs(f); for s in 0..3000u64 { if !f(&|| format!("E:{}", s)) { return; } } ladder(f); }
    fn random(&self, r: &mut Rng) -> String { format!("E:{}", r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        if case.starts_with("Z:") { return zcase(case).map(|m| roundtrip(&m)).unwrap_or(Ok(false)); }
        roundtrip(&ecase(case))
    }
    fn rule(&self) -> &'static str { "every ordered pair and triple of basic types/containers in both byte orders, then random messages (case: generator seed), encoded and decoded by the library and compared bit for bit; non-trivial: has a body" }
}
const SIGS: [&str; 34] = ["y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "h", "v", "ay", "an", "ai", "ax", "at", "ad", "as", "ag", "av", "(y)", "(yx)", "a(y)", "a{sv}", "a{yt}", "{yv}", "{ty}", "aay", "aax", "(ayay)", "a(ay)"];
/// all pairs and (with y in front) triples of the signatures above
fn pairs(f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
    for le in 0..2 { for i in 0..SIGS.len() { for j in 0..SIGS.len() { for k in 0..3 {
        if !f(&|| format!("P:{}:{}:{}:{}", le, i, j, k)) { return; }
    } } } }
}
fn ecase(case: &str) -> Raw {
    if case.starts_with("E:") { return emsg(seed_of(case)).1; }
    let p: Vec<usize> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
    let mut r = Rng::new((p[1] * 1000 + p[2] * 10 + p[3]) as u64);
    let c = Cfg { depth: 2, len: 2, fd: 0, vmax: 2 };
    let mut body = vec![];
    for _ in 0..p[3] { body.push(V::Y(r.u64() as u8)); }
    body.push(val(&mut r, SIGS[p[1]].as_bytes(), &c, 0));
    body.push(val(&mut r, SIGS[p[2]].as_bytes(), &c, 0));
    Raw { le: p[0] == 1, typ: 2, flags: 0, version: 1, serial: 0x01020304, fields: vec![(5, V::U(7))], body }
}

// ---------------------------------------------------------------- C03
pub struct C03;
fn marshalled(m: &Raw) -> Result<bool, String> {
    let lm = lib_msg(m)?;
    let bs = body_sig(&m.body);
    let mut sigs_fine = sig_ok(bs.as_bytes());
    fn deep(v: &V) -> bool { match v { V::V(x) => sig_ok(sig_of(x).as_bytes()) && deep(x), V::A(_, l) | V::R(l) => l.iter().all(deep), V::E(b) => deep(&b.0) && deep(&b.1), _ => true } }
    sigs_fine &= m.body.iter().all(deep);
    let b = match lm.encode_with_fds() {
        Ok(x) => x,
        Err(e) => return if sigs_fine { Err(format!("could not encode: {:?}", short(&e))) } else { Ok(true) },
    };
    if !sigs_fine { return Err("encoded although a signature is not valid".into()); }
    let plain = lm.encode().map_err(|e| format!("{:?}", e))?;
    if plain != b.0 { return Err("encode and encode_with_fds differ".into()); }
    let (b, fds) = (b.0.to_vec(), b.1);
    // what it must be: header fields in whatever order the library chose
    let idx = |x: i32| fds.iter().position(|y| *y == x).map(|p| p as i32).unwrap_or(-1);
    let mut w = m.clone();
    w.body = m.body.iter().map(|v| map_fds(v, &idx)).collect();
    let mut order = vec![];
    {
        let mut r = Rd::new(&b, 0);
        r.at = 12;
        r.le = m.le;
        let l = r.array(b"(yv)", 0).ok_or("the header field array cannot be read")?;
        for x in l { if let V::R(p) = x { if let V::Y(c) = p[0] { order.push(c); } } }
    }
    w.fields = sorted(&m.fields, true);
    if !m.body.is_empty() { w.fields.push((8, V::G(bs.clone()))); }
    if !fds.is_empty() { w.fields.retain(|f| f.0 != 9); w.fields.push((9, V::U(fds.len() as u32))); }
    let mut o2 = order.clone();
    o2.sort();
    let mut have: Vec<u8> = w.fields.iter().map(|f| f.0).collect();
    have.sort();
    if o2 != have { return Err(format!("header fields {:?} but the message has {:?}", o2, have)); }
    w.fields.sort_by_key(|f| order.iter().position(|c| *c == f.0));
    let want = enc_msg(&w);
    if want != b {
        let i = (0..want.len().min(b.len())).find(|i| want[*i] != b[*i]).unwrap_or(want.len().min(b.len()));
        return Err(format!("bytes differ at {} (lengths {} and {}): {} but should be {} for {}", i, b.len(), want.len(), hex(&b[i.saturating_sub(8)..b.len().min(i + 16)]), hex(&want[i.saturating_sub(8)..want.len().min(i + 16)]), short(&m)));
    }
    Ok(!m.body.is_empty())
}
impl Prop for C03 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        pairs(f);
        for s in 0..3000u64 { if !f(&|| format!("E:{}", s)) { return; } }
        for n in [64u64 << 20, (64 << 20) + 1, (64 << 20) + 4, (64 << 20) - 1, 67108869].iter() { for k in 0..3 { if !f(&|| format!("B:{}:{}", k, n)) { return; } } }
        for n in 28..36 { for k in 0..4 { if !f(&|| format!("S:{}:{}", k, n)) { return; } } }
        for n in 250..260 { for k in 0..4 { if !f(&|| format!("W:{}:{}", k, n)) { return; } } }
        ladder(f);
        for k in 3..15 { if !f(&|| format!("B:{}:{}", k, (64 << 20) + 8)) { return; } }
        for k in 6..14 { if !f(&|| format!("B:{}:{}", k, 64 << 20)) { return; } }
    }
    fn random(&self, r: &mut Rng) -> String { format!("E:{}", r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        if case.starts_with("E:") || case.starts_with("P:") { return marshalled(&ecase(case)); }
        if case.starts_with("Z:") { return zcase(case).map(|m| marshalled(&m)).unwrap_or(Ok(false)); }
        let p: Vec<u64> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
        let base = |body: Vec<V>| Raw { le: true, typ: 2, flags: 0, version: 1, serial: 9, fields: vec![(5, V::U(7))], body };
        if case.starts_with("S:") || case.starts_with("W:") {
            // nesting of signatures and their lengths, inside a variant, an array of variants, the body
            let v = if case.starts_with("S:") {
                (0..p[1]).fold(V::Y(1), |v, i| match p[0] { 0 => V::A(sig_of(&v), vec![v]), 1 => V::R(vec![v]), 2 => V::E(Box::new((V::Y(1), v))), _ => if i % 2 == 0 { V::R(vec![v]) } else { V::A(sig_of(&v), vec![v]) } })
            } else { V::R(vec![V::Y(1); p[1] as usize - 2]) };
            let body = if case.starts_with("W:") { match p[0] { 0 => vec![v], 1 => vec![V::V(Box::new(v))], 2 => vec![V::Y(0); p[1] as usize], _ => vec![V::Y(1), V::V(Box::new(V::R(vec![V::Y(1); p[1] as usize - 2])))] } } else { vec![V::V(Box::new(v))] };
            return marshalled(&base(body));
        }
        // an array of p[1] bytes: one string
        let _g = BIG.lock().unwrap();
        let n = p[1] as usize;
        if p[0] >= 3 { return big_array(p[0], n); }
        let a = V::A("s".into(), vec![V::S("x".repeat(n - 5))]);
        let body = vec![match p[0] { 0 => a, 1 => V::V(Box::new(a)), _ => V::R(vec![V::Y(1), a]) }];
        let m = lib_msg(&base(body))?;
        match m.encode() {
            Ok(_) if n as u64 > ARR_MAX => Err(format!("an array of {} bytes was encoded", n)),
            Ok(b) => { let at = body_at(&b) + if p[0] == 0 { 0 } else { 4 }; let got = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]); if got as usize == n { Ok(true) } else { Err(format!("array length {} written for {} bytes", got, n)) } }
            Err(EncodeError::ArrayTooBig(_)) if n as u64 > ARR_MAX => Ok(true),
            Err(e) => Err(format!("an array of {} bytes: {:?}", n, short(&e))),
        }
    }
    fn rule(&self) -> &'static str { "pairs and triples of types in both byte orders and random messages (case: generator seed): the library's bytes equal those of an independent marshaller; arrays around 64 MiB; signatures around 32 levels and 255 bytes; non-trivial: has a body" }
}
/// an array of n bytes (a multiple of 8), by element type
fn big_array(k: u64, n: usize) -> Result<bool, String> {
    use std::convert::TryInto;
    let st = |n: usize| Value::String("x".repeat(n));
    let arr = |l: Vec<Value>| { let t = l[0].get_type().unwrap(); Array::new(l, t).map_err(|e| format!("Array::new: {:?}", short(&e))) };
    let tup = |l: Vec<Value>| Value::Struct(Struct::try_from(l).unwrap());
    let a = match k {
        3 => arr(vec![Value::Byte(3); n])?,
        4 => arr(vec![Value::Uint16(3); n / 2])?,
        5 => arr(vec![Value::Int32(3); n / 4])?,
        6 => arr(vec![Value::Uint64(3); n / 8])?,
        7 => arr(vec![Value::Double(3.0); n / 8])?,
        8 => arr(vec![Value::Boolean(true); n / 4])?,
        9 => arr(vec![Value::UnixFD(3); n / 4])?,
        10 => arr({ let mut l = vec![Value::Signature(vec![Type::Byte; 254]); n / 256]; if n % 256 != 0 { l.push(Value::Signature(vec![Type::Byte; n % 256 - 2])); } l })?,
        11 => arr(vec![tup(vec![st(n - 5)])])?,
        12 => arr(vec![Value::DictEntry(Box::new((Value::Byte(1), st(n - 9))))])?,
        13 => arr(vec![Value::Variant(Box::new(st(n - 9)))])?,
        _ => arr(vec![Value::Array(arr(vec![Value::Byte(1); n - 4])?)])?,
    };
    let mut m = Message::method_call("a.b".try_into().unwrap(), "/".try_into().unwrap(), "a.b".try_into().unwrap(), "m".try_into().unwrap());
    m.add_value(Value::Array(a));
    match m.encode() {
        Ok(_) if n as u64 > ARR_MAX => Err(format!("an array of {} bytes was encoded", n)),
        Ok(b) => { let at = body_at(&b); let got = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]); if got as usize == n { Ok(true) } else { Err(format!("array length {} written for {} bytes", got, n)) } }
        Err(EncodeError::ArrayTooBig(x)) if n as u64 > ARR_MAX => if x == n || k == 14 { Ok(true) } else { Err(format!("an array of {} bytes reported as {}", n, x)) },
        Err(e) => Err(format!("an array of {} bytes: {:?}", n, short(&e))),
    }
}
static BIG: Mutex<()> = Mutex::new(());

// ---------------------------------------------------------------- C04
pub struct C04;
const BADTEXT: [&[u8]; 18] = [b"\xff", b"\x80", b"\xc3", b"\xc3\xa9", b"\xc0\x80", b"\xe0\x80\x80", b"\xe4\xb8\xad", b"\xed\xa0\x80", b"\xef\xbf\xbf", b"\xf0\x9f\x98\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\0", b"\x7f", b"/", b"//", b".", b"-"];
impl Prop for C04 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) { damaged(f); ladder(f);
        for v in crate::rules::shapes(&[1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 253, 254, 255]) { for k in [0, 1, 2, 4, 8, 99].iter() { if !f(&|| format!("G:{}:{}", k, hex(v.as_bytes()))) { return; } } }
        for n in (1..36usize).chain([63, 64, 65, 66, 79, 80, 100, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 4100].iter().copied()) { for k in 0..n { if n > 130 && k % 61 > 2 && k + 3 < n { continue; } for c in 0..BADTEXT.len() * 2 { if !f(&|| format!("U:{}:{}:{}", n, k, c)) { return; } } } }
    }
    fn random(&self, r: &mut Rng) -> String { let d = r.chance(3, 4); fmt_d(dcase(r, d)) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        if case.starts_with("Z:") { return zcase(case).map(|mut m| { if !m.body.is_empty() { resig(&mut m); } judge(&enc_msg(&m), 700) }).unwrap_or(Ok(false)); }
        if case.starts_with("U:") {
            // one odd place in a string or an object path of n bytes
            let p: Vec<usize> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
            let path = p[2] >= BADTEXT.len();
            let c = BADTEXT[p[2] % BADTEXT.len()];
            if p[1] + c.len() > p[0] { return Ok(false); }
            let t = if path { format!("/{}", "b".repeat(p[0] - 1)) } else { "b".repeat(p[0]) };
            let mut b = enc_msg(&Raw { le: true, typ: 2, flags: 0, version: 1, serial: 3, fields: vec![(5, V::U(1)), (8, V::G(if path { "o".into() } else { "s".into() }))], body: vec![if path { V::O(t) } else { V::S(t) }] });
            let at = body_at(&b) + 4 + p[1];
            b[at..at + c.len()].copy_from_slice(c);
            return judge(&b, 0);
        }
        if case.starts_with("G:") {
            // a signature of any text, in a variant in front of some bytes or as a value
            let p: Vec<&str> = case.split(':').collect();
            let (k, s) = (p[1].parse::<usize>().unwrap(), unhex(p[2]));
            let g = k == 99;
            let mut b = enc_msg(&Raw { le: true, typ: 2, flags: 0, version: 1, serial: 3, fields: vec![(5, V::U(1)), (8, V::G(if g { "g".into() } else { "v".into() }))], body: vec![if g { V::G(String::new()) } else { V::V(Box::new(V::Y(1))) }] });
            b.truncate(body_at(&b));
            let at = b.len();
            b.push(s.len() as u8); b.extend(&s); b.push(0);
            if !g { b.extend(vec![0u8; k]); }
            let l = (b.len() - at) as u32;
            b[4..8].copy_from_slice(&l.to_le_bytes());
            return judge(&b, 0);
        }
        let (nf, b) = parse_d(case);
        let r = judge(&b, nf)?;
        if b.len() < 4096 { for x in alike(&b) { judge(&x, nf)?; judge(&b, nf)?; } }
        Ok(r)
    }
    fn rule(&self) -> &'static str { "signatures of many shapes and lengths in variants and as values; marshalled messages with every byte changed, and random valid and damaged ones: accepted exactly when an independent reader accepts, with the same result; non-trivial: more than 16 bytes" }
}

// ---------------------------------------------------------------- C08
pub struct C08;
fn hvals() -> Vec<V> {
    vec![V::Y(1), V::B(true), V::N(1), V::Q(1), V::I(1), V::U(1), V::X(1), V::T(1), V::D(0), V::S("a.b".into()), V::S("a".into()), V::S(":1.1".into()), V::S("/".into()), V::S("".into()), V::S("a b".into()),
        V::O("/a".into()), V::G("".into()), V::G("s".into()), V::A("y".into(), vec![]), V::R(vec![V::Y(1)]), V::V(Box::new(V::S("a.b".into()))), V::V(Box::new(V::U(1))), V::E(Box::new((V::Y(1), V::Y(1))))]
}
fn subset(bits: usize) -> Vec<(u8, V)> {
    let all = [V::O("/a".into()), V::S("a.b".into()), V::S("m".into()), V::S("e.f".into()), V::U(3), V::S("c.d".into()), V::S(":1.2".into()), V::G("".into()), V::U(0)];
    (0..9).filter(|i| bits >> i & 1 == 1).map(|i| (i as u8 + 1, all[i].clone())).collect()
}
impl Prop for C08 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        for t in 0..6 { for b in 0..512 { if !f(&|| format!("S:{}:{}", t, b)) { return; } } }
        let n = hvals().len();
        for c in 0..256 { for v in 0..n { for p in 0..3 { if !f(&|| format!("C:{}:{}:{}", c, v, p)) { return; } } } }
        for c in 1..10 { for v in 0..n { for p in 3..5 { if !f(&|| format!("C:{}:{}:{}", c, v, p)) { return; } } } }
        for k in 0..40 { if !f(&|| format!("X:{}", k)) { return; } }
    }
    fn random(&self, r: &mut Rng) -> String { format!("R:{}", r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let p: Vec<u64> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
        let mut m = Raw { le: true, typ: 4, flags: 1, version: 1, serial: 5, fields: vec![], body: vec![] };
        match &case[..1] {
            "S" => {
                m.typ = p[0] as u8;
                m.fields = subset(p[1] as usize);
                if p[0] >= 1 && p[0] <= 4 {
                    let f = lib_fields(&m.fields)?;
                    let g = MessageHeader::new(m.le, mtype(m.typ), MessageFlags::from_bits(m.flags).unwrap(), m.version, m.serial, f);
                    let want = required_ok(m.typ, &m.fields);
                    match g {
                        Ok(h) => {
                            if !want { return Err(format!("header of type {} made without its required fields: {:?}", m.typ, m.fields)); }
                            if fields_of(&h) != sorted(&m.fields, false) { return Err(format!("header holds {:?} instead of {:?}", fields_of(&h), m.fields)); }
                            let has = [h.has_path(), h.has_interface(), h.has_member(), h.has_error_name(), h.has_reply_serial(), h.has_destination(), h.has_sender(), h.has_signature(), h.has_unix_fds()];
                            for i in 0..9 { if has[i] != (p[1] >> i & 1 == 1) { return Err(format!("has_* of field {} is {}", i + 1, has[i])); } }
                            if h.get_serial() != m.serial || h.get_type() != mtype(m.typ) { return Err("serial or type".into()); }
                        }
                        Err(e) => if want { return Err(format!("header refused: {}", e)); }
                    }
                }
                hdec(&m)
            }
            "C" => {
                m.fields = vec![(1, V::O("/".into())), (2, V::S("a.b".into())), (3, V::S("m".into()))];
                let (c, v) = (p[0] as u8, hvals()[p[1] as usize].clone());
                match p[2] {
                    0 => m.fields.push((c, v)),
                    1 => m.fields.insert(0, (c, v)),
                    2 => { m.fields.retain(|f| f.0 != c); m.fields.push((c, v)); }
                    3 => { m.fields.retain(|f| f.0 != c); m.fields.push((c, v.clone())); m.fields.push((c, v)); }
                    _ => { m.typ = 3; m.fields = vec![(5, V::U(1)), (4, V::S("a.b".into()))]; m.fields.retain(|f| f.0 != c); m.fields.insert(0, (c, v.clone())); let g = field(&mut Rng::new(p[1]), c); m.fields.push((c, g)); }
                }
                hdec(&m)
            }
            "X" => fields_from_values(p[0]),
            _ => {
                let mut r = Rng::new(p[0]);
                let (mut q, w) = emsg(r.u64());
                m = with_sig(&mut q, &w);
                m.body.clear();
                if r.chance(2, 3) { m.fields.retain(|f| f.0 != 8); }
                for _ in 0..r.below(3) { let k = r.below(4); match k { 0 => { m.typ = 1 + r.below(4) as u8; } 1 => { if !m.fields.is_empty() { let i = r.below(m.fields.len()); m.fields.remove(i); } } 2 => { let c = r.below(11) as u8; let v = field(&mut r, c); m.fields.push((c, v)); } _ => { let h = hvals(); let v = r.pick(&h).clone(); if !m.fields.is_empty() { let i = r.below(m.fields.len()); m.fields[i].1 = v; } } } }
                hdec(&m)
            }
        }
    }
    fn rule(&self) -> &'static str { "all subsets of fields for all types; each of 256 codes with 23 values in 3 places, repeated; random field lists; construction and decoding judged by the required/known/unique/typed rule; non-trivial: has a field" }
}
fn hdec(m: &Raw) -> Result<bool, String> {
    let b = enc_msg(m);
    let want = m.typ >= 1 && m.typ <= 4 && fields_ok(&m.fields) && required_ok(m.typ, &m.fields) && !m.fields.iter().any(|f| f.0 == 8 && f.1 != V::G("".into()));
    match Message::decode(Bytes::from(b)) {
        Ok((g, _)) => {
            if !want { return Err(format!("header accepted: type {} fields {:?}", m.typ, m.fields)); }
            match differs(&g, m) { Some(d) => Err(d), None => Ok(!m.fields.is_empty()) }
        }
        Err(e) => if want { Err(format!("header refused ({:?}): type {} fields {:?}", short(&e), m.typ, m.fields)) } else { Ok(!m.fields.is_empty()) },
    }
}
fn fields_from_values(k: u64) -> Result<bool, String> {
    let y = |c| Value::Byte(c);
    let vs = |v| Value::Variant(Box::new(v));
    let st = |l: Vec<Value>| Value::Struct(Struct::try_from(l).unwrap());
    let s = |x: &str| Value::String(x.to_string());
    let (l, ok): (Vec<Value>, bool) = match k {
        0 => (vec![], true),
        1 => (vec![st(vec![y(2), vs(s("a.b"))])], true),
        2 => (vec![y(1)], false),
        3 => (vec![st(vec![y(2)])], false),
        4 => (vec![st(vec![y(2), vs(s("a.b")), y(1)])], false),
        5 => (vec![st(vec![y(2), s("a.b")])], false),
        6 => (vec![st(vec![vs(s("a.b")), y(2)])], false),
        7 => (vec![st(vec![s("a"), vs(s("a.b"))])], false),
        8 => (vec![Value::DictEntry(Box::new((y(2), vs(s("a.b")))))], false),
        9 => (vec![st(vec![Value::Uint32(2), vs(s("a.b"))])], false),
        10 => (vec![st(vec![y(2), vs(vs(s("a.b")))])], false),
        11..=29 => { let c = (k - 10) as u8; (vec![st(vec![y(c), vs(match c { 1 => Value::ObjectPath(ObjectPath::default()), 5 | 9 => Value::Uint32(1), 8 => Value::Signature(vec![Type::Byte]), 3 => s("m"), _ => s("a.b") })])], c <= 9) }
        _ => { let c = (k - 30) as u8; (vec![st(vec![y(c), vs(s("a.b"))]), st(vec![y(c), vs(s("a.b"))])], false) }
    };
    let d = format!("{:?}", l);
    match MessageHeaderFields::try_from(l) {
        Ok(f) if ok => {
            let want = match k { 0 => 0usize, 1 => 1 << 1, _ => 1 << (k - 11) };
            let got = [f.path.is_some(), f.interface.is_some(), f.member.is_some(), f.error_name.is_some(), f.reply_serial.is_some(), f.destination.is_some(), f.sender.is_some(), f.signature.is_some(), f.unix_fds.is_some()];
            for i in 0..9 { if got[i] != (want >> i & 1 == 1) { return Err(format!("{} read into the wrong field: {:?}", d, f)); } }
            Ok(true)
        }
        Err(_) if !ok => Ok(true),
        r => Err(format!("fields from {}: {}", d, if r.is_ok() { "accepted" } else { "refused" })),
    }
}

// ---------------------------------------------------------------- C09
pub struct C09;
fn check_reply(kind: &str, m: &Raw, g: &Message, err: Option<&str>, text: Option<&str>) -> Result<(), String> {
    let get = |c| m.fields.iter().find(|f| f.0 == c).map(|f| f.1.clone());
    let mut w = Raw { le: m.le, typ: if err.is_some() { 3 } else { 2 }, flags: 1, version: 1, serial: 0, fields: vec![(5, V::U(m.serial))], body: vec![] };
    if let Some(s) = get(7) { w.fields.push((6, s)); }
    if let Some(s) = get(6) { w.fields.push((7, s)); }
    if let Some(e) = err { w.fields.push((4, V::S(e.into()))); }
    if let Some(t) = text { w.body.push(V::S(t.into())); }
    if let Some(d) = differs(g, &w) { return Err(format!("{}: {}", kind, d)); }
    if g.has_signature() { return Err(format!("{}: reply has a signature field", kind)); }
    Ok(())
}
impl Prop for C09 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) { for t in 1..5 { for b in 0..512 { for le in 0..2 { if !f(&|| format!("S:{}:{}:{}", t, b, le)) { return; } } } } }
    fn random(&self, r: &mut Rng) -> String { format!("R:{}", r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let p: Vec<u64> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
        let mut r = Rng::new(p[0] ^ 77);
        let m = if case.starts_with("S") {
            let mut m = Raw { le: p[2] == 1, typ: p[0] as u8, flags: (p[1] % 8) as u8, version: 1, serial: p[1] as u32 * 77, fields: subset(p[1] as usize), body: vec![] };
            if !required_ok(m.typ, &m.fields) { return Ok(false); }
            m.fields.retain(|f| f.0 != 8);
            m
        } else { emsg(p[0]).1 };
        let l = lib_msg(&m)?;
        let txt = string(&mut r);
        match l.method_return() {
            Ok(g) => { if m.typ != 1 { return Err(format!("a method return for a message of type {}", m.typ)); } check_reply("method_return", &m, &g, None, None)?; }
            Err(g) => { if m.typ == 1 { return Err("no method return for a method call".into()); } check_reply("method_return (error)", &m, &g, Some("org.freedesktop.DBus.Error.MessageType"), Some("Message is not a method call"))?; }
        }
        check_reply("error", &m, &l.error(Error::try_from("a.b").unwrap(), txt.clone()), Some("a.b"), Some(&txt))?;
        check_reply("invalid_args", &m, &l.invalid_args(txt.clone()), Some("org.freedesktop.DBus.Error.InvalidArgs"), Some(&txt))?;
        check_reply("unknown_property", &m, &l.unknown_property(&txt), Some("org.freedesktop.DBus.Error.UnknownProperty"), Some(&format!("does not have a property {}", txt)))?;
        for (c, g, e, t) in vec![(1u8, l.unknown_path(), "UnknownPath", "does not have a path "), (2, l.unknown_interface(), "UnknownInterface", "does not have an interface "), (3, l.unknown_member(), "UnknownMember", "does not have a member ")] {
            let x = m.fields.iter().find(|f| f.0 == c).map(|f| match &f.1 { V::O(s) | V::S(s) => s.clone(), _ => String::new() });
            match (x, g) {
                (Some(x), Some(g)) => check_reply(e, &m, &g, Some(&format!("org.freedesktop.DBus.Error.{}", e)), Some(&format!("{}{}", t, x)))?,
                (None, None) => {}
                (x, g) => return Err(format!("{}: field is {:?} but the reply is {}", e, x, if g.is_some() { "there" } else { "missing" })),
            }
        }
        // the same through the header
        let h = lib_header(&m)?;
        match (h.method_return(), l.method_return()) { (Ok(a), Ok(b)) if a == b => {} (Err(a), Err(b)) if a == b => {} _ => return Err("header and message give different returns".into()) }
        Ok(true)
    }
    fn rule(&self) -> &'static str { "all subsets of header fields for all types and byte orders, then random messages: method_return and every error reply compared with the reply the rules prescribe" }
}

// ---------------------------------------------------------------- C10
pub struct C10;
fn fbody(r: &mut Rng, range: i32) -> Vec<V> {
    let c = Cfg { depth: 3, len: 5, fd: 6, vmax: 3 };
    let n = 1 + r.below(5);
    let mut b = vec![];
    for _ in 0..n { let s = sig(r, &c, 3); if s.len() + body_sig(&b).len() < 240 { let v = val(r, s.as_bytes(), &c, 0); let k = r.below(3) as i32; b.push(map_fds(&v, &|x| if k == 0 { x % range } else { (x * 7 + k) % range })); } }
    if b.is_empty() { b.push(V::H(0)); }
    b
}
impl Prop for C10 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        for n in 0..5usize { for k in 0..4usize.pow(n as u32) { if !f(&|| format!("A:{}:{}", n, k)) { return; } } }
        for nf in 0..5u64 { for i in [0u64, 1, 2, 3, 4, 5, 255, 256, 0x7fff_ffff, 0xffff_ffff, 0xffff_fffe, 0x8000_0000, 65536].iter() { for j in 0..5u64 { if !f(&|| format!("I:{}:{}:{}", nf, i, j)) { return; } } } }
        for n in [100usize, 255, 256, 257, 300, 1000].iter() { if !f(&|| format!("M:{}", n)) { return; } }
        for nf in [255u64, 256, 257, 300, 70000].iter() { for i in [254u64, 255, 256, 257, 299, 300, 301, 65535, 65536, 69999, 70000, 70001].iter() { for j in 0..5u64 { if !f(&|| format!("I:{}:{}:{}", nf, i, j)) { return; } } } }
    }
    fn random(&self, r: &mut Rng) -> String { format!("{}:{}", if r.chance(1, 2) { "E" } else { "J" }, r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let p: Vec<u64> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
        let mut r = Rng::new(p[0]);
        let mut m = Raw { le: p[0] % 2 == 0, typ: 2, flags: 0, version: 1, serial: 3, fields: vec![(5, V::U(1))], body: vec![] };
        match &case[..1] {
            "A" | "E" | "M" => {
                m.body = match &case[..1] {
                    "A" => { let mut k = p[1]; (0..p[0]).map(|_| { let x = V::H((k % 4) as i32 * 3 - 1); k /= 4; x }).collect() }
                    "M" => vec![V::A("h".into(), (0..p[0]).chain(0..p[0]).map(|i| V::H(i as i32 * 5)).collect())],
                    _ => fbody(&mut r, 9),
                };
                if r.chance(1, 4) { m.fields.push((9, V::U(77))); }
                let mut all = vec![];
                m.body.iter().for_each(|v| fds_in(v, &mut all));
                let mut want: Vec<i32> = vec![];
                for x in all { if !want.contains(&x) { want.push(x); } }
                let (b, fds) = lib_msg(&m)?.encode_with_fds().map_err(|e| format!("{:?}", e))?;
                if fds != want { return Err(format!("descriptor list {:?} but should be {:?}", fds, want)); }
                let g = dec_msg(&b, want.len()).map_err(|_| "the encoded message is not a correct marshalling for the returned descriptors")?;
                let back: Vec<V> = g.raw.body.iter().map(|v| map_fds(v, &|i| want[i as usize])).collect();
                if back != m.body { return Err(format!("indices name {:?} but the body holds {:?}", short(&back), short(&m.body))); }
                let n = g.raw.fields.iter().find(|f| f.0 == 9).map(|f| f.1.clone());
                let e = if want.is_empty() { m.fields.iter().find(|f| f.0 == 9).map(|f| f.1.clone()) } else { Some(V::U(want.len() as u32)) };
                if n != e { return Err(format!("header announces {:?} descriptors, should be {:?}", n, e)); }
                Ok(!want.is_empty())
            }
            "I" => {
                let h = V::H(p[1] as u32 as i32);
                m.body = match p[2] { 0 => vec![h], 1 => vec![V::A("h".into(), vec![h])], 2 => vec![V::Y(1), V::V(Box::new(h))], 3 => vec![V::R(vec![V::S("a".into()), h])], _ => vec![V::H(0), h] };
                m.le = p[1] % 3 != 0;
                resig(&mut m);
                fd_dec(&m, p[0] as usize)
            }
            _ => { m.body = fbody(&mut r, 6); let nf = r.below(8); if r.chance(1, 3) { let j = r.below(nf + 3) as i32; m.body.push(V::H(j)); } resig(&mut m); fd_dec(&m, nf) }
        }
    }
    fn rule(&self) -> &'static str { "all bodies of up to 4 descriptors over 4 values, hundreds of descriptors, boundary indices against lists of 0..4, random nested bodies: list, indices, announced and used counts; non-trivial: a descriptor occurs" }
}
fn fd_dec(m: &Raw, nf: usize) -> Result<bool, String> {
    let fds = fdlist(nf);
    let mut all = vec![];
    m.body.iter().for_each(|v| fds_in(v, &mut all));
    let ok = all.iter().all(|i| (*i as u32 as usize) < nf);
    match Message::decode_with_fds(Bytes::from(enc_msg(m)), &fds) {
        Ok((g, _, used)) => {
            if !ok { return Err(format!("indices {:?} accepted with {} descriptors", all, nf)); }
            let want: Vec<V> = m.body.iter().map(|v| map_fds(v, &|i| fds[i as usize])).collect();
            let got: Vec<V> = g.get_body().iter().map(from_lib).collect();
            if got != want { return Err(format!("descriptors {:?} but should be {:?}", short(&got), short(&want))); }
            let u = all.iter().map(|i| *i as usize + 1).max().unwrap_or(0);
            if used != u { return Err(format!("{} descriptors used, should be {}", used, u)); }
        }
        Err(e) => if ok { return Err(format!("indices {:?} refused with {} descriptors: {:?}", all, nf, short(&e))); },
    }
    Ok(!all.is_empty())
}

// ---------------------------------------------------------------- C11
pub struct C11;
impl Prop for C11 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) { pairs(f); for s in 0..1500u64 { if !f(&|| format!("E:{}", s)) { return; } } }
    fn random(&self, r: &mut Rng) -> String { format!("E:{}", r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let m = ecase(case);
        let mut r = Rng::new(crate::util::fnv(case.as_bytes()));
        let m = with_sig(&mut r, &m);
        let b = enc_msg(&m);
        let fds = fdlist(7);
        let (g, n, u) = match Message::decode_with_fds(Bytes::copy_from_slice(&b), &fds) { Ok(x) => x, Err(_) => return Ok(false) };
        if n != b.len() { return Err(format!("length {} reported for a message of {} bytes", n, b.len())); }
        for k in 0..5 {
            let mut c = b.clone();
            match k { 0 => c.push(0xff), 1 => c.push(0), 2 => c.extend(b.clone()), 3 => c.extend(vec![0; 64]), _ => { let e = 1 + r.below(40); for _ in 0..e { c.push(r.u64() as u8); } } }
            match Message::decode_with_fds(Bytes::copy_from_slice(&c), &fds) {
                Ok((g2, n2, u2)) => if n2 != n || u2 != u || format!("{:?}", g2) != format!("{:?}", g) { return Err(format!("with {} bytes behind it: length {} instead of {}, or another message", c.len() - b.len(), n2, n)); },
                Err(e) => return Err(format!("with {} bytes behind it the message is refused: {:?}", c.len() - b.len(), short(&e))),
            }
            match Message::decode(Bytes::copy_from_slice(&c)) { Ok((_, n2)) if n2 != n => return Err(format!("decode: length {} instead of {}", n2, n)), _ => {} }
        }
        let cuts: Vec<usize> = if n <= 400 { (0..n).collect() } else { (0..200).map(|_| r.below(n)).chain(n - 100..n).collect() };
        for k in cuts {
            match Message::decode_with_fds(Bytes::copy_from_slice(&b[..k]), &fds) {
                Err(DecodeError::NotEnoughBytes(..)) => {}
                Err(e) => return Err(format!("cut to {} of {} bytes: {:?}", k, n, short(&e))),
                Ok(_) => return Err(format!("cut to {} of {} bytes and still accepted", k, n)),
            }
        }
        Ok(true)
    }
    fn rule(&self) -> &'static str { "pairs of types and random messages (case: generator seed): every cut and 5 continuations; non-trivial: accepted" }
}

// ---------------------------------------------------------------- C12
pub struct C12;
fn well_typed(v: &Value) -> Result<String, String> {
    Ok(match v {
        Value::Array(a) => { let t = ty_str(a.get_type()); let l: &[Value] = a.as_ref(); for x in l { let g = well_typed(x)?; if g != t { return Err(format!("array of {} holds a {}", t, g)); } } format!("a{}", t) }
        Value::Struct(s) => { let l: &[Value] = s.as_ref(); if l.is_empty() { return Err("empty struct".into()); } let mut o = String::from("("); for x in l { o += &well_typed(x)?; } o + ")" }
        Value::DictEntry(b) => format!("{{{}{}}}", well_typed(&b.0)?, well_typed(&b.1)?),
        Value::Variant(x) => { well_typed(x)?; "v".into() }
        x => sig_of(&from_lib(x)),
    })
}
fn types_agree(v: &V) -> Result<(), String> {
    let l = to_lib(v)?;
    let s = sig_of(v);
    match l.get_type() {
        Ok(t) => { if ty_str(&t) != s { return Err(format!("type {} reported for a value of type {}", ty_str(&t), s)); } if t.to_string() != s { return Err(format!("type prints as {} instead of {}", t, s)); } }
        Err(e) => if one(s.as_bytes(), 0, 0, 0, 0) == Some(s.len()) { return Err(format!("no type for a value of type {}: {}", s, e)); },
    }
    let m = Message::new(lib_header(&Raw { le: true, typ: 2, flags: 0, version: 1, serial: 1, fields: vec![(5, V::U(1))], body: vec![] })?, vec![Value::Byte(1), l.clone(), l.clone()]);
    if let Ok(t) = m.get_signature() { let g: String = t.iter().map(ty_str).collect(); if g != format!("y{}{}", s, s) { return Err(format!("body signature {} for a body of y{}{}", g, s, s)); } }
    else if l.get_type().is_ok() { return Err(format!("no body signature although every value has a type ({})", s)); }
    match m.split() { Ok((h, b)) => { let g: String = h.get_signature().unwrap_or(&[]).iter().map(ty_str).collect(); if g != format!("y{}{}", s, s) || b.len() != 3 { return Err(format!("split: signature {} ", g)); } } Err(_) => if l.get_type().is_ok() { return Err("split failed".into()); } }
    // the printed signature, as a variant carries it
    let m = Message::new(lib_header(&Raw { le: true, typ: 2, flags: 0, version: 1, serial: 1, fields: vec![(5, V::U(1))], body: vec![] })?, vec![Value::Variant(Box::new(l.clone()))]);
    if let Ok(b) = m.encode() { let at = body_at(&b); let n = b[at] as usize; if &b[at + 1..at + 1 + n] != s.as_bytes() { return Err(format!("variant carries {:?} for a value of type {}", String::from_utf8_lossy(&b[at + 1..at + 1 + n]), s)); } }
    let m = Message::new(lib_header(&Raw { le: true, typ: 2, flags: 0, version: 1, serial: 1, fields: vec![(5, V::U(1))], body: vec![] })?, vec![l.clone()]);
    if let Ok(b) = m.encode() { if let Ok(g) = dec_msg(&b, 64) { if let Some(V::G(x)) = g.raw.fields.iter().find(|f| f.0 == 8).map(|f| f.1.clone()) { if x != s { return Err(format!("body signature field {} for a body of {}", x, s)); } } } }
    Ok(())
}
impl Prop for C12 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
        for i in 0..SIGS.len() { for j in 0..SIGS.len() { for k in 0..4 { if !f(&|| format!("A:{}:{}:{}", i, j, k)) { return; } } } }
        for s in 0..2000u64 { if !f(&|| format!("T:{}", s)) { return; } }
        for k in 0..7 { for n in 29..36 { if !f(&|| format!("N:{}:{}", k, n)) { return; } } }
    }
    fn random(&self, r: &mut Rng) -> String { format!("{}:{}", *r.pick(&["T", "T", "R", "W"]), r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        let p: Vec<u64> = case[2..].split(':').map(|x| x.parse().unwrap()).collect();
        let mut r = Rng::new(p[0]);
        let c = cfgs(p[0]);
        match &case[..1] {
            "A" => {
                let c = Cfg { depth: 2, len: 2, fd: 0, vmax: 2 };
                let (a, b) = (SIGS[p[0] as usize], SIGS[p[1] as usize]);
                let mut q = Rng::new(p[0] * 99 + p[1]);
                let mut l = vec![];
                for i in 0..p[2] { let t = if i + 1 == p[2] { b } else { a }; l.push(to_lib(&val(&mut q, t.as_bytes(), &c, 0))?); }
                let want = p[2] == 0 || a == b || (p[2] == 1 && a == b);
                let d = format!("{:?}", l);
                match Array::new(l, ty_of(a.as_bytes())) {
                    Ok(x) => { if !want { return Err(format!("array of {} accepts {}", a, short(&d))); } well_typed(&Value::Array(x.clone()))?; if format!("{:?}", x.as_ref() as &[Value]) != d { return Err("array changed its elements".into()); } if ty_str(x.get_type()) != a { return Err("array type changed".into()); } let v: Vec<Value> = x.into(); if format!("{:?}", v) != d { return Err("array changed its elements".into()); } }
                    Err(e) => if want { return Err(format!("array of {} refuses {}: {}", a, short(&d), e)); },
                }
                let l: Vec<Value> = (0..p[2]).map(|_| to_lib(&val(&mut q, b.as_bytes(), &c, 0)).unwrap()).collect();
                let d = format!("{:?}", l);
                match Struct::try_from(l) { Ok(s) => { if p[2] == 0 { return Err("empty struct".into()); } if format!("{:?}", s.as_ref() as &[Value]) != d { return Err("struct changed its fields".into()); } let v: Vec<Value> = s.into(); if format!("{:?}", v) != d { return Err("struct changed its fields".into()); } } Err(_) => if p[2] != 0 { return Err("struct refused".into()); } }
                Ok(true)
            }
            "N" => {
                let v = (0..p[1]).fold(V::Y(1), |v, i| match p[0] { 0 => V::A(sig_of(&v), vec![v]), 1 => V::R(vec![v]), 2 => V::E(Box::new((V::Y(1), v))), 4 => V::E(Box::new((v, V::Y(1)))), 5 => V::R(vec![V::E(Box::new((v, V::Y(1))))]), 6 => V::R(vec![V::E(Box::new((V::Y(1), v)))]), _ => if i % 2 == 0 { V::R(vec![v]) } else { V::A(sig_of(&v), vec![v]) } });
                if p[0] >= 4 && p[1] <= 32 { let l = to_lib(&v)?; return match l.get_type() { Ok(t) if ty_str(&t) == sig_of(&v) => Ok(true), x => Err(format!("type of a value nested {} deep: {:?}", p[1], short(&format!("{:?}", x)))) }; }
                if (p[0] >= 4 || p[0] == 1 || p[0] == 2) && p[1] > 32 {
                    let l = to_lib(&v)?;
                    if l.get_type().is_ok() { return Err(format!("a type for a value nested {} deep", p[1])); }
                    let t = ty_of(sig_of(&v).as_bytes());
                    return if Array::new(vec![l], t).is_ok() { Err("array accepts an element that has no valid type".into()) } else { Ok(true) };
                }
                types_agree(&v).map(|_| true)
            }
            "R" => {
                // wrong element somewhere
                let s = sig(&mut r, &c, c.depth);
                let n = 1 + r.below(5);
                let mut l: Vec<V> = (0..n).map(|_| val(&mut r, s.as_bytes(), &c, 0)).collect();
                let t = sig(&mut r, &c, c.depth);
                let i = r.below(n);
                l[i] = val(&mut r, t.as_bytes(), &c, 0);
                let want = t == s;
                let mut w = vec![];
                for x in &l { w.push(to_lib(x)?); }
                match Array::new(w, ty_of(s.as_bytes())) { Ok(x) => { if !want { return Err(format!("array of {} accepts a {} at {}", s, t, i)); } well_typed(&Value::Array(x))?; } Err(_) => if want { return Err(format!("array of {} refused", s)); } }
                Ok(true)
            }
            "W" => {
                let (mut q, m) = emsg(p[0]);
                let m = with_sig(&mut q, &m);
                let mut b = enc_msg(&m);
                if r.chance(1, 2) { mutate(&mut r, &mut b); }
                if let Ok((g, _, _)) = Message::decode_with_fds(Bytes::from(b), &fdlist(7)) {
                    let mut s = String::new();
                    for v in g.get_body() { s += &well_typed(v)?; }
                    let t: String = g.get_signature().map_err(|e| format!("decoded body has no signature: {}", e))?.iter().map(ty_str).collect();
                    if s != t { return Err(format!("signature {} reported for a body of {}", t, s)); }
                    return Ok(!s.is_empty());
                }
                Ok(false)
            }
            _ => { let s = sig(&mut r, &c, c.depth); types_agree(&val(&mut r, s.as_bytes(), &c, 0)).map(|_| true) }
        }
    }
    fn rule(&self) -> &'static str { "arrays of every listed type with elements of every other; random values, nesting around 32 levels, decoded bodies: element types, reported types, printed signatures" }
}

// ---------------------------------------------------------------- C13
pub struct C13;
/// L:kind:a:b  messages at and beyond the limits
fn limits(f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) {
    for k in 0..8 { for n in 0..8 { for le in 0..2 { if !f(&|| format!("L:v:{}:{}:{}", k, n, le)) { return; } } } }
    for k in 0..11 { for n in 29..36 { for place in 0..4 { if !f(&|| format!("L:s:{}:{}:{}", k, n, place)) { return; } } } }
    for k in 0..2 { for n in 245..260 { for place in 0..4 { if !f(&|| format!("L:w:{}:{}:{}", k, n, place)) { return; } } } }
    for n in [(64u64 << 20) - 4, 64 << 20, (64 << 20) + 1, (64 << 20) + 8, (64 << 20) + 4096].iter() { for k in 0..7 { if !f(&|| format!("L:a:{}:{}:0", k, n)) { return; } } }
    for n in [(128u64 << 20) - 1, 128 << 20, (128 << 20) + 1, (128 << 20) + 8].iter() { for k in 0..3 { if !f(&|| format!("L:m:{}:{}:0", k, n)) { return; } } }
    for w in [0u64, 1, 67108863, 67108864, 67108865, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff].iter() { for k in 0..6 { for le in 0..2 { if !f(&|| format!("L:n:{}:{}:{}", k, w, le)) { return; } } } }
}
fn lim_bytes(case: &str) -> (Vec<u8>, Option<String>) {
    let p: Vec<&str> = case.split(':').collect();
    let n = |i: usize| p[i].parse::<u64>().unwrap() as usize;
    let mut m = Raw { le: true, typ: 2, flags: 0, version: 1, serial: 3, fields: vec![(5, V::U(1))], body: vec![] };
    let nest = |k: usize, n: usize, v: V| (0..n).fold(v, |v, i| match k { 0 => V::A(sig_of(&v), vec![v]), 1 => V::R(vec![v]), 2 => V::E(Box::new((V::Y(1), v))), 3 => V::A(sig_of(&v), vec![]),
        4 => if i % 2 == 0 { V::R(vec![v]) } else { V::A(sig_of(&v), vec![v]) }, 5 => match i % 3 { 0 => V::R(vec![v]), 1 => V::A(sig_of(&v), vec![v]), _ => V::E(Box::new((V::Y(1), v))) }, 6 => if i == 0 { V::R(vec![v]) } else { V::A(sig_of(&v), vec![v]) }, 7 => V::R(vec![V::Y(2), v]), 8 => V::R(vec![v, V::Y(2)]), 9 => V::R(vec![V::R(vec![V::Y(2)]), v]), _ => V::E(Box::new((v, V::Y(2)))) });
    match p[1] {
        "v" => {
            let k = n(2);
            let mut v = V::U(9);
            for i in 0..n(3) {
                v = V::V(Box::new(v));
                if i + 1 < n(3) || k >= 4 { v = match k % 4 { 0 => v, 1 => V::A("v".into(), vec![V::V(Box::new(V::Y(1))), v]), 2 => V::R(vec![v]), _ => V::E(Box::new((V::Y(1), v))) }; }
            }
            m.le = n(4) == 1;
            m.body = if k >= 4 { vec![v.clone(), v] } else { vec![v] };
            resig(&mut m);
        }
        "s" | "w" => {
            let v = if p[1] == "s" { nest(n(2), n(3), V::Y(1)) } else if n(2) == 0 { V::R(vec![V::Y(1); n(3) - 2]) } else { V::R(vec![V::A("t".into(), vec![]); (n(3) - 2) / 2]) };
            match n(4) {
                0 => { m.body = vec![v]; }
                1 => { m.body = vec![V::V(Box::new(v))]; }
                2 => { m.body = vec![V::G(sig_of(&v))]; }
                _ => { m.body = vec![V::Y(1), V::A("v".into(), vec![V::V(Box::new(v))])]; }
            }
            resig(&mut m);
            // lengths above 255 cannot be announced: the length byte wraps, the reference reads it the same way
        }
        "a" => {
            let a = V::A("s".into(), vec![V::S("x".repeat(n(3) - 5))]);
            m.body = match n(2) { 0 => vec![a], 1 => vec![V::V(Box::new(a))], 2 => vec![V::R(vec![V::Y(1), a])], 3 => vec![V::A("(s)".into(), vec![V::R(vec![V::S("x".repeat(n(3) - 5))])])], 4 => vec![V::A("s".into(), vec![V::S("y".repeat(100)), V::S("z".repeat(n(3) - 113))])],
                5 => vec![V::A("{ys}".into(), vec![V::E(Box::new((V::Y(0), V::S("x".repeat(n(3) - 9)))))])],
                _ => { // the header field array itself: reply serial takes 8 bytes, the path field 8 + its length + 1
                    let l = n(3) - 17; m.fields.push((1, V::O(format!("/{}", "a".repeat(l - 1))))); vec![] } };
            if !m.body.is_empty() { resig(&mut m); }
        }
        "m" => {
            m.le = n(2) != 1;
            m.body = vec![V::S(String::new())];
            resig(&mut m);
            let base = enc_msg(&m).len();
            m.body = vec![V::S("x".repeat(n(3) - base))];
            let mut b = enc_msg(&m);
            if n(2) == 2 { b.extend(vec![0u8; 64]); }
            return (b, None);
        }
        _ => {
            // announced lengths without the bytes
            m.le = n(4) == 1;
            m.body = match n(2) { 0 | 5 => vec![V::A("y".into(), vec![V::Y(1); 8])], 1 => vec![V::S("abc".into())], 2 => vec![V::A("t".into(), vec![V::T(1)])], 3 => vec![V::A("as".into(), vec![])], _ => vec![V::O("/a".into())] };
            resig(&mut m);
            let mut b = enc_msg(&m);
            let w = n(3) as u32;
            let w = if m.le { w.to_le_bytes() } else { w.to_be_bytes() };
            let at = match n(2) { 4 => 12, 5 => 4, _ => { let fl = &b[12..16]; let l = if m.le { u32::from_le_bytes([fl[0], fl[1], fl[2], fl[3]]) } else { u32::from_be_bytes([fl[0], fl[1], fl[2], fl[3]]) } as usize; (16 + l + 7) & !7 } };
            b[at..at + 4].copy_from_slice(&w);
            return (b, None);
        }
    }
    (enc_msg(&m), None)
}
fn lim_exec(case: &str, full: bool) -> Result<bool, String> {
    let big = case.starts_with("L:a") || case.starts_with("L:m");
    let _g = if big { Some(BIG.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
    let (b, _) = lim_bytes(case);
    let want = dec_msg(&b, 0).is_ok();
    let got = Message::decode(Bytes::from(b.clone()));
    let fds = Message::decode_with_fds(Bytes::from(b.clone()), &[]);
    if !full { return Ok(true); }
    if fds.is_ok() != got.is_ok() { return Err(format!("decode gives {} but decode_with_fds gives {}", if got.is_ok() { "a message" } else { "an error" }, if fds.is_ok() { "a message" } else { "an error" })); }
    match got {
        Ok((_, n)) => {
            if !want { return Err("accepted although a limit is exceeded".into()); }
            if n > MSG_MAX { return Err(format!("a message of {} bytes was accepted", n)); }
        }
        Err(e) => {
            if want { return Err(format!("rejected although within the limits: {:?}", short(&e))); }
            if case.starts_with("L:v") && !matches!(e, DecodeError::VariantDepth(_)) { return Err(format!("variant depth reported as {:?}", short(&e))); }
            if case.starts_with("L:a") && !matches!(e, DecodeError::ArrayTooBig(_)) { return Err(format!("array size reported as {:?}", short(&e))); }
            if case.starts_with("L:m") && !matches!(e, DecodeError::NotEnoughBytes(..)) { return Err(format!("message size reported as {:?}", short(&e))); }
        }
    }
    if !big { judge(&b, 3)?; }
    Ok(true)
}
impl Prop for C13 {
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool) { limits(f); }
    fn random(&self, r: &mut Rng) -> String { format!("R:{}", r.u64()) }
    fn exec(&self, case: &str) -> Result<bool, String> {
        if case.starts_with("L:") { return lim_exec(case, true); }
        // random nesting near the limits
        let mut r = Rng::new(seed_of(case));
        let mut m = Raw { le: r.chance(1, 2), typ: 2, flags: 0, version: 1, serial: 3, fields: vec![(5, V::U(1))], body: vec![] };
        let mut v = V::Y(7);
        let mut vd = 0;
        let n = r.below(70);
        let style = r.below(5);
        for _ in 0..n {
            v = match if style < 4 && r.chance(3, 4) { style } else { r.below(4) } { 0 => V::A(sig_of(&v), vec![v]), 1 => V::R(vec![v]), 2 => V::E(Box::new((V::Y(1), v))), _ => { if vd > 5 { V::R(vec![v]) } else { vd += 1; V::V(Box::new(v)) } } };
        }
        m.body = vec![v];
        resig(&mut m);
        judge(&enc_msg(&m), 0)
    }
    fn rule(&self) -> &'static str { "variants nested 0..8 in every container; signatures nested 29..35 or 245..259 long in body, variant and value; arrays around 64 MiB in 7 places; messages around 128 MiB; announced lengths; random nesting; non-trivial: all" }
}
pub fn names_valid(k: &str, s: &str) -> bool { grammar(k, s.as_bytes()) }
/// where the body of a little-endian message starts
fn body_at(b: &[u8]) -> usize { (16 + u32::from_le_bytes([b[12], b[13], b[14], b[15]]) as usize + 7) & !7 }
