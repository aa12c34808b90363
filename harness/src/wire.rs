//! An independent D-Bus marshaller and reader over its own model, written from the specification.
use crate::names::grammar;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

pub const ARR_MAX: u64 = 64 << 20;
pub const MSG_MAX: usize = 128 << 20;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Y(u8), B(bool), N(i16), Q(u16), I(i32), U(u32), X(i64), T(u64),
    /// bits of a double
    D(u64),
    S(String), O(String),
    /// a signature
    G(String),
    /// element signature, elements
    A(String, Vec<V>),
    R(Vec<V>),
    E(Box<(V, V)>),
    V(Box<V>),
    H(i32),
}

// ---------------------------------------------------------------- signatures
/// end of the complete type at i, with at most 32 levels of each container
pub fn one(s: &[u8], i: usize, a: u32, r: u32, e: u32) -> Option<usize> {
    if a > 32 || r > 32 || e > 32 { return None; }
    match *s.get(i)? {
        b'a' => one(s, i + 1, a + 1, r, e),
        b'(' => {
            let mut j = one(s, i + 1, a, r + 1, e)?;
            while *s.get(j)? != b')' { j = one(s, j, a, r + 1, e)?; }
            Some(j + 1)
        }
        b'{' => {
            let j = one(s, i + 1, a, r, e + 1)?;
            let k = one(s, j, a, r, e + 1)?;
            if *s.get(k)? == b'}' { Some(k + 1) } else { None }
        }
        c => if b"ybnqiuxtdsogvh".contains(&c) { Some(i + 1) } else { None },
    }
}
pub fn split_sig(s: &[u8]) -> Option<Vec<&[u8]>> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let j = one(s, i, 0, 0, 0)?;
        v.push(&s[i..j]);
        i = j;
    }
    Some(v)
}
pub fn sig_ok(s: &[u8]) -> bool { s.len() <= 255 && split_sig(s).is_some() }
/// members of a container signature: what stands between the brackets
fn inner(s: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut i = 1;
    while i < s.len() - 1 {
        // nesting was checked where the whole was read
        let j = span(s, i);
        v.push(&s[i..j]);
        i = j;
    }
    v
}
fn span(s: &[u8], mut i: usize) -> usize {
    while s[i] == b'a' { i += 1; }
    let mut d = 0i32;
    loop {
        match s[i] { b'(' | b'{' => d += 1, b')' | b'}' => d -= 1, _ => {} }
        i += 1;
        if d == 0 { return i; }
    }
}
pub fn al(c: u8) -> usize {
    match c { b'y' | b'g' | b'v' => 1, b'n' | b'q' => 2, b'b' | b'i' | b'u' | b'h' | b's' | b'o' | b'a' => 4, _ => 8 }
}
pub fn sig_of(v: &V) -> String {
    match v {
        V::Y(_) => "y".into(), V::B(_) => "b".into(), V::N(_) => "n".into(), V::Q(_) => "q".into(), V::I(_) => "i".into(), V::U(_) => "u".into(),
        V::X(_) => "x".into(), V::T(_) => "t".into(), V::D(_) => "d".into(), V::S(_) => "s".into(), V::O(_) => "o".into(), V::G(_) => "g".into(),
        V::A(t, _) => format!("a{}", t),
        V::R(l) => format!("({})", l.iter().map(sig_of).collect::<String>()),
        V::E(b) => format!("{{{}{}}}", sig_of(&b.0), sig_of(&b.1)),
        V::V(_) => "v".into(), V::H(_) => "h".into(),
    }
}
pub fn body_sig(b: &[V]) -> String { b.iter().map(sig_of).collect() }
pub fn vdepth(v: &V) -> u32 {
    match v {
        V::A(_, l) | V::R(l) => l.iter().map(vdepth).max().unwrap_or(0),
        V::E(b) => vdepth(&b.0).max(vdepth(&b.1)),
        V::V(x) => 1 + vdepth(x),
        _ => 0,
    }
}
/// descriptors in order
pub fn fds_in(v: &V, out: &mut Vec<i32>) {
    match v {
        V::H(f) => out.push(*f),
        V::A(_, l) | V::R(l) => l.iter().for_each(|x| fds_in(x, out)),
        V::E(b) => { fds_in(&b.0, out); fds_in(&b.1, out); }
        V::V(x) => fds_in(x, out),
        _ => {}
    }
}
pub fn map_fds(v: &V, f: &dyn Fn(i32) -> i32) -> V {
    match v {
        V::H(x) => V::H(f(*x)),
        V::A(t, l) => V::A(t.clone(), l.iter().map(|x| map_fds(x, f)).collect()),
        V::R(l) => V::R(l.iter().map(|x| map_fds(x, f)).collect()),
        V::E(b) => V::E(Box::new((map_fds(&b.0, f), map_fds(&b.1, f)))),
        V::V(x) => V::V(Box::new(map_fds(x, f))),
        x => x.clone(),
    }
}

// ---------------------------------------------------------------- marshalling (descriptors are written as given: indices)
fn pad(o: &mut Vec<u8>, a: usize) { while o.len() % a != 0 { o.push(0); } }
fn put(o: &mut Vec<u8>, le: bool, n: usize, x: u64) {
    for i in 0..n {
        let sh = if le { i } else { n - 1 - i };
        o.push((x >> (8 * sh)) as u8);
    }
}
fn text(o: &mut Vec<u8>, s: &str) { o.extend_from_slice(s.as_bytes()); o.push(0); }
pub fn enc(o: &mut Vec<u8>, le: bool, v: &V) {
    let s = match v { V::A(..) => b'a', V::R(_) => b'(', V::E(_) => b'{', V::V(_) => b'v', x => sig_of(x).as_bytes()[0] };
    pad(o, al(s));
    match v {
        V::Y(x) => o.push(*x),
        V::B(x) => put(o, le, 4, *x as u64),
        V::N(x) => put(o, le, 2, *x as u16 as u64),
        V::Q(x) => put(o, le, 2, *x as u64),
        V::I(x) | V::H(x) => put(o, le, 4, *x as u32 as u64),
        V::U(x) => put(o, le, 4, *x as u64),
        V::X(x) => put(o, le, 8, *x as u64),
        V::T(x) | V::D(x) => put(o, le, 8, *x),
        V::S(x) | V::O(x) => { put(o, le, 4, x.len() as u64); text(o, x); }
        V::G(x) => { o.push(x.len() as u8); text(o, x); }
        V::A(t, l) => {
            let at = o.len();
            put(o, le, 4, 0);
            pad(o, al(t.as_bytes()[0]));
            let start = o.len();
            for x in l { enc(o, le, x); }
            let n = (o.len() - start) as u64;
            let mut b = vec![];
            put(&mut b, le, 4, n);
            o[at..at + 4].copy_from_slice(&b);
        }
        V::R(l) => l.iter().for_each(|x| enc(o, le, x)),
        V::E(b) => { enc(o, le, &b.0); enc(o, le, &b.1); }
        V::V(x) => { let t = sig_of(x); o.push(t.len() as u8); text(o, &t); enc(o, le, x); }
    }
}
/// a message before its fields are interpreted
#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub le: bool, pub typ: u8, pub flags: u8, pub version: u8, pub serial: u32,
    pub fields: Vec<(u8, V)>,
    pub body: Vec<V>,
}
pub fn enc_msg(m: &Raw) -> Vec<u8> {
    let mut b = vec![];
    for v in &m.body { enc(&mut b, m.le, v); }
    let mut o = vec![if m.le { b'l' } else { b'B' }, m.typ, m.flags, m.version];
    put(&mut o, m.le, 4, b.len() as u64);
    put(&mut o, m.le, 4, m.serial as u64);
    let f = m.fields.iter().map(|(c, v)| V::R(vec![V::Y(*c), V::V(Box::new(v.clone()))])).collect();
    enc(&mut o, m.le, &V::A("(yv)".into(), f));
    pad(&mut o, 8);
    o.extend(b);
    o
}

// ---------------------------------------------------------------- reading
pub struct Rd<'a> { pub b: &'a [u8], pub at: usize, pub le: bool, pub nfds: usize, pub used: usize,
    /// why it stopped: true when bytes were missing
    pub short: bool }
type R<T> = Option<T>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8], nfds: usize) -> Self { Rd { b: &b[..b.len().min(MSG_MAX)], at: 0, le: true, nfds, used: 0, short: false } }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.at { self.short = true; return None; }
        let r = &self.b[self.at..self.at + n];
        self.at += n;
        Some(r)
    }
    pub fn align(&mut self, a: usize) -> R<()> {
        let n = (a - self.at % a) % a;
        if self.take(n)?.iter().all(|x| *x == 0) { Some(()) } else { None }
    }
    pub fn num(&mut self, n: usize) -> R<u64> {
        self.align(n)?;
        let le = self.le;
        let s = self.take(n)?;
        let mut x = 0u64;
        for i in 0..n { x = x << 8 | s[if le { n - 1 - i } else { i }] as u64; }
        Some(x)
    }
    fn zstr(&mut self, n: usize) -> R<&'a [u8]> {
        let s = self.take(n)?;
        if self.take(1)?[0] == 0 { Some(s) } else { None }
    }
    fn sig(&mut self) -> R<&'a [u8]> {
        let n = self.take(1)?[0] as usize;
        let s = self.zstr(n)?;
        if sig_ok(s) { Some(s) } else { None }
    }
    pub fn array(&mut self, t: &[u8], depth: u32) -> R<Vec<V>> {
        let n = self.num(4)?;
        if n > ARR_MAX { return None; }
        self.align(al(t[0]))?;
        let end = self.at + n as usize;
        let mut l = vec![];
        while self.at < end { l.push(self.val(t, depth)?); }
        if self.at == end { Some(l) } else { None }
    }
    /// one value of type t inside `depth` variants
    pub fn val(&mut self, t: &[u8], depth: u32) -> R<V> {
        Some(match t[0] {
            b'y' => V::Y(self.take(1)?[0]),
            b'b' => match self.num(4)? { 0 => V::B(false), 1 => V::B(true), _ => return None },
            b'n' => V::N(self.num(2)? as i16),
            b'q' => V::Q(self.num(2)? as u16),
            b'i' => V::I(self.num(4)? as i32),
            b'u' => V::U(self.num(4)? as u32),
            b'x' => V::X(self.num(8)? as i64),
            b't' => V::T(self.num(8)?),
            b'd' => V::D(self.num(8)?),
            b'h' => { let i = self.num(4)? as usize; if i >= self.nfds { return None; } self.used = self.used.max(i + 1); V::H(i as i32) }
            b's' => { let n = self.num(4)? as usize; let s = self.zstr(n)?; V::S(String::from_utf8(s.to_vec()).ok()?) }
            b'o' => { let n = self.num(4)? as usize; let s = self.zstr(n)?; if !grammar("path", s) { return None; } V::O(String::from_utf8(s.to_vec()).ok()?) }
            b'g' => V::G(String::from_utf8(self.sig()?.to_vec()).ok()?),
            b'v' => {
                if depth + 1 > 4 { return None; }
                let s = self.sig()?;
                if split_sig(s)?.len() != 1 { return None; }
                V::V(Box::new(self.val(s, depth + 1)?))
            }
            b'a' => { let l = self.array(&t[1..], depth)?; V::A(String::from_utf8(t[1..].to_vec()).ok()?, l) }
            b'(' => { self.align(8)?; let mut l = vec![]; for x in inner(t) { l.push(self.val(x, depth)?); } V::R(l) }
            _ => { self.align(8)?; let i = inner(t); let k = self.val(i[0], depth)?; let v = self.val(i[1], depth)?; V::E(Box::new((k, v))) }
        })
    }
}
pub struct Got { pub raw: Raw, pub len: usize, pub used: usize }
pub const FIELD_SIG: [&str; 10] = ["", "o", "s", "s", "s", "u", "s", "s", "g", "u"];
pub const FIELD_KIND: [&str; 10] = ["", "path", "interface", "member", "error", "", "bus", "bus", "", ""];
/// are these header fields right for a message of this type?
pub fn fields_ok(f: &[(u8, V)]) -> bool {
    for (i, (c, v)) in f.iter().enumerate() {
        if *c == 0 || *c > 9 || f[..i].iter().any(|x| x.0 == *c) || sig_of(v) != FIELD_SIG[*c as usize] { return false; }
        if let V::S(s) = v { if !grammar(FIELD_KIND[*c as usize], s.as_bytes()) { return false; } }
    }
    true
}
pub fn has(f: &[(u8, V)], c: u8) -> bool { f.iter().any(|x| x.0 == c) }
pub fn required_ok(typ: u8, f: &[(u8, V)]) -> bool {
    match typ { 1 => has(f, 1) && has(f, 3), 2 => has(f, 5), 3 => has(f, 4) && has(f, 5), 4 => has(f, 1) && has(f, 2) && has(f, 3), _ => false }
}
/// read a message; Err(true): bytes are missing
pub fn dec_msg(b: &[u8], nfds: usize) -> Result<Got, bool> {
    let mut r = Rd::new(b, nfds);
    match go(&mut r) { Some(raw) => Ok(Got { raw, len: r.at, used: r.used }), None => Err(r.short) }
}
fn go(r: &mut Rd) -> R<Raw> {
    r.le = match r.take(1)?[0] { b'l' => true, b'B' => false, _ => return None };
    let typ = r.take(1)?[0];
    if typ == 0 || typ > 4 { return None; }
    let flags = r.take(1)?[0];
    if flags & !7 != 0 { return None; }
    let version = r.take(1)?[0];
    let blen = r.num(4)? as usize;
    let serial = r.num(4)? as u32;
    let fs = r.array(b"(yv)", 0)?;
    let mut fields = vec![];
    for f in fs {
        if let V::R(mut l) = f {
            if let (V::V(v), V::Y(c)) = (l.pop()?, l.pop()?) { fields.push((c, *v)); }
        }
    }
    if !fields_ok(&fields) || !required_ok(typ, &fields) { return None; }
    let sig = fields.iter().find(|x| x.0 == 8).map(|x| if let V::G(s) = &x.1 { s.clone() } else { unreachable!() });
    if blen == 0 && sig.as_ref().map_or(false, |s| !s.is_empty()) { return None; }
    if blen != 0 && sig.is_none() { return None; }
    r.align(8)?;
    let mut body = vec![];
    if blen != 0 {
        let sig = sig.unwrap();
        let end = r.at + blen;
        for t in split_sig(sig.as_bytes())? { body.push(r.val(t, 0)?); }
        if r.at != end { return None; }
    }
    Some(Raw { le: r.le, typ, flags, version, serial, fields, body })
}

// ---------------------------------------------------------------- to and from the library
pub fn ty_str(t: &Type) -> String {
    match t {
        Type::Byte => "y".into(), Type::Boolean => "b".into(), Type::Int16 => "n".into(), Type::Uint16 => "q".into(), Type::Int32 => "i".into(), Type::Uint32 => "u".into(),
        Type::Int64 => "x".into(), Type::Uint64 => "t".into(), Type::UnixFD => "h".into(), Type::Double => "d".into(), Type::String => "s".into(), Type::ObjectPath => "o".into(),
        Type::Variant => "v".into(), Type::Signature => "g".into(),
        Type::Array(e) => format!("a{}", ty_str(e)),
        Type::Struct(l) => format!("({})", l.iter().map(ty_str).collect::<String>()),
        Type::DictEntry(b) => format!("{{{}{}}}", ty_str(&b.0), ty_str(&b.1)),
    }
}
/// build a type from text (brackets must match; limits are not checked)
pub fn ty_of(s: &[u8]) -> Type {
    match s[0] {
        b'y' => Type::Byte, b'b' => Type::Boolean, b'n' => Type::Int16, b'q' => Type::Uint16, b'i' => Type::Int32, b'u' => Type::Uint32, b'x' => Type::Int64, b't' => Type::Uint64,
        b'h' => Type::UnixFD, b'd' => Type::Double, b's' => Type::String, b'o' => Type::ObjectPath, b'v' => Type::Variant, b'g' => Type::Signature,
        b'a' => Type::Array(Box::new(ty_of(&s[1..]))),
        b'(' => Type::Struct(inner(s).into_iter().map(ty_of).collect()),
        _ => { let i = inner(s); Type::DictEntry(Box::new((ty_of(i[0]), ty_of(i[1])))) }
    }
}
pub fn tys_of(s: &str) -> Vec<Type> {
    let s = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() { let j = span(s, i); v.push(ty_of(&s[i..j])); i = j; }
    v
}
pub fn from_lib(v: &Value) -> V {
    match v {
        Value::Byte(x) => V::Y(*x), Value::Boolean(x) => V::B(*x), Value::Int16(x) => V::N(*x), Value::Uint16(x) => V::Q(*x), Value::Int32(x) => V::I(*x), Value::Uint32(x) => V::U(*x),
        Value::Int64(x) => V::X(*x), Value::Uint64(x) => V::T(*x), Value::Double(x) => V::D(x.to_bits()), Value::String(s) => V::S(s.clone()),
        Value::ObjectPath(o) => V::O(o.as_ref().to_string()),
        Value::Signature(l) => V::G(l.iter().map(ty_str).collect()),
        Value::Array(a) => { let l: &[Value] = a.as_ref(); V::A(ty_str(a.get_type()), l.iter().map(from_lib).collect()) }
        Value::Struct(a) => { let l: &[Value] = a.as_ref(); V::R(l.iter().map(from_lib).collect()) }
        Value::DictEntry(b) => V::E(Box::new((from_lib(&b.0), from_lib(&b.1)))),
        Value::Variant(x) => V::V(Box::new(from_lib(x))),
        Value::UnixFD(x) => V::H(*x),
    }
}
pub fn to_lib(v: &V) -> Result<Value, String> {
    Ok(match v {
        V::Y(x) => Value::Byte(*x), V::B(x) => Value::Boolean(*x), V::N(x) => Value::Int16(*x), V::Q(x) => Value::Uint16(*x), V::I(x) => Value::Int32(*x), V::U(x) => Value::Uint32(*x),
        V::X(x) => Value::Int64(*x), V::T(x) => Value::Uint64(*x), V::D(x) => Value::Double(f64::from_bits(*x)), V::S(s) => Value::String(s.clone()),
        V::O(s) => Value::ObjectPath(ObjectPath::try_from(s.as_str()).map_err(|e| format!("path {:?} refused: {}", s, e))?),
        V::G(s) => Value::Signature(tys_of(s)),
        V::A(t, l) => { let mut w = vec![]; for x in l { w.push(to_lib(x)?); } Value::Array(Array::new(w, ty_of(t.as_bytes())).map_err(|e| format!("array of {} refused: {}", t, e))?) }
        V::R(l) => { let mut w = vec![]; for x in l { w.push(to_lib(x)?); } Value::Struct(Struct::try_from(w).map_err(|e| e.to_string())?) }
        V::E(b) => Value::DictEntry(Box::new((to_lib(&b.0)?, to_lib(&b.1)?))),
        V::V(x) => Value::Variant(Box::new(to_lib(x)?)),
        V::H(x) => Value::UnixFD(*x),
    })
}
pub fn mtype(t: u8) -> MessageType { match t { 1 => MessageType::MethodCall, 2 => MessageType::MethodReturn, 3 => MessageType::Error, _ => MessageType::Signal } }
/// library header fields
pub fn lib_fields(f: &[(u8, V)]) -> Result<MessageHeaderFields, String> {
    let mut r = MessageHeaderFields::default();
    for (c, v) in f {
        match (c, v) {
            (1, V::O(s)) => r.path = Some(ObjectPath::try_from(s.as_str()).map_err(|e| e.to_string())?),
            (2, V::S(s)) => r.interface = Some(Interface::try_from(s.as_str()).map_err(|e| e.to_string())?),
            (3, V::S(s)) => r.member = Some(Member::try_from(s.as_str()).map_err(|e| e.to_string())?),
            (4, V::S(s)) => r.error_name = Some(Error::try_from(s.as_str()).map_err(|e| e.to_string())?),
            (5, V::U(n)) => r.reply_serial = Some(*n),
            (6, V::S(s)) => r.destination = Some(Bus::try_from(s.as_str()).map_err(|e| e.to_string())?),
            (7, V::S(s)) => r.sender = Some(Bus::try_from(s.as_str()).map_err(|e| e.to_string())?),
            (8, V::G(s)) => r.signature = Some(tys_of(s)),
            (9, V::U(n)) => r.unix_fds = Some(*n),
            _ => return Err("field".into()),
        }
    }
    Ok(r)
}
pub fn lib_header(m: &Raw) -> Result<MessageHeader, String> {
    MessageHeader::new(m.le, mtype(m.typ), MessageFlags::from_bits(m.flags).unwrap(), m.version, m.serial, lib_fields(&m.fields)?).map_err(|e| e.to_string())
}
pub fn lib_msg(m: &Raw) -> Result<Message, String> {
    let h = lib_header(m)?;
    let mut b = vec![];
    for v in &m.body { b.push(to_lib(v)?); }
    Ok(Message::new(h, b))
}
/// the library's message, fields in code order, the body signature left out
pub fn fields_of(h: &MessageHeader) -> Vec<(u8, V)> {
    let mut f = vec![];
    if let Some(x) = h.get_path() { f.push((1, V::O(x.as_ref().into()))); }
    if let Some(x) = h.get_interface() { f.push((2, V::S(x.as_ref().into()))); }
    if let Some(x) = h.get_member() { f.push((3, V::S(x.as_ref().into()))); }
    if let Some(x) = h.get_error_name() { f.push((4, V::S(x.as_ref().into()))); }
    if let Some(x) = h.get_reply_serial() { f.push((5, V::U(x))); }
    if let Some(x) = h.get_destination() { f.push((6, V::S(x.as_ref().into()))); }
    if let Some(x) = h.get_sender() { f.push((7, V::S(x.as_ref().into()))); }
    if let Some(x) = h.get_signature() { f.push((8, V::G(x.iter().map(ty_str).collect()))); }
    if let Some(x) = h.get_unix_fds() { f.push((9, V::U(x))); }
    f
}
pub fn sorted(f: &[(u8, V)], drop_sig: bool) -> Vec<(u8, V)> {
    let mut f: Vec<_> = f.iter().filter(|x| !(drop_sig && x.0 == 8)).cloned().collect();
    f.sort_by_key(|x| x.0);
    f
}
/// compare a message of the library with a raw one (fields without the body signature); None: equal
pub fn differs(got: &Message, want: &Raw) -> Option<String> {
    let body: Vec<V> = got.get_body().iter().map(from_lib).collect();
    if body != want.body { return Some(format!("body is {:?} but should be {:?}", short(&body), short(&want.body))); }
    let want_f = sorted(&want.fields, true);
    // header: compared as a whole (flags and version have no accessor)
    let mut w = want.clone();
    w.fields = want_f.clone();
    let wh = match lib_header(&w) { Ok(h) => h, Err(e) => return Some(format!("reference header refused: {}", e)) };
    let mine = Message::new(wh.clone(), got.get_body().to_vec());
    let g = got.clone();
    let nan = format!("{:?}", want.body).len() > 0 && has_nan(&want.body);
    if !nan && g != mine { return Some(format!("message is {:?} but should be {:?}", cut(&g), cut(&mine))); }
    if nan {
        let (a, b) = (Message::new_header_only(&g), Message::new_header_only(&mine));
        if a != b { return Some(format!("message is {} but should be {}", a, b)); }
    }
    if got.get_serial() != want.serial || got.get_type() != mtype(want.typ) { return Some("serial or type differ".into()); }
    None
}
trait HeaderOnly { fn new_header_only(m: &Message) -> String; }
impl HeaderOnly for Message {
    fn new_header_only(m: &Message) -> String { let s = format!("{:?}", m); s.split("body:").next().unwrap_or("").to_string() }
}
pub fn has_nan(b: &[V]) -> bool {
    b.iter().any(|v| match v { V::D(x) => f64::from_bits(*x).is_nan(), V::A(_, l) | V::R(l) => has_nan(l), V::E(b) => has_nan(&[b.0.clone(), b.1.clone()]), V::V(x) => has_nan(&[(**x).clone()]), _ => false })
}
fn cut(m: &Message) -> String { format!("{:?}", m).chars().take(600).collect() }
pub fn short<T: std::fmt::Debug>(m: &T) -> String { format!("{:?}", m).chars().take(300).collect() }
