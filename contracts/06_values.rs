// D-Bus values, and the reader that the decoder has to implement.
pub mod vl {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
verus! {
pub enum Val { Byte(u8), Boolean(bool), Int16(i16), Uint16(u16), Int32(i32), Uint32(u32), Int64(i64), Uint64(u64), Double(u64), String(Seq<u8>), ObjectPath(Seq<u8>), Signature(Seq<Ty>),
    Array(Ty, Seq<Val>), Struct(Seq<Val>), Dict(Box<Val>, Box<Val>), Variant(Box<Val>), UnixFD(i32) }

/// the type of a value
pub open spec fn ty_of(v: Val) -> Ty decreases v { match v {
    Val::Byte(_) => Ty::Byte, Val::Boolean(_) => Ty::Boolean, Val::Int16(_) => Ty::Int16, Val::Uint16(_) => Ty::Uint16, Val::Int32(_) => Ty::Int32, Val::Uint32(_) => Ty::Uint32,
    Val::Int64(_) => Ty::Int64, Val::Uint64(_) => Ty::Uint64, Val::Double(_) => Ty::Double, Val::String(_) => Ty::String, Val::ObjectPath(_) => Ty::ObjectPath, Val::Signature(_) => Ty::Signature,
    Val::Array(t, _) => Ty::Array(Box::new(t)),
    Val::Struct(l) => Ty::Struct(tys_of(l)),
    Val::Dict(k, x) => Ty::Dict(Box::new(ty_of(*k)), Box::new(ty_of(*x))),
    Val::Variant(_) => Ty::Variant, Val::UnixFD(_) => Ty::UnixFD } }
pub open spec fn tys_of(l: Seq<Val>) -> Seq<Ty> decreases l { if l.len() == 0 { Seq::empty() } else { seq![ty_of(l[0])] + tys_of(l.drop_first()) } }

// ---------------------------------------------------------------- reading
/// what is read: the bytes, the descriptors, the byte order
pub struct Cx { pub b: Seq<u8>, pub f: Seq<i32> }
/// where the reader stands: the next byte, the highest descriptor index used so far (-1: none)
pub struct St { pub o: int, pub m: int }
/// why reading fails: the bytes end too early, or they are wrong
pub enum E { Short, Bad }
pub open spec fn zeros(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 }
#[verifier::opaque] pub open spec fn pad(o: int, a: int) -> int { if o % a == 0 { 0 } else { a - o % a } }
pub open spec fn take(c: Cx, s: St, n: int) -> Result<(Seq<u8>, St), E> { if s.o + n <= c.b.len() { Ok((c.b.subrange(s.o, s.o + n), St { o: s.o + n, m: s.m })) } else { Err(E::Short) } }
pub open spec fn al(c: Cx, s: St, a: int) -> Result<St, E> { match take(c, s, pad(s.o, a)) { Ok((p, s2)) => if zeros(p) { Ok(s2) } else { Err(E::Bad) }, Err(e) => Err(e) } }
/// an aligned field of n bytes
pub open spec fn num(c: Cx, s: St, n: int) -> Result<(Seq<u8>, St), E> { match al(c, s, n) { Ok(s2) => take(c, s2, n), Err(e) => Err(e) } }
pub open spec fn d_u8(c: Cx, s: St) -> Result<(u8, St), E> { match take(c, s, 1) { Ok((b, s2)) => Ok((b[0], s2)), Err(e) => Err(e) } }
pub open spec fn d_u32(c: Cx, s: St, le: bool) -> Result<(u32, St), E> { match num(c, s, 4) { Ok((b, s2)) => Ok((rd_u32(b, le), s2)), Err(e) => Err(e) } }
/// n bytes and the NUL after them
pub open spec fn d_str(c: Cx, s: St, n: int) -> Result<(Seq<u8>, St), E> { match take(c, s, n) {
    Ok((b, s2)) => match d_u8(c, s2) { Ok((z, s3)) => if z == 0 { Ok((b, s3)) } else { Err(E::Bad) }, Err(e) => Err(e) },
    Err(e) => Err(e) } }
pub open spec fn d_str32(c: Cx, s: St, le: bool) -> Result<(Seq<u8>, St), E> { match d_u32(c, s, le) { Ok((n, s2)) => d_str(c, s2, n as int), Err(e) => Err(e) } }
pub open spec fn d_str8(c: Cx, s: St) -> Result<(Seq<u8>, St), E> { match d_u8(c, s) { Ok((n, s2)) => d_str(c, s2, n as int), Err(e) => Err(e) } }
/// the text of a single complete type
pub open spec fn one_type(b: Seq<u8>) -> Option<Ty> { if b.len() > 255 { None } else { match rd(b, 0, 0, 0, 0) { Some((t, k)) => if k == b.len() { Some(t) } else { None }, None => None } } }
pub open spec fn sig_of(b: Seq<u8>) -> Option<Seq<Ty>> { if b.len() > 255 { None } else { rd_all(b, 0) } }
pub open spec fn d_type(c: Cx, s: St) -> Result<(Ty, St), E> { match d_str8(c, s) { Ok((b, s2)) => match one_type(b) { Some(t) => Ok((t, s2)), None => Err(E::Bad) }, Err(e) => Err(e) } }
pub open spec fn d_sig(c: Cx, s: St) -> Result<(Seq<Ty>, St), E> { match d_str8(c, s) { Ok((b, s2)) => match sig_of(b) { Some(t) => Ok((t, s2)), None => Err(E::Bad) }, Err(e) => Err(e) } }

/// the values without components
pub open spec fn d_basic(c: Cx, s: St, le: bool, t: Ty) -> Result<(Val, St), E> {
    match t {
        Ty::Byte => match d_u8(c, s) { Ok((b, s2)) => Ok((Val::Byte(b), s2)), Err(e) => Err(e) },
        Ty::Boolean => match d_u32(c, s, le) { Ok((b, s2)) => if b == 0 { Ok((Val::Boolean(false), s2)) } else if b == 1 { Ok((Val::Boolean(true), s2)) } else { Err(E::Bad) }, Err(e) => Err(e) },
        Ty::Int16 => match num(c, s, 2) { Ok((b, s2)) => Ok((Val::Int16(rd_i16(b, le)), s2)), Err(e) => Err(e) },
        Ty::Uint16 => match num(c, s, 2) { Ok((b, s2)) => Ok((Val::Uint16(rd_u16(b, le)), s2)), Err(e) => Err(e) },
        Ty::Int32 => match num(c, s, 4) { Ok((b, s2)) => Ok((Val::Int32(rd_i32(b, le)), s2)), Err(e) => Err(e) },
        Ty::Uint32 => match num(c, s, 4) { Ok((b, s2)) => Ok((Val::Uint32(rd_u32(b, le)), s2)), Err(e) => Err(e) },
        Ty::Int64 => match num(c, s, 8) { Ok((b, s2)) => Ok((Val::Int64(rd_i64(b, le)), s2)), Err(e) => Err(e) },
        Ty::Uint64 => match num(c, s, 8) { Ok((b, s2)) => Ok((Val::Uint64(rd_u64(b, le)), s2)), Err(e) => Err(e) },
        Ty::Double => match num(c, s, 8) { Ok((b, s2)) => Ok((Val::Double(rd_u64(b, le)), s2)), Err(e) => Err(e) },
        Ty::UnixFD => match d_u32(c, s, le) { Ok((i, s2)) => if i < c.f.len() { Ok((Val::UnixFD(c.f[i as int]), St { o: s2.o, m: if i > s2.m { i as int } else { s2.m } })) } else { Err(E::Bad) }, Err(e) => Err(e) },
        Ty::String => match d_str32(c, s, le) { Ok((b, s2)) => if vstd::utf8::valid_utf8(b) { Ok((Val::String(b), s2)) } else { Err(E::Bad) }, Err(e) => Err(e) },
        Ty::ObjectPath => match d_str32(c, s, le) { Ok((b, s2)) => if path_ok(b) { Ok((Val::ObjectPath(b), s2)) } else { Err(E::Bad) }, Err(e) => Err(e) },
        Ty::Signature => match d_sig(c, s) { Ok((l, s2)) => Ok((Val::Signature(l), s2)), Err(e) => Err(e) },
        _ => Err(E::Bad),
    }
}
/// a value of type t inside d variants
pub open spec fn d_val(c: Cx, s: St, le: bool, d: int, t: Ty) -> Result<(Val, St), E> decreases 5 - d, t, 0int {
    match t {
        Ty::Array(e) => match d_arr(c, s, le, d, *e) { Ok((l, s2)) => Ok((Val::Array(*e, l), s2)), Err(x) => Err(x) },
        Ty::Struct(l) => match al(c, s, 8) { Ok(s1) => match d_list(c, s1, le, d, l) { Ok((v, s2)) => if v.len() == 0 { Err(E::Bad) } else { Ok((Val::Struct(v), s2)) }, Err(x) => Err(x) }, Err(x) => Err(x) },
        Ty::Dict(k, v) => match al(c, s, 8) { Ok(s1) => match d_val(c, s1, le, d, *k) { Ok((a, s2)) => match d_val(c, s2, le, d, *v) { Ok((b, s3)) => Ok((Val::Dict(Box::new(a), Box::new(b)), s3)), Err(x) => Err(x) }, Err(x) => Err(x) }, Err(x) => Err(x) },
        Ty::Variant => if d >= 4 { Err(E::Bad) } else { match d_type(c, s) { Ok((u, s2)) => match d_val(c, s2, le, d + 1, u) { Ok((v, s3)) => Ok((Val::Variant(Box::new(v)), s3)), Err(x) => Err(x) }, Err(x) => Err(x) } },
        _ => d_basic(c, s, le, t),
    }
}
/// an array: its length in bytes, padding to the element's boundary, the elements
pub open spec fn d_arr(c: Cx, s: St, le: bool, d: int, e: Ty) -> Result<(Seq<Val>, St), E> decreases 5 - d, e, 0x1000_0000int {
    match d_u32(c, s, le) { Ok((n, s1)) => if n > 0x400_0000 { Err(E::Bad) } else { match al(c, s1, align(e) as int) { Ok(s2) => d_items(c, s2, le, d, e, s2.o + n), Err(x) => Err(x) } }, Err(x) => Err(x) }
}
/// elements until exactly `end`
pub open spec fn d_items(c: Cx, s: St, le: bool, d: int, e: Ty, end: int) -> Result<(Seq<Val>, St), E> decreases 5 - d, e, (if end > s.o { end - s.o } else { 0 }) + 1 {
    if s.o >= end { if s.o == end { Ok((Seq::empty(), s)) } else { Err(E::Bad) } }
    else { match d_val(c, s, le, d, e) {
        Ok((v, s2)) => if s2.o <= s.o { Err(E::Bad) } else { match d_items(c, s2, le, d, e, end) { Ok((l, s3)) => Ok((seq![v] + l, s3)), Err(x) => Err(x) } },
        Err(x) => Err(x) } }
}
/// one value of each type
pub open spec fn d_list(c: Cx, s: St, le: bool, d: int, l: Seq<Ty>) -> Result<(Seq<Val>, St), E> decreases 5 - d, l, 0int {
    if l.len() == 0 { Ok((Seq::empty(), s)) }
    else { match d_val(c, s, le, d, l[0]) { Ok((v, s2)) => match d_list(c, s2, le, d, l.drop_first()) { Ok((r, s3)) => Ok((seq![v] + r, s3)), Err(x) => Err(x) }, Err(x) => Err(x) } }
}

// ---------------------------------------------------------------- what holds of every read
pub proof fn small_mod(a: int) requires a > 0 ensures a % a == 0, forall|x: int| 0 <= x < a ==> #[trigger] (x % a) == x
{
    vstd::arithmetic::div_mod::lemma_mod_self_0(a);
    assert forall|x: int| 0 <= x < a implies #[trigger] (x % a) == x by { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, a as nat); }
}
pub proof fn pad_bound(o: int, a: int) requires o >= 0, a > 0 ensures 0 <= pad(o, a) < a, (o + pad(o, a)) % a == 0
{
    reveal(pad);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, a);
    vstd::arithmetic::div_mod::lemma_mod_bound(o, a);
    if o % a != 0 { let q = o / a; assert(o + (a - o % a) == a * (q + 1)) by (nonlinear_arith) requires o == a * q + o % a; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, a); assert(a * (q + 1) == (q + 1) * a) by (nonlinear_arith); }
}
pub open spec fn fwd<T>(c: Cx, s: St, r: Result<(T, St), E>, n: int) -> bool { r is Ok ==> s.o + n <= r->Ok_0.1.o <= c.b.len() && s.m <= r->Ok_0.1.m }
pub proof fn al_len(c: Cx, s: St, a: int) requires 0 <= s.o <= c.b.len(), a > 0
    ensures al(c, s, a) is Ok ==> s.o <= al(c, s, a)->Ok_0.o <= c.b.len() && al(c, s, a)->Ok_0.m == s.m { pad_bound(s.o, a); }
pub proof fn num_len(c: Cx, s: St, n: int) requires 0 <= s.o <= c.b.len(), n > 0 ensures fwd(c, s, num(c, s, n), n), num(c, s, n) is Ok ==> num(c, s, n)->Ok_0.0.len() == n && num(c, s, n)->Ok_0.1.m == s.m { al_len(c, s, n); }
pub proof fn str_len(c: Cx, s: St, le: bool) requires 0 <= s.o <= c.b.len()
    ensures fwd(c, s, d_u32(c, s, le), 4), fwd(c, s, d_str8(c, s), 2), fwd(c, s, d_str32(c, s, le), 5), fwd(c, s, d_type(c, s), 2), fwd(c, s, d_sig(c, s), 2) { num_len(c, s, 4); }
pub proof fn basic_len(c: Cx, s: St, le: bool, t: Ty) requires 0 <= s.o <= c.b.len() ensures fwd(c, s, d_basic(c, s, le, t), 1)
{ hide(num); hide(d_u32); hide(d_str8); hide(d_str32); hide(d_sig); hide(sig_of); hide(path_ok); num_len(c, s, 2); num_len(c, s, 4); num_len(c, s, 8); str_len(c, s, le); }
/// an accepted value takes at least one byte and ends inside the input
pub proof fn val_len(c: Cx, s: St, le: bool, d: int, t: Ty)
    requires 0 <= s.o <= c.b.len(), d <= 4
    ensures d_val(c, s, le, d, t) is Ok ==> s.o < d_val(c, s, le, d, t)->Ok_0.1.o <= c.b.len() && s.m <= d_val(c, s, le, d, t)->Ok_0.1.m
    decreases 5 - d, t, 0int
{
    al_len(c, s, 8); str_len(c, s, le); basic_len(c, s, le, t);
    match t {
        Ty::Array(e) => { arr_len(c, s, le, d, *e); }
        Ty::Struct(l) => { if al(c, s, 8) is Ok { list_len(c, al(c, s, 8)->Ok_0, le, d, l); list_count(c, al(c, s, 8)->Ok_0, le, d, l); } }
        Ty::Dict(k, v) => { if al(c, s, 8) is Ok { let s1 = al(c, s, 8)->Ok_0; val_len(c, s1, le, d, *k); if d_val(c, s1, le, d, *k) is Ok { val_len(c, d_val(c, s1, le, d, *k)->Ok_0.1, le, d, *v); } } }
        Ty::Variant => { if d < 4 && d_type(c, s) is Ok { let (u, s2) = d_type(c, s)->Ok_0; val_len(c, s2, le, d + 1, u); } }
        _ => {}
    }
}
pub proof fn arr_len(c: Cx, s: St, le: bool, d: int, e: Ty)
    requires 0 <= s.o <= c.b.len(), d <= 4
    ensures d_arr(c, s, le, d, e) is Ok ==> s.o < d_arr(c, s, le, d, e)->Ok_0.1.o <= c.b.len() && s.m <= d_arr(c, s, le, d, e)->Ok_0.1.m
    decreases 5 - d, e, 0x1000_0000int
{
    str_len(c, s, le);
    if d_u32(c, s, le) is Ok { let (n, s1) = d_u32(c, s, le)->Ok_0; al_len(c, s1, align(e) as int); if n <= 0x400_0000 && al(c, s1, align(e) as int) is Ok { let s2 = al(c, s1, align(e) as int)->Ok_0; items_len(c, s2, le, d, e, s2.o + n); } }
}
pub proof fn items_len(c: Cx, s: St, le: bool, d: int, e: Ty, end: int)
    requires 0 <= s.o <= c.b.len(), d <= 4
    ensures d_items(c, s, le, d, e, end) is Ok ==> s.o <= d_items(c, s, le, d, e, end)->Ok_0.1.o <= c.b.len() && d_items(c, s, le, d, e, end)->Ok_0.1.o == end && s.m <= d_items(c, s, le, d, e, end)->Ok_0.1.m
    decreases 5 - d, e, (if end > s.o { end - s.o } else { 0 }) + 1
{
    if s.o < end { val_len(c, s, le, d, e); if d_val(c, s, le, d, e) is Ok { items_len(c, d_val(c, s, le, d, e)->Ok_0.1, le, d, e, end); } }
}
pub proof fn list_len(c: Cx, s: St, le: bool, d: int, l: Seq<Ty>)
    requires 0 <= s.o <= c.b.len(), d <= 4
    ensures d_list(c, s, le, d, l) is Ok ==> s.o <= d_list(c, s, le, d, l)->Ok_0.1.o <= c.b.len() && s.m <= d_list(c, s, le, d, l)->Ok_0.1.m && (l.len() > 0 ==> s.o < d_list(c, s, le, d, l)->Ok_0.1.o)
    decreases 5 - d, l, 0int
{
    if l.len() > 0 { val_len(c, s, le, d, l[0]); if d_val(c, s, le, d, l[0]) is Ok { list_len(c, d_val(c, s, le, d, l[0])->Ok_0.1, le, d, l.drop_first()); } }
}
pub proof fn list_count(c: Cx, s: St, le: bool, d: int, l: Seq<Ty>)
    ensures d_list(c, s, le, d, l) is Ok ==> d_list(c, s, le, d, l)->Ok_0.0.len() == l.len()
    decreases l
{ if l.len() > 0 && d_val(c, s, le, d, l[0]) is Ok { list_count(c, d_val(c, s, le, d, l[0])->Ok_0.1, le, d, l.drop_first()); } }
} // verus!
}
