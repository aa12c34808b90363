// Messages: header fields, header, and the reader of a whole message.
pub mod ms {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
verus! {
pub struct Fl { pub path: Option<Seq<u8>>, pub interface: Option<Seq<u8>>, pub member: Option<Seq<u8>>, pub error_name: Option<Seq<u8>>, pub reply_serial: Option<u32>,
    pub destination: Option<Seq<u8>>, pub sender: Option<Seq<u8>>, pub signature: Option<Seq<Ty>>, pub unix_fds: Option<u32> }
/// type: 1 method call, 2 method return, 3 error, 4 signal
pub struct Hd { pub le: bool, pub mt: u8, pub fl: u8, pub ver: u8, pub serial: u32, pub f: Fl }
pub struct Msg { pub h: Hd, pub body: Seq<Val> }
pub open spec fn no_fields() -> Fl { Fl { path: None, interface: None, member: None, error_name: None, reply_serial: None, destination: None, sender: None, signature: None, unix_fds: None } }
pub open spec fn ov<T: View>(o: Option<T>) -> Option<T::V> { match o { Some(x) => Some(x@), None => None } }

/// the header field with code n and value v, read into f: each code has its type, no code occurs twice
pub open spec fn field_of(f: Fl, n: u8, v: Val) -> Option<Fl> {
    match (n, v) {
        (1, Val::ObjectPath(p)) => if f.path is None { Some(Fl { path: Some(p), ..f }) } else { None },
        (2, Val::String(s)) => if f.interface is None && interface_ok(s) { Some(Fl { interface: Some(s), ..f }) } else { None },
        (3, Val::String(s)) => if f.member is None && member_ok(s) { Some(Fl { member: Some(s), ..f }) } else { None },
        (4, Val::String(s)) => if f.error_name is None && error_ok(s) { Some(Fl { error_name: Some(s), ..f }) } else { None },
        (5, Val::Uint32(u)) => if f.reply_serial is None { Some(Fl { reply_serial: Some(u), ..f }) } else { None },
        (6, Val::String(s)) => if f.destination is None && bus_ok(s) { Some(Fl { destination: Some(s), ..f }) } else { None },
        (7, Val::String(s)) => if f.sender is None && bus_ok(s) { Some(Fl { sender: Some(s), ..f }) } else { None },
        (8, Val::Signature(l)) => if f.signature is None { Some(Fl { signature: Some(l), ..f }) } else { None },
        (9, Val::Uint32(u)) => if f.unix_fds is None { Some(Fl { unix_fds: Some(u), ..f }) } else { None },
        _ => None,
    }
}
/// one element of the field array: a structure of a byte and a variant
pub open spec fn code_value(v: Val) -> Option<(u8, Val)> { match v { Val::Struct(l) => if l.len() == 2 { match (l[0], l[1]) { (Val::Byte(n), Val::Variant(x)) => Some((n, *x)), _ => None } } else { None }, _ => None } }
pub open spec fn fields_of(f: Fl, l: Seq<Val>) -> Option<Fl> decreases l.len() {
    if l.len() == 0 { Some(f) } else { match code_value(l[0]) { Some((n, v)) => match field_of(f, n, v) { Some(g) => fields_of(g, l.drop_first()), None => None }, None => None } }
}
pub open spec fn required(mt: u8, f: Fl) -> bool {
    &&& mt == 1 || mt == 4 ==> f.path is Some && f.member is Some
    &&& mt == 4 ==> f.interface is Some
    &&& mt == 2 || mt == 3 ==> f.reply_serial is Some
    &&& mt == 3 ==> f.error_name is Some
}
pub open spec fn field_ty() -> Ty { Ty::Struct(seq![Ty::Byte, Ty::Variant]) }
/// the header fields, and the body's signature taken out of them
pub open spec fn d_fields(c: Cx, s: St, le: bool) -> Result<((Option<Seq<Ty>>, Fl), St), E> { match d_arr(c, s, le, 0, field_ty()) {
    Ok((l, s2)) => match fields_of(no_fields(), l) { Some(f) => Ok(((f.signature, Fl { signature: None, ..f }), s2)), None => Err(E::Bad) }, Err(e) => Err(e) } }
pub open spec fn d_le(c: Cx, s: St) -> Result<(bool, St), E> { match d_u8(c, s) { Ok((b, s2)) => if b == 0x6c { Ok((true, s2)) } else if b == 0x42 { Ok((false, s2)) } else { Err(E::Bad) }, Err(e) => Err(e) } }
pub open spec fn d_mt(c: Cx, s: St) -> Result<(u8, St), E> { match d_u8(c, s) { Ok((b, s2)) => if 1 <= b <= 4 { Ok((b, s2)) } else { Err(E::Bad) }, Err(e) => Err(e) } }
pub open spec fn d_fl(c: Cx, s: St) -> Result<(u8, St), E> { match d_u8(c, s) { Ok((b, s2)) => if b & !7u8 == 0 { Ok((b, s2)) } else { Err(E::Bad) }, Err(e) => Err(e) } }
/// what is known of the body: nothing is to be read, or so many bytes of these types
pub open spec fn body_plan(n: u32, sig: Option<Seq<Ty>>) -> Option<Option<(u32, Seq<Ty>)>> {
    match sig { Some(l) => if n == 0 { if l.len() == 0 { Some(None) } else { None } } else { Some(Some((n, l))) }, None => if n == 0 { Some(None) } else { None } }
}
pub open spec fn d_head(c: Cx, s: St) -> Result<((Hd, Option<(u32, Seq<Ty>)>), St), E> {
    match d_le(c, s) { Err(e) => Err(e), Ok((le, s1)) =>
    match d_mt(c, s1) { Err(e) => Err(e), Ok((mt, s2)) =>
    match d_fl(c, s2) { Err(e) => Err(e), Ok((fl, s3)) =>
    match d_u8(c, s3) { Err(e) => Err(e), Ok((ver, s4)) =>
    match d_u32(c, s4, le) { Err(e) => Err(e), Ok((n, s5)) =>
    match d_u32(c, s5, le) { Err(e) => Err(e), Ok((serial, s6)) =>
    match d_fields(c, s6, le) { Err(e) => Err(e), Ok(((sig, f), s7)) =>
        if required(mt, f) { match body_plan(n, sig) { Some(p) => Ok(((Hd { le, mt, fl, ver, serial, f }, p), s7)), None => Err(E::Bad) } } else { Err(E::Bad) }
    } } } } } } }
}
pub open spec fn d_body(c: Cx, s: St, le: bool, n: u32, l: Seq<Ty>) -> Result<(Seq<Val>, St), E> { match d_list(c, s, le, 0, l) { Ok((v, s2)) => if s2.o == s.o + n { Ok((v, s2)) } else { Err(E::Bad) }, Err(e) => Err(e) } }
pub open spec fn d_msg(c: Cx, s: St) -> Result<(Msg, St), E> {
    match d_head(c, s) { Err(e) => Err(e), Ok(((h, p), s1)) => match al(c, s1, 8) { Err(e) => Err(e), Ok(s2) => match p {
        None => Ok((Msg { h, body: Seq::empty() }, s2)),
        Some((n, l)) => match d_body(c, s2, h.le, n, l) { Ok((v, s3)) => Ok((Msg { h, body: v }, s3)), Err(e) => Err(e) },
    } } }
}
pub open spec fn start() -> St { St { o: 0, m: -1 } }
/// at most 128 MiB of the input are looked at
pub open spec fn cap(b: Seq<u8>) -> Seq<u8> { if b.len() <= 134217728 { b } else { b.subrange(0, 134217728) } }
} // verus!
}
