// C09: replies, and the constructors of messages.
pub mod rp {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
use crate::ms::*;
verus! {
/// the header of an answer of type mt to a message with header h: to its sender, from its destination, with its serial and byte order
pub open spec fn answer(h: Hd, mt: u8, name: Option<Seq<u8>>) -> Hd {
    Hd { le: h.le, mt, fl: 1, ver: 1, serial: 0, f: Fl { destination: h.f.sender, sender: h.f.destination, reply_serial: Some(h.serial), error_name: name, ..no_fields() } }
}
/// an error with one text
pub open spec fn err_msg(h: Hd, name: Seq<u8>, text: Seq<u8>) -> Msg { Msg { h: answer(h, 3, Some(name)), body: seq![Val::String(text)] } }
/// C09: an answer has the fields its type requires
pub proof fn answer_required(h: Hd, name: Seq<u8>) ensures required(2, answer(h, 2, None).f), required(3, answer(h, 3, Some(name)).f) {}
pub open spec fn call_hd(d: Seq<u8>, p: Seq<u8>, i: Seq<u8>, m: Seq<u8>) -> Hd { Hd { le: true, mt: 1, fl: 0, ver: 1, serial: 0, f: Fl { destination: Some(d), path: Some(p), interface: Some(i), member: Some(m), ..no_fields() } } }
pub open spec fn signal_hd(p: Seq<u8>, i: Seq<u8>, m: Seq<u8>) -> Hd { Hd { le: true, mt: 4, fl: 1, ver: 1, serial: 0, f: Fl { path: Some(p), interface: Some(i), member: Some(m), ..no_fields() } } }
pub proof fn made_required(d: Seq<u8>, p: Seq<u8>, i: Seq<u8>, m: Seq<u8>) ensures required(1, call_hd(d, p, i, m).f), required(4, signal_hd(p, i, m).f) {}
pub proof fn n_type() ensures error_ok(sb("org.freedesktop.DBus.Error.MessageType"@)) { reveal_strlit("org.freedesktop.DBus.Error.MessageType"); let a = "org.freedesktop.DBus.Error.MessageType"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 38); assert(b[3] == 46); assert(dprefix(b, b.len() as int, false, false)); }
pub proof fn n_property() ensures error_ok(sb("org.freedesktop.DBus.Error.UnknownProperty"@)) { reveal_strlit("org.freedesktop.DBus.Error.UnknownProperty"); let a = "org.freedesktop.DBus.Error.UnknownProperty"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 42); assert(b[3] == 46); assert(dprefix(b, b.len() as int, false, false)); }
pub proof fn n_path() ensures error_ok(sb("org.freedesktop.DBus.Error.UnknownPath"@)) { reveal_strlit("org.freedesktop.DBus.Error.UnknownPath"); let a = "org.freedesktop.DBus.Error.UnknownPath"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 38); assert(b[3] == 46); assert(dprefix(b, b.len() as int, false, false)); }
pub proof fn n_interface() ensures error_ok(sb("org.freedesktop.DBus.Error.UnknownInterface"@)) { reveal_strlit("org.freedesktop.DBus.Error.UnknownInterface"); let a = "org.freedesktop.DBus.Error.UnknownInterface"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 43); assert(b[3] == 46); assert(dprefix(b, b.len() as int, false, false)); }
pub proof fn n_member() ensures error_ok(sb("org.freedesktop.DBus.Error.UnknownMember"@)) { reveal_strlit("org.freedesktop.DBus.Error.UnknownMember"); let a = "org.freedesktop.DBus.Error.UnknownMember"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 40); assert(b[3] == 46); assert(dprefix(b, b.len() as int, false, false)); }
pub proof fn n_args() ensures error_ok(sb("org.freedesktop.DBus.Error.InvalidArgs"@)) { reveal_strlit("org.freedesktop.DBus.Error.InvalidArgs"); let a = "org.freedesktop.DBus.Error.InvalidArgs"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 38); assert(b[3] == 46); assert(dprefix(b, b.len() as int, false, false)); }
pub proof fn n_properties() ensures interface_ok(sb("org.freedesktop.DBus.Properties"@)) { reveal_strlit("org.freedesktop.DBus.Properties"); let a = "org.freedesktop.DBus.Properties"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 31); assert(b[3] == 46); assert(dprefix(b, b.len() as int, false, false)); }
pub proof fn n_get() ensures member_ok(sb("Get"@)) { reveal_strlit("Get"); let a = "Get"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 3); assert(mprefix(b, b.len() as int)); }
pub proof fn n_getall() ensures member_ok(sb("GetAll"@)) { reveal_strlit("GetAll"); let a = "GetAll"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 6); assert(mprefix(b, b.len() as int)); }
pub proof fn n_set() ensures member_ok(sb("Set"@)) { reveal_strlit("Set"); let a = "Set"@; assert(forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128); vstd::utf8::is_ascii_chars_encode_utf8(a); let b = sb(a); assert(b.len() == 3); assert(mprefix(b, b.len() as int)); }
} // verus!
}
