# Header fields and headers (C08)
//@ module message::types
//@ type MessageType
//@ spec
pub use lem_mt::*;
pub mod lem_mt { use super::*;
pub open spec fn mtv(t: MessageType) -> u8 { match t { MessageType::MethodCall => 1, MessageType::MethodReturn => 2, MessageType::Error => 3, MessageType::Signal => 4 } }
}
//@ fn <MessageType as TryFrom<u8>>::try_from
[C04,C08] ensures match ret { Ok(t) => mtv(t) == $1, Err(b) => b == $1 && !(1 <= $1 <= 4) }
//@ fn <MessageType as TryFrom<&str>>::try_from
[C16] ensures match ret { Ok(t) => crate::mr::mt_of($1@) == Some(mtv(t)), Err(_) => crate::mr::mt_of($1@) is None }
//@ begin
broadcast use str_ext;
proof { reveal_strlit("method_call"); reveal_strlit("method_return"); reveal_strlit("error"); reveal_strlit("signal");
    let a = "method_call"@; let b = "method_return"@; let c = "error"@; let d = "signal"@; assert(a.len() == 11 && b.len() == 13 && c.len() == 5 && d.len() == 6); }
//@ inimpl <MessageType as Display>
open spec fn disp(&self) -> Seq<u8> { sb(crate::mr::mt_name(mtv(*self))) }
//@ fn <MessageType as Display>::fmt
[C14] ensures ret is Ok, final($1)@ == old($1)@ + sb(crate::mr::mt_name(mtv(*self)))
//@ module message::header::fields
//@ use use crate::vl::*; use crate::mw::*; use crate::ty::*; use crate::nm::*; use crate::ms::*; use crate::value::type_enum::*; use crate::value::value_enum::*; use crate::value::container::*;
//@ type Fields view
//@ spec
broadcast use {crate::value::value_enum::lem_v::valv_struct};
impl View for Fields { type V = Fl; open spec fn view(&self) -> Fl { Fl { path: ov(self.path), interface: ov(self.interface), member: ov(self.member), error_name: ov(self.error_name), reply_serial: self.reply_serial,
    destination: ov(self.destination), sender: ov(self.sender), signature: match self.signature { Some(l) => Some(tys(l@)), None => None }, unix_fds: self.unix_fds } } }
//@ fn Fields::try_set_path
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 1, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 1, $1@) is None }
//@ fn Fields::try_set_interface
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 2, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 2, $1@) is None }
//@ fn Fields::try_set_member
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 3, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 3, $1@) is None }
//@ fn Fields::try_set_error_name
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 4, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 4, $1@) is None }
//@ fn Fields::try_set_reply_serial
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 5, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 5, $1@) is None }
//@ fn Fields::try_set_destination
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 6, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 6, $1@) is None }
//@ fn Fields::try_set_sender
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 7, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 7, $1@) is None }
//@ fn Fields::try_set_signature
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 8, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 8, $1@) is None }
//@ fn Fields::try_set_unix_fds
[C08] ensures match ret { Ok(_) => field_of(old(self)@, 9, $1@) == Some(final(self)@), Err(_) => field_of(old(self)@, 9, $1@) is None }
//@ fn Fields::try_set_field
[C08] ensures match ret { Ok(_) => field_of(old(self)@, $1, $2@) == Some(final(self)@), Err(_) => field_of(old(self)@, $1, $2@) is None }
//@ fn unwrap_value
//@ rewrite __x.into() ==> Vec::<Value>::from(__x)
[C08] ensures match ret { Ok((n, v)) => code_value($1@) == Some((n, v@)), Err(_) => code_value($1@) is None }
//@ fn <Fields as TryFrom<Vec<Value>>>::try_from
[C08] ensures match ret { Ok(f) => fields_of(no_fields(), vals($1@)) == Some(f@), Err(_) => fields_of(no_fields(), vals($1@)) is None }
//@ before for
assert(vals($1@).skip(0) =~= vals($1@));
//@ loop 0 iter it
invariant it.seq() == $1@
[C08] invariant fields_of(no_fields(), vals($1@)) == fields_of($let1@, vals($1@).skip(it.index() as int))
//@ loop 0 begin
proof { let l = vals($1@); let i = it.index() as int; assert(l.skip(i)[0] == l[i]); assert(l.skip(i).drop_first() =~= l.skip(i + 1)); }
//@ fn <Vec<Value> as From<Fields>>::from
[C02,C03,C08] ensures vals(ret@) == field_vals($1@)
//@ begin
broadcast use {crate::value::value_enum::lem_v::vals_push, crate::value::value_enum::lem_v::vals_two, crate::value::value_enum::lem_v::valv_variant, crate::value::value_enum::lem_v::vals_nil};
//@ module message::header::header_struct
//@ use use crate::rp::*; use crate::message::message_struct::*; use crate::vl::*; use crate::ty::*; use crate::nm::*; use crate::ms::*; use crate::value::type_enum::*; use crate::value::value_enum::*; use crate::message::types::*;
//@ type Header view
//@ spec
impl View for Header { type V = Hd; open spec fn view(&self) -> Hd { Hd { le: self.is_le, mt: mtv(self.message_type), fl: self.message_flags.bits, ver: self.version, serial: self.serial, f: self.fields@ } } }
//@ fn check_header_fields
[C08] ensures ret.is_ok() == required(mtv($1), $2@)
//@ fn Header::new
[C08] ensures ret.is_ok() == required(mtv($2), $6@)
[C08] ensures ret is Ok ==> ret->Ok_0@ == (Hd { le: $1, mt: mtv($2), fl: $3.bits, ver: $4, serial: $5, f: $6@ })
//@ fn Header::get_serial
[C09] ensures ret == self.serial
//@ fn Header::get_path
[C09,C15] ensures match ret { Some(x) => self.fields.path == Some(*x), None => self.fields.path is None }
//@ fn Header::has_path
[C09,C15] ensures ret == self.fields.path is Some
//@ fn Header::get_interface
[C09,C15] ensures match ret { Some(x) => self.fields.interface == Some(*x), None => self.fields.interface is None }
//@ fn Header::has_interface
[C09,C15] ensures ret == self.fields.interface is Some
//@ fn Header::get_member
[C09,C15] ensures match ret { Some(x) => self.fields.member == Some(*x), None => self.fields.member is None }
//@ fn Header::has_member
[C09,C15] ensures ret == self.fields.member is Some
//@ fn Header::get_error_name
[C09,C15] ensures match ret { Some(x) => self.fields.error_name == Some(*x), None => self.fields.error_name is None }
//@ fn Header::has_error_name
[C09,C15] ensures ret == self.fields.error_name is Some
//@ fn Header::get_destination
[C09,C15] ensures match ret { Some(x) => self.fields.destination == Some(*x), None => self.fields.destination is None }
//@ fn Header::has_destination
[C09,C15] ensures ret == self.fields.destination is Some
//@ fn Header::get_sender
[C09,C15] ensures match ret { Some(x) => self.fields.sender == Some(*x), None => self.fields.sender is None }
//@ fn Header::has_sender
[C09,C15] ensures ret == self.fields.sender is Some
//@ fn Header::get_reply_serial
[C09] ensures ret == self.fields.reply_serial
//@ fn Header::has_reply_serial
[C09] ensures ret == self.fields.reply_serial is Some
//@ fn Header::get_unix_fds
[C09] ensures ret == self.fields.unix_fds
//@ fn Header::has_unix_fds
[C09] ensures ret == self.fields.unix_fds is Some
//@ fn Header::has_signature
[C09] ensures ret == self.fields.signature is Some
//@ fn Header::get_signature
//@ rewrite self.fields.signature.as_deref() ==> crate::th::as_deref(&self.fields.signature)
[C12] ensures match ret { Some(l) => self.fields.signature is Some && l@ == self.fields.signature->Some_0@, None => self.fields.signature is None }
//@ fn Header::get_type
[C15] ensures ret == self.message_type
//@ fn Header::error
[C09] ensures ret@ == err_msg(self@, $1@, sb($2@))
//@ tail
assert(vals(tail__.body@) =~= seq![Val::String(sb($2@))]);
//@ fn Header::method_return
//@ rewrite __x.try_into().unwrap() ==> Error::try_from(__x).unwrap()
[C09] ensures mtv(self.message_type) == 1 ==> ret is Ok && ret->Ok_0@ == (Msg { h: answer(self@, 2, None), body: Seq::empty() })
[C09] ensures mtv(self.message_type) != 1 ==> ret is Err && ret->Err_0@ == err_msg(self@, sb("org.freedesktop.DBus.Error.MessageType"@), sb("Message is not a method call"@))
//@ begin
broadcast use crate::value::value_enum::lem_v::vals_nil;
proof { n_type(); }
//@ fn Header::unknown_property
//@ rewrite __x.try_into().unwrap() ==> Error::try_from(__x).unwrap()
[C09] ensures ret@ == err_msg(self@, sb("org.freedesktop.DBus.Error.UnknownProperty"@), sb("does not have a property "@) + sb($1@))
//@ begin
proof { n_property(); }
//@ fn Header::unknown_path
//@ rewrite __x.try_into().unwrap() ==> Error::try_from(__x).unwrap()
[C09] ensures match self@.f.path { Some(x) => ret is Some && ret->Some_0@ == err_msg(self@, sb("org.freedesktop.DBus.Error.UnknownPath"@), sb("does not have a path "@) + x), None => ret is None }
//@ begin
proof { n_path(); }
//@ fn Header::unknown_interface
//@ rewrite __x.try_into().unwrap() ==> Error::try_from(__x).unwrap()
[C09] ensures match self@.f.interface { Some(x) => ret is Some && ret->Some_0@ == err_msg(self@, sb("org.freedesktop.DBus.Error.UnknownInterface"@), sb("does not have an interface "@) + x), None => ret is None }
//@ begin
proof { n_interface(); }
//@ fn Header::unknown_member
//@ rewrite __x.try_into().unwrap() ==> Error::try_from(__x).unwrap()
[C09] ensures match self@.f.member { Some(x) => ret is Some && ret->Some_0@ == err_msg(self@, sb("org.freedesktop.DBus.Error.UnknownMember"@), sb("does not have a member "@) + x), None => ret is None }
//@ begin
proof { n_member(); }
//@ fn Header::invalid_args
//@ rewrite __x.try_into().unwrap() ==> Error::try_from(__x).unwrap()
[C09] ensures ret@ == err_msg(self@, sb("org.freedesktop.DBus.Error.InvalidArgs"@), sb($1@))
//@ begin
proof { n_args(); }
//@ module message::message_struct
//@ use use crate::rp::*; use crate::vl::*; use crate::ty::*; use crate::ms::*; use crate::mw::*; use crate::message::header::header_struct::*; use crate::message::header::fields::*; use crate::value::type_enum::*; use crate::value::value_enum::*; use crate::message::types::*;
//@ type Message view
//@ spec
impl View for Message { type V = Msg; open spec fn view(&self) -> Msg { Msg { h: self.header@, body: vals(self.body@) } } }
//@ fn Message::new
ensures ret.header == $1, ret.body == $2
//@ fn Message::get_path
[C09,C15] ensures match ret { Some(x) => self.header.fields.path == Some(*x), None => self.header.fields.path is None }
//@ fn Message::has_path
[C09,C15] ensures ret == self.header.fields.path is Some
//@ fn Message::get_interface
[C09,C15] ensures match ret { Some(x) => self.header.fields.interface == Some(*x), None => self.header.fields.interface is None }
//@ fn Message::has_interface
[C09,C15] ensures ret == self.header.fields.interface is Some
//@ fn Message::get_member
[C09,C15] ensures match ret { Some(x) => self.header.fields.member == Some(*x), None => self.header.fields.member is None }
//@ fn Message::has_member
[C09,C15] ensures ret == self.header.fields.member is Some
//@ fn Message::get_error_name
[C09,C15] ensures match ret { Some(x) => self.header.fields.error_name == Some(*x), None => self.header.fields.error_name is None }
//@ fn Message::has_error_name
[C09,C15] ensures ret == self.header.fields.error_name is Some
//@ fn Message::get_destination
[C09,C15] ensures match ret { Some(x) => self.header.fields.destination == Some(*x), None => self.header.fields.destination is None }
//@ fn Message::has_destination
[C09,C15] ensures ret == self.header.fields.destination is Some
//@ fn Message::get_sender
[C09,C15] ensures match ret { Some(x) => self.header.fields.sender == Some(*x), None => self.header.fields.sender is None }
//@ fn Message::has_sender
[C09,C15] ensures ret == self.header.fields.sender is Some
//@ fn Message::get_reply_serial
[C09] ensures ret == self.header.fields.reply_serial
//@ fn Message::has_reply_serial
[C09] ensures ret == self.header.fields.reply_serial is Some
//@ fn Message::get_unix_fds
[C09] ensures ret == self.header.fields.unix_fds
//@ fn Message::has_unix_fds
[C09] ensures ret == self.header.fields.unix_fds is Some
//@ fn Message::has_signature
[C09] ensures ret == self.header.fields.signature is Some
//@ fn Message::get_serial
[C09] ensures ret == self.header.serial
//@ fn Message::set_serial
ensures final(self).body == old(self).body, final(self).header == (Header { serial: $1, ..old(self).header })
//@ fn Message::get_type
[C15] ensures ret == self.header.message_type
//@ fn Message::get_body
[C15] ensures ret@ == self.body@
//@ fn Message::add_value
ensures final(self).header == old(self).header, final(self).body@ == old(self).body@.push($1)
//@ fn Message::error
[C09] ensures ret@ == err_msg(self@.h, $1@, sb($2@))
//@ fn Message::invalid_args
[C09] ensures ret@ == err_msg(self@.h, sb("org.freedesktop.DBus.Error.InvalidArgs"@), sb($1@))
//@ fn Message::unknown_property
[C09] ensures ret@ == err_msg(self@.h, sb("org.freedesktop.DBus.Error.UnknownProperty"@), sb("does not have a property "@) + sb($1@))
//@ fn Message::method_return
[C09] ensures mtv(self.header.message_type) == 1 ==> ret is Ok && ret->Ok_0@ == (Msg { h: answer(self@.h, 2, None), body: Seq::empty() })
[C09] ensures mtv(self.header.message_type) != 1 ==> ret is Err && ret->Err_0@ == err_msg(self@.h, sb("org.freedesktop.DBus.Error.MessageType"@), sb("Message is not a method call"@))
//@ fn Message::unknown_path
[C09] ensures match self@.h.f.path { Some(x) => ret is Some && ret->Some_0@ == err_msg(self@.h, sb("org.freedesktop.DBus.Error.UnknownPath"@), sb("does not have a path "@) + x), None => ret is None }
//@ fn Message::unknown_interface
[C09] ensures match self@.h.f.interface { Some(x) => ret is Some && ret->Some_0@ == err_msg(self@.h, sb("org.freedesktop.DBus.Error.UnknownInterface"@), sb("does not have an interface "@) + x), None => ret is None }
//@ fn Message::unknown_member
[C09] ensures match self@.h.f.member { Some(x) => ret is Some && ret->Some_0@ == err_msg(self@.h, sb("org.freedesktop.DBus.Error.UnknownMember"@), sb("does not have a member "@) + x), None => ret is None }
//@ fn Message::method_call
[C08] ensures ret@ == (Msg { h: call_hd($1@, $2@, $3@, $4@), body: Seq::empty() })
//@ begin
broadcast use crate::value::value_enum::lem_v::vals_nil;
//@ fn Message::signal
[C08] ensures ret@ == (Msg { h: signal_hd($1@, $2@, $3@), body: Seq::empty() })
//@ begin
broadcast use crate::value::value_enum::lem_v::vals_nil;
//@ fn Message::property_get
//@ rewrite Message::method_call(__a, __b, __c.try_into().unwrap(), __d.try_into().unwrap(),) ==> Message::method_call(__a, __b, Interface::try_from(__c).unwrap(), Member::try_from(__d).unwrap(),)
[C08] ensures ret@ == (Msg { h: call_hd($1@, $2@, sb("org.freedesktop.DBus.Properties"@), sb("Get"@)), body: seq![Val::String($3@), Val::String(sb($4@))] })
//@ begin
broadcast use {crate::value::value_enum::lem_v::valv_variant, crate::value::value_enum::lem_v::vals_push, crate::value::value_enum::lem_v::vals_nil};
proof { n_properties(); n_get(); }
//@ tail
assert(vals(tail__.body@) =~= seq![Val::String($3@), Val::String(sb($4@))]);
//@ fn Message::properties_get_all
//@ rewrite Message::method_call(__a, __b, __c.try_into().unwrap(), __d.try_into().unwrap(),) ==> Message::method_call(__a, __b, Interface::try_from(__c).unwrap(), Member::try_from(__d).unwrap(),)
[C08] ensures ret@ == (Msg { h: call_hd($1@, $2@, sb("org.freedesktop.DBus.Properties"@), sb("GetAll"@)), body: seq![Val::String($3@)] })
//@ begin
broadcast use {crate::value::value_enum::lem_v::valv_variant, crate::value::value_enum::lem_v::vals_push, crate::value::value_enum::lem_v::vals_nil};
proof { n_properties(); n_getall(); }
//@ tail
assert(vals(tail__.body@) =~= seq![Val::String($3@)]);
//@ fn Message::property_set
//@ rewrite Message::method_call(__a, __b, __c.try_into().unwrap(), __d.try_into().unwrap(),) ==> Message::method_call(__a, __b, Interface::try_from(__c).unwrap(), Member::try_from(__d).unwrap(),)
[C08] ensures ret@ == (Msg { h: call_hd($1@, $2@, sb("org.freedesktop.DBus.Properties"@), sb("Set"@)), body: seq![Val::String($3@), Val::String(sb($4@)), Val::Variant(Box::new($5@))] })
//@ begin
broadcast use {crate::value::value_enum::lem_v::valv_variant, crate::value::value_enum::lem_v::vals_push, crate::value::value_enum::lem_v::vals_nil};
proof { n_properties(); n_set(); }
//@ tail
assert(vals(tail__.body@) =~= seq![Val::String($3@), Val::String(sb($4@)), Val::Variant(Box::new($5@))]);
//@ fn Message::get_signature
[C12] ensures ret is Ok <==> (forall|i: int| 0 <= i < self.body@.len() ==> typed(#[trigger] vals(self.body@)[i], 0, 0, 0))
[C12] ensures ret is Ok ==> tys(ret->Ok_0@) == tys_of(vals(self.body@))
//@ begin
let ghost l = vals(self.body@);
proof { tys_at(l); }
//@ loop 0 iter it
invariant it.seq().unref() == self.body@, l == vals(self.body@), tys_of(l).len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] tys_of(l)[i] == ty_of(l[i])
[C12] invariant tys($let1@) =~= tys_of(l).take(it.index() as int), forall|i: int| 0 <= i < it.index() ==> typed(#[trigger] l[i], 0, 0, 0)
//@ loop 0 begin
assert(l[it.index() as int] == $pat0@);
let ghost s0 = $let1@;
//@ loop 0 end
assert(tys_of(l)[it.index() as int] == ty_of(l[it.index() as int])); assert(tys($let1@) =~= tys(s0).push(ty_of(l[it.index() as int])));
//@ tail
assert(tys_of(l).take(l.len() as int) =~= tys_of(l));
//@ fn Message::split
[C12] ensures ret is Ok <==> (forall|i: int| 0 <= i < self.body@.len() ==> typed(#[trigger] vals(self.body@)[i], 0, 0, 0))
[C12] ensures ret is Ok ==> ret->Ok_0.1 == self.body && ret->Ok_0.0@ == (Hd { f: Fl { signature: if self.body@.len() > 0 { Some(tys_of(vals(self.body@))) } else { self.header@.f.signature }, ..self.header@.f }, ..self.header@ })
//@ begin
proof { tys_at(vals(self.body@)); }
