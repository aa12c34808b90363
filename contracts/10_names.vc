# Contracts of the name recognisers (C05, and C01 for their absence of panics)
//@ module value::bus::well_known_bus_name
//@ use use crate::nm::*;
//@ type WellKnownBusName view
//@ spec
impl View for WellKnownBusName { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { sb(self.0@) } }
//@ end
//@ fn <Input as TryFrom<u8>>::try_from
[C05] ensures match ret { Ok(Input::AlphabeticAndUnderscoreAndHyphen) => alpha($1) || $1 == 95 || $1 == 45, Ok(Input::Digit) => digit($1), Ok(Input::Dot) => $1 == 46, Err(_) => !((alpha($1) || $1 == 95 || $1 == 45) || (digit($1)) || ($1 == 46)) }
//@ spec
pub open spec fn step(s: State, i: Input) -> Option<State> { match (s, i) {
    (State::Start, Input::AlphabeticAndUnderscoreAndHyphen) => Some(State::FirstElement),
    (State::Start, Input::Digit) => None,
    (State::Start, Input::Dot) => None,
    (State::FirstElement, Input::AlphabeticAndUnderscoreAndHyphen) => Some(State::FirstElement),
    (State::FirstElement, Input::Digit) => Some(State::FirstElement),
    (State::FirstElement, Input::Dot) => Some(State::Dot),
    (State::Dot, Input::AlphabeticAndUnderscoreAndHyphen) => Some(State::SubsequentElement),
    (State::Dot, Input::Digit) => None,
    (State::Dot, Input::Dot) => None,
    (State::SubsequentElement, Input::AlphabeticAndUnderscoreAndHyphen) => Some(State::SubsequentElement),
    (State::SubsequentElement, Input::Digit) => Some(State::SubsequentElement),
    (State::SubsequentElement, Input::Dot) => Some(State::Dot),
} }
//@ fn State::consume
[C05] ensures match ret { Ok(s) => step(self, $1) == Some(s), Err(_) => step(self, $1) == None::<State> }
//@ spec
pub open spec fn inv(st: State, s: Seq<u8>, n: int) -> bool {
    dprefix(s, n, true, false) && match st {
        State::Start => n == 0,
        State::FirstElement => n > 0 && !has_dot(s, n) && s[n - 1] != 46,
        State::Dot => n > 0 && s[n - 1] == 46 && has_dot(s, n),
        State::SubsequentElement => n > 0 && s[n - 1] != 46 && has_dot(s, n),
    }
}
//@ fn check
[C05] ensures ret.is_ok() == well_known_ok($1@)
//@ loop 0 iter it
[C05] invariant inv($let2, $1@, it.index() as int)
invariant it.seq().unref() == $1@
//@ loop 0 begin
assert(well_known_ok($1@) ==> dchar($1@, it.index() as int, true, false));
//@ end
//@ fn <WellKnownBusName as TryFrom<String>>::try_from
[C05] ensures ret.is_ok() == well_known_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <WellKnownBusName as TryFrom<&str>>::try_from
[C05] ensures ret.is_ok() == well_known_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <WellKnownBusName as TryFrom<&[u8]>>::try_from
[C05] ensures ret.is_ok() == well_known_ok($1@)
[C05] ensures ret is Ok ==> ret->Ok_0@ == $1@
//@ begin
proof { if well_known_ok($1@) { dotted_ascii($1@, true, false); } }
//@ end
//@ fn <String as From<WellKnownBusName>>::from
[C05] ensures sb(ret@) == $1@
//@ fn <WellKnownBusName as AsRef<str>>::as_ref
[C05] ensures sb(ret@) == self@
//@ fn <WellKnownBusName as PartialEq<str>>::eq
[C05] ensures ret == (self@ == sb($1@))
//@ begin
broadcast use crate::th::group_texts, crate::th::group_str_eq;
//@ spec
pub open spec fn eqs_str(a: &WellKnownBusName, o: &str) -> bool { a@ == sb(o@) }
//@ end
//@ inimpl <WellKnownBusName as Display>
open spec fn disp(&self) -> Seq<u8> { self@ }
//@ fn <WellKnownBusName as Display>::fmt
[C05,C02,C09,C14] ensures ret is Ok, final($1)@ == old($1)@ + self@
//@ module value::interface
//@ use use crate::nm::*;
//@ type Interface view
//@ spec
impl View for Interface { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { sb(self.0@) } }
//@ end
//@ fn <Input as TryFrom<u8>>::try_from
[C05] ensures match ret { Ok(Input::AlphabeticAndUnderscore) => alpha($1) || $1 == 95, Ok(Input::Digit) => digit($1), Ok(Input::Dot) => $1 == 46, Err(_) => !((alpha($1) || $1 == 95) || (digit($1)) || ($1 == 46)) }
//@ spec
pub open spec fn step(s: State, i: Input) -> Option<State> { match (s, i) {
    (State::FirstElementBegin, Input::AlphabeticAndUnderscore) => Some(State::FirstElement),
    (State::FirstElementBegin, Input::Digit) => None,
    (State::FirstElementBegin, Input::Dot) => None,
    (State::FirstElement, Input::AlphabeticAndUnderscore) => Some(State::FirstElement),
    (State::FirstElement, Input::Digit) => Some(State::FirstElement),
    (State::FirstElement, Input::Dot) => Some(State::ElementBegin),
    (State::ElementBegin, Input::AlphabeticAndUnderscore) => Some(State::Element),
    (State::ElementBegin, Input::Digit) => None,
    (State::ElementBegin, Input::Dot) => None,
    (State::Element, Input::AlphabeticAndUnderscore) => Some(State::Element),
    (State::Element, Input::Digit) => Some(State::Element),
    (State::Element, Input::Dot) => Some(State::ElementBegin),
} }
//@ fn State::consume
[C05] ensures match ret { Ok(s) => step(self, $1) == Some(s), Err(_) => step(self, $1) == None::<State> }
//@ spec
pub open spec fn inv(st: State, s: Seq<u8>, n: int) -> bool {
    dprefix(s, n, false, false) && match st {
        State::FirstElementBegin => n == 0,
        State::FirstElement => n > 0 && !has_dot(s, n) && s[n - 1] != 46,
        State::ElementBegin => n > 0 && s[n - 1] == 46 && has_dot(s, n),
        State::Element => n > 0 && s[n - 1] != 46 && has_dot(s, n),
    }
}
//@ fn check
[C05] ensures ret.is_ok() == interface_ok($1@)
//@ loop 0 iter it
[C05] invariant inv($let2, $1@, it.index() as int)
invariant it.seq().unref() == $1@
//@ loop 0 begin
assert(interface_ok($1@) ==> dchar($1@, it.index() as int, false, false));
//@ end
//@ fn <Interface as TryFrom<String>>::try_from
[C05] ensures ret.is_ok() == interface_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <Interface as TryFrom<&str>>::try_from
[C05] ensures ret.is_ok() == interface_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <Interface as TryFrom<&[u8]>>::try_from
[C05] ensures ret.is_ok() == interface_ok($1@)
[C05] ensures ret is Ok ==> ret->Ok_0@ == $1@
//@ begin
proof { if interface_ok($1@) { dotted_ascii($1@, false, false); } }
//@ end
//@ fn <String as From<Interface>>::from
[C05] ensures sb(ret@) == $1@
//@ fn <Interface as AsRef<str>>::as_ref
[C05] ensures sb(ret@) == self@
//@ fn <Interface as PartialEq<str>>::eq
[C05] ensures ret == (self@ == sb($1@))
//@ begin
broadcast use crate::th::group_texts, crate::th::group_str_eq;
//@ spec
pub open spec fn eqs_str(a: &Interface, o: &str) -> bool { a@ == sb(o@) }
//@ end
//@ inimpl <Interface as Display>
open spec fn disp(&self) -> Seq<u8> { self@ }
//@ fn <Interface as Display>::fmt
[C05,C02,C09,C14] ensures ret is Ok, final($1)@ == old($1)@ + self@
//@ module value::error
//@ use use crate::nm::*;
//@ type Error view
//@ spec
impl View for Error { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { sb(self.0@) } }
//@ end
//@ fn <Input as TryFrom<u8>>::try_from
[C05] ensures match ret { Ok(Input::AlphabeticAndUnderscore) => alpha($1) || $1 == 95, Ok(Input::Digit) => digit($1), Ok(Input::Dot) => $1 == 46, Err(_) => !((alpha($1) || $1 == 95) || (digit($1)) || ($1 == 46)) }
//@ spec
pub open spec fn step(s: State, i: Input) -> Option<State> { match (s, i) {
    (State::FirstElementBegin, Input::AlphabeticAndUnderscore) => Some(State::FirstElement),
    (State::FirstElementBegin, Input::Digit) => None,
    (State::FirstElementBegin, Input::Dot) => None,
    (State::FirstElement, Input::AlphabeticAndUnderscore) => Some(State::FirstElement),
    (State::FirstElement, Input::Digit) => Some(State::FirstElement),
    (State::FirstElement, Input::Dot) => Some(State::ElementBegin),
    (State::ElementBegin, Input::AlphabeticAndUnderscore) => Some(State::Element),
    (State::ElementBegin, Input::Digit) => None,
    (State::ElementBegin, Input::Dot) => None,
    (State::Element, Input::AlphabeticAndUnderscore) => Some(State::Element),
    (State::Element, Input::Digit) => Some(State::Element),
    (State::Element, Input::Dot) => Some(State::ElementBegin),
} }
//@ fn State::consume
[C05] ensures match ret { Ok(s) => step(self, $1) == Some(s), Err(_) => step(self, $1) == None::<State> }
//@ spec
pub open spec fn inv(st: State, s: Seq<u8>, n: int) -> bool {
    dprefix(s, n, false, false) && match st {
        State::FirstElementBegin => n == 0,
        State::FirstElement => n > 0 && !has_dot(s, n) && s[n - 1] != 46,
        State::ElementBegin => n > 0 && s[n - 1] == 46 && has_dot(s, n),
        State::Element => n > 0 && s[n - 1] != 46 && has_dot(s, n),
    }
}
//@ fn check
[C05] ensures ret.is_ok() == error_ok($1@)
//@ loop 0 iter it
[C05] invariant inv($let2, $1@, it.index() as int)
invariant it.seq().unref() == $1@
//@ loop 0 begin
assert(error_ok($1@) ==> dchar($1@, it.index() as int, false, false));
//@ end
//@ fn <Error as TryFrom<String>>::try_from
[C05] ensures ret.is_ok() == error_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <Error as TryFrom<&str>>::try_from
[C05] ensures ret.is_ok() == error_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <Error as TryFrom<&[u8]>>::try_from
[C05] ensures ret.is_ok() == error_ok($1@)
[C05] ensures ret is Ok ==> ret->Ok_0@ == $1@
//@ begin
proof { if error_ok($1@) { dotted_ascii($1@, false, false); } }
//@ end
//@ fn <String as From<Error>>::from
[C05] ensures sb(ret@) == $1@
//@ fn <Error as AsRef<str>>::as_ref
[C05] ensures sb(ret@) == self@
//@ fn <Error as PartialEq<str>>::eq
[C05] ensures ret == (self@ == sb($1@))
//@ begin
broadcast use crate::th::group_texts, crate::th::group_str_eq;
//@ spec
pub open spec fn eqs_str(a: &Error, o: &str) -> bool { a@ == sb(o@) }
//@ end
//@ inimpl <Error as Display>
open spec fn disp(&self) -> Seq<u8> { self@ }
//@ fn <Error as Display>::fmt
[C05,C02,C09,C14] ensures ret is Ok, final($1)@ == old($1)@ + self@
//@ module value::bus::unique_connection_name
//@ use use crate::nm::*;
//@ type UniqueConnectionName view
//@ spec
impl View for UniqueConnectionName { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { sb(self.0@) } }
//@ end
//@ fn <Input as TryFrom<u8>>::try_from
[C05] ensures match ret { Ok(Input::AlphanumericAndUnderscoreAndHyphen) => alnum($1) || $1 == 95 || $1 == 45, Ok(Input::Dot) => $1 == 46, Ok(Input::Colon) => $1 == 58, Err(_) => !((alnum($1) || $1 == 95 || $1 == 45) || ($1 == 46) || ($1 == 58)) }
//@ spec
pub open spec fn step(s: State, i: Input) -> Option<State> { match (s, i) {
    (State::Start, Input::AlphanumericAndUnderscoreAndHyphen) => None,
    (State::Start, Input::Dot) => None,
    (State::Start, Input::Colon) => Some(State::BeginFirstElement),
    (State::BeginFirstElement, Input::AlphanumericAndUnderscoreAndHyphen) => Some(State::FirstElement),
    (State::BeginFirstElement, Input::Dot) => None,
    (State::BeginFirstElement, Input::Colon) => None,
    (State::FirstElement, Input::AlphanumericAndUnderscoreAndHyphen) => Some(State::FirstElement),
    (State::FirstElement, Input::Dot) => Some(State::Dot),
    (State::FirstElement, Input::Colon) => None,
    (State::Dot, Input::AlphanumericAndUnderscoreAndHyphen) => Some(State::SubsequentElement),
    (State::Dot, Input::Dot) => None,
    (State::Dot, Input::Colon) => None,
    (State::SubsequentElement, Input::AlphanumericAndUnderscoreAndHyphen) => Some(State::SubsequentElement),
    (State::SubsequentElement, Input::Dot) => Some(State::Dot),
    (State::SubsequentElement, Input::Colon) => None,
} }
//@ fn State::consume
[C05] ensures match ret { Ok(s) => step(self, $1) == Some(s), Err(_) => step(self, $1) == None::<State> }
//@ spec
pub open spec fn inv(st: State, s: Seq<u8>, n: int) -> bool {
    uprefix(s, n) && match st {
        State::Start => n == 0,
        State::BeginFirstElement => n == 1 && !has_dot(s, n),
        State::FirstElement => n > 1 && !has_dot(s, n) && s[n - 1] != 46,
        State::Dot => n > 1 && s[n - 1] == 46 && has_dot(s, n),
        State::SubsequentElement => n > 1 && s[n - 1] != 46 && has_dot(s, n),
    }
}
//@ fn check
[C05] ensures ret.is_ok() == unique_ok($1@)
//@ loop 0 iter it
[C05] invariant inv($let2, $1@, it.index() as int)
invariant it.seq().unref() == $1@
//@ loop 0 begin
assert(unique_ok($1@) ==> uchar($1@, it.index() as int));
//@ end
//@ fn <UniqueConnectionName as TryFrom<String>>::try_from
[C05] ensures ret.is_ok() == unique_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <UniqueConnectionName as TryFrom<&str>>::try_from
[C05] ensures ret.is_ok() == unique_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <UniqueConnectionName as TryFrom<&[u8]>>::try_from
[C05] ensures ret.is_ok() == unique_ok($1@)
[C05] ensures ret is Ok ==> ret->Ok_0@ == $1@
//@ begin
proof { if unique_ok($1@) { unique_ascii($1@); } }
//@ end
//@ fn <String as From<UniqueConnectionName>>::from
[C05] ensures sb(ret@) == $1@
//@ fn <UniqueConnectionName as AsRef<str>>::as_ref
[C05] ensures sb(ret@) == self@
//@ fn <UniqueConnectionName as PartialEq<str>>::eq
[C05] ensures ret == (self@ == sb($1@))
//@ begin
broadcast use crate::th::group_texts, crate::th::group_str_eq;
//@ spec
pub open spec fn eqs_str(a: &UniqueConnectionName, o: &str) -> bool { a@ == sb(o@) }
//@ end
//@ inimpl <UniqueConnectionName as Display>
open spec fn disp(&self) -> Seq<u8> { self@ }
//@ fn <UniqueConnectionName as Display>::fmt
[C05,C02,C09,C14] ensures ret is Ok, final($1)@ == old($1)@ + self@
//@ module value::member
//@ use use crate::nm::*;
//@ type Member view
//@ spec
impl View for Member { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { sb(self.0@) } }
//@ end
//@ fn <Input as TryFrom<u8>>::try_from
[C05] ensures match ret { Ok(Input::AlphabeticAndUnderscore) => alpha($1) || $1 == 95, Ok(Input::Digit) => digit($1), Err(_) => !((alpha($1) || $1 == 95) || (digit($1))) }
//@ fn check
[C05] ensures ret.is_ok() == member_ok($1@)
//@ begin
assert(member_ok($1@) ==> mchar($1@, 0));
//@ loop 0 iter it
invariant 0 < $1@.len() <= 255
[C05] invariant mprefix($1@, it.index() + 1)
invariant it.seq().unref() == $1@.subrange(1, $1@.len() as int)
//@ loop 0 begin
assert(it.index() < it.seq().unref().len());
assert(it.seq().unref()[it.index() as int] == *$pat0);
assert($1@.subrange(1, $1@.len() as int)[it.index() as int] == $1@[it.index() + 1]);
assert(*$pat0 == $1@[it.index() + 1]);
assert(member_ok($1@) ==> mchar($1@, it.index() + 1));
//@ end
//@ fn <Member as TryFrom<String>>::try_from
[C05] ensures ret.is_ok() == member_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <Member as TryFrom<&str>>::try_from
[C05] ensures ret.is_ok() == member_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <Member as TryFrom<&[u8]>>::try_from
[C05] ensures ret.is_ok() == member_ok($1@)
[C05] ensures ret is Ok ==> ret->Ok_0@ == $1@
//@ begin
proof { if member_ok($1@) { member_ascii($1@); } }
//@ end
//@ fn <String as From<Member>>::from
[C05] ensures sb(ret@) == $1@
//@ fn <Member as AsRef<str>>::as_ref
[C05] ensures sb(ret@) == self@
//@ fn <Member as PartialEq<str>>::eq
[C05] ensures ret == (self@ == sb($1@))
//@ begin
broadcast use crate::th::group_texts, crate::th::group_str_eq;
//@ spec
pub open spec fn eqs_str(a: &Member, o: &str) -> bool { a@ == sb(o@) }
//@ end
//@ inimpl <Member as Display>
open spec fn disp(&self) -> Seq<u8> { self@ }
//@ fn <Member as Display>::fmt
[C05,C02,C09,C14] ensures ret is Ok, final($1)@ == old($1)@ + self@
//@ module value::object_path
//@ use use crate::nm::*;
//@ type ObjectPath view
//@ spec
broadcast use {group_str_eq, group_texts};
impl View for ObjectPath { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { sb(self.0@) } }
//@ end
//@ fn <Input as TryFrom<u8>>::try_from
[C05] ensures match ret { Ok(Input::AlphanumericAndUnderscore) => alnum($1) || $1 == 95, Ok(Input::Slash) => $1 == 47, Err(_) => !(alnum($1) || $1 == 95 || $1 == 47) }
//@ spec
pub open spec fn step(s: State, i: Input) -> Option<State> { match (s, i) {
    (State::Start, Input::AlphanumericAndUnderscore) => None,
    (State::Start, Input::Slash) => Some(State::Root),
    (State::Root, Input::AlphanumericAndUnderscore) => Some(State::Element),
    (State::Root, Input::Slash) => None,
    (State::ElementBegin, Input::AlphanumericAndUnderscore) => Some(State::Element),
    (State::ElementBegin, Input::Slash) => None,
    (State::Element, Input::AlphanumericAndUnderscore) => Some(State::Element),
    (State::Element, Input::Slash) => Some(State::ElementBegin),
} }
pub open spec fn inv(st: State, s: Seq<u8>, n: int) -> bool {
    pprefix(s, n) && match st {
        State::Start => n == 0,
        State::Root => n == 1 && s[0] == 47,
        State::ElementBegin => n > 1 && s[n - 1] == 47,
        State::Element => n > 1 && s[n - 1] != 47,
    }
}
//@ fn State::consume
[C05] ensures match ret { Ok(s) => step(self, $1) == Some(s), Err(_) => step(self, $1) == None::<State> }
//@ fn check
[C05] ensures ret.is_ok() == path_ok($1@)
//@ loop 0 iter it
[C05] invariant inv($let1, $1@, it.index() as int)
invariant it.seq().unref() == $1@
//@ loop 0 begin
assert(path_ok($1@) ==> pchar($1@, it.index() as int));
//@ end
//@ fn <ObjectPath as TryFrom<String>>::try_from
[C05] ensures ret.is_ok() == path_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <ObjectPath as TryFrom<&str>>::try_from
[C05] ensures ret.is_ok() == path_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@)
//@ fn <ObjectPath as TryFrom<&[u8]>>::try_from
[C05] ensures ret.is_ok() == path_ok($1@)
[C05] ensures ret is Ok ==> ret->Ok_0@ == $1@
//@ begin
proof { if path_ok($1@) { path_ascii($1@); } }
//@ fn <String as From<ObjectPath>>::from
[C05] ensures sb(ret@) == $1@
//@ fn <ObjectPath as AsRef<str>>::as_ref
[C05] ensures sb(ret@) == self@
//@ fn <ObjectPath as Default>::default
[C07] ensures ret@ == seq![47u8]
//@ begin
proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); sb1('/'); }
//@ end
//@ fn <ObjectPath as PartialEq<str>>::eq
[C05] ensures ret == (self@ == sb($1@))
//@ begin
broadcast use crate::th::group_texts, crate::th::group_str_eq;
//@ spec
pub open spec fn eqs_str(a: &ObjectPath, o: &str) -> bool { a@ == sb(o@) }
//@ end
//@ fn ObjectPath::append
requires path_ok(old(self)@)
[C07] ensures ret == word(sb($1@))
[C07] ensures path_ok(final(self)@)
[C07] ensures ret ==> elems(final(self)@) == elems(old(self)@).push(sb($1@))
[C07] ensures !ret ==> final(self)@ == old(self)@
//@ begin
proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); sb1('/'); }
let ghost p0 = self@;
//@ rewrite self.0 += __x; ==> self.0.push_str(__x);
//@ loop 0 iter it
invariant it.seq().unref() == sb($1@), self@ == p0, path_ok(p0)
[C07] invariant forall|j: int| 0 <= j < it.index() ==> alnum(#[trigger] sb($1@)[j]) || sb($1@)[j] == 95
//@ loop 0 begin
assert(word(sb($1@)) ==> alnum(sb($1@)[it.index() as int]) || sb($1@)[it.index() as int] == 95);
//@ tail
proof { if sb($1@).len() > 0 { assert(word(sb($1@))); } path_append(p0, sb($1@)); assert(pchar(p0, 0)); if p0.len() == 1 { assert(p0 =~= seq![47u8]); } }
//@ fn ObjectPath::starts_with
requires path_ok(self@), path_ok($1@)
[C07] ensures ret == below(self@, $1@)
//@ fn ObjectPath::strip_prefix_elements
requires path_ok(self@), path_ok($1@)
[C07] ensures match ret { Some(it) => below(self@, $1@) && it@ == elems(self@).subrange(elems($1@).len() as int, elems(self@).len() as int), None => !below(self@, $1@) }
//@ begin
proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); sb1('/'); below_pieces(self@, $1@); }
let ghost ps = pieces(self@, 47);
let ghost pb = pieces($1@, 47);
let ghost mut k = 0int;
//@ loop 0
invariant 0 <= k <= ps.len(), k <= pb.len(), $let1@ == ps.subrange(k, ps.len() as int), $let2@ == pb.subrange(k, pb.len() as int)
[C07] invariant forall|j: int| 0 <= j < k ==> #[trigger] ps[j] == pb[j]
invariant ps == pieces(self@, 47), pb == pieces($1@, 47), path_ok(self@), path_ok($1@), !(self@.len() > 1 && $1@.len() == 1)
decreases $let1@.len()
//@ loop 0 begin
proof { below_pieces(self@, $1@); broadcast use crate::th::sb_eq; }
//@ loop 0 end
proof { assert(ps[k] == pb[k]); k = k + 1; }
//@ end
//@ inimpl <ObjectPath as Display>
open spec fn disp(&self) -> Seq<u8> { self@ }
//@ fn <ObjectPath as Display>::fmt
[C05,C02,C09,C14] ensures ret is Ok, final($1)@ == old($1)@ + self@
//@ module value::bus
//@ use use crate::nm::*;
//@ type Bus view
//@ spec
impl View for Bus { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { match self { Bus::UniqueConnectionName(u) => u@, Bus::WellKnownBusName(w) => w@ } } }
impl Bus {
    /// the variant agrees with the text
    pub open spec fn kind_ok(&self) -> bool { (self is UniqueConnectionName) == (self@.len() > 0 && self@[0] == 58) }
}
//@ fn <Bus as TryFrom<String>>::try_from
[C05] ensures ret.is_ok() == bus_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@) && ret->Ok_0.kind_ok()
//@ fn <Bus as TryFrom<&str>>::try_from
[C05] ensures ret.is_ok() == bus_ok(sb($1@))
[C05] ensures ret is Ok ==> ret->Ok_0@ == sb($1@) && ret->Ok_0.kind_ok()
//@ fn <Bus as TryFrom<&[u8]>>::try_from
[C05] ensures ret.is_ok() == bus_ok($1@)
[C05] ensures ret is Ok ==> ret->Ok_0@ == $1@ && ret->Ok_0.kind_ok()
//@ fn <String as From<Bus>>::from
[C05] ensures sb(ret@) == $1@
//@ fn <Bus as AsRef<str>>::as_ref
[C05] ensures sb(ret@) == self@
//@ inimpl <Bus as Display>
open spec fn disp(&self) -> Seq<u8> { self@ }
//@ fn <Bus as Display>::fmt
[C05,C02,C09,C14] ensures ret is Ok, final($1)@ == old($1)@ + self@
//@ fn <Bus as PartialEq<str>>::eq
[C05] ensures self.kind_ok() ==> ret == (self@ == sb($1@))
//@ begin
broadcast use crate::th::group_texts, crate::th::group_str_eq;
proof { sb1(':'); }
//@ spec
// unspecified eq: what == says about values that cannot be built (a unique name without its colon) is left open
pub open spec fn eqs_str(a: &Bus, o: &str) -> bool { a@ == sb(o@) }
//@ end
