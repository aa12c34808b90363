# Values: their abstract view (all properties on messages)
//@ module value::container
//@ use use crate::vl::*; use crate::mw::*; use crate::ty::*; use crate::value::value_enum::*; use crate::value::type_enum::*;
//@ type Array view
//@ type Struct view
//@ spec
impl View for Array { type V = (Ty, Seq<Val>); open spec fn view(&self) -> (Ty, Seq<Val>) { (tyv(self.type_), vals(self.array@)) } }
impl View for Struct { type V = Seq<Val>; open spec fn view(&self) -> Seq<Val> { vals(self.0@) } }
//@ fn <Struct as TryFrom<Vec<Value>>>::try_from
[C12] ensures match ret { Ok(s) => $1@.len() > 0 && s.0@ == $1@, Err(_) => $1@.len() == 0 }
//@ fn <Struct as AsRef<[Value]>>::as_ref
ensures ret@ == self.0@
//@ fn <Array as AsRef<[Value]>>::as_ref
ensures ret@ == self.array@
//@ fn <Vec<Value> as From<Struct>>::from
ensures ret@ == $1.0@
//@ fn <Vec<Value> as From<Array>>::from
ensures ret@ == $1.array@
//@ fn Array::get_type
ensures *ret == self.type_
//@ fn Array::new
[C12] ensures ret is Ok <==> (forall|i: int| 0 <= i < $1@.len() ==> typed(#[trigger] vals($1@)[i], 0, 0, 0) && ty_of(vals($1@)[i]) == tyv($2))
[C12] ensures ret is Ok ==> ret->Ok_0.type_ == $2 && ret->Ok_0.array@ == $1@
//@ loop 0 iter it
invariant it.seq().unref() == $1@
[C12] invariant forall|i: int| 0 <= i < it.index() ==> typed(#[trigger] vals($1@)[i], 0, 0, 0) && ty_of(vals($1@)[i]) == tyv($2)
//@ loop 0 begin
assert(vals($1@)[it.index() as int] == $pat0@);
//@ module value::value_enum
//@ use use crate::vl::*; use crate::mw::*; use crate::ty::*; use crate::value::type_enum::*;
//@ type Value view
//@ spec
impl View for Value { type V = Val; open spec fn view(&self) -> Val { valv(*self) } }
pub use lem_v::*;
broadcast use {lem_v::valv_array, lem_v::valv_struct, sb_push, sb_nil, axiom_str_len, crate::value::type_enum::lem::tyv_struct};
pub mod lem_v { use super::*;
pub open spec fn valv(v: Value) -> Val decreases v, 0nat { match v {
    Value::Byte(b) => Val::Byte(b), Value::Boolean(b) => Val::Boolean(b), Value::Int16(i) => Val::Int16(i), Value::Uint16(i) => Val::Uint16(i), Value::Int32(i) => Val::Int32(i), Value::Uint32(i) => Val::Uint32(i),
    Value::Int64(i) => Val::Int64(i), Value::Uint64(i) => Val::Uint64(i), Value::Double(f) => Val::Double(f64_bits(f)), Value::String(s) => Val::String(sb(s@)), Value::ObjectPath(p) => Val::ObjectPath(p@), Value::Signature(l) => Val::Signature(tys(l@)),
    Value::Array(a) => Val::Array(tyv(a.type_), vals_to(a.array, a.array@.len())),
    Value::Struct(a) => Val::Struct(vals_to(a.0, a.0@.len())),
    Value::DictEntry(kv) => Val::Dict(Box::new(valv(kv.0)), Box::new(valv(kv.1))),
    Value::Variant(x) => Val::Variant(Box::new(valv(*x))),
    Value::UnixFD(f) => Val::UnixFD(f),
} }
pub open spec fn vals_to(l: Vec<Value>, n: nat) -> Seq<Val> decreases l, n { if n == 0 || n > l@.len() { Seq::empty() } else { vals_to(l, (n - 1) as nat).push(valv(l@[n - 1])) } }
pub open spec fn vals(l: Seq<Value>) -> Seq<Val> { Seq::new(l.len(), |i: int| valv(l[i])) }
pub broadcast proof fn vals_nil() ensures #[trigger] vals(Seq::<Value>::empty()) == Seq::<Val>::empty() { assert(vals(Seq::<Value>::empty()) =~= Seq::<Val>::empty()); }
pub broadcast proof fn vals_push(l: Seq<Value>, x: Value) ensures #[trigger] vals(l.push(x)) == vals(l).push(valv(x)) { assert(vals(l.push(x)) =~= vals(l).push(valv(x))); }
pub broadcast proof fn valv_variant(x: Box<Value>) ensures #[trigger] valv(Value::Variant(x)) == Val::Variant(Box::new(valv(*x))) {}
pub broadcast proof fn vals_two(l: Seq<Value>) requires l.len() == 2 ensures #[trigger] vals(l) == seq![valv(l[0]), valv(l[1])] { assert(vals(l) =~= seq![valv(l[0]), valv(l[1])]); }
pub proof fn vals_to_len(l: Vec<Value>, n: nat) requires n <= l@.len() ensures vals_to(l, n) =~= vals(l@).subrange(0, n as int) decreases n { if n > 0 { vals_to_len(l, (n - 1) as nat); } }
pub broadcast proof fn valv_array(a: Array) ensures #[trigger] valv(Value::Array(a)) == Val::Array(tyv(a.type_), vals(a.array@))
{ vals_to_len(a.array, a.array@.len()); assert(vals(a.array@).subrange(0, a.array@.len() as int) =~= vals(a.array@)); }
pub broadcast proof fn valv_struct(a: Struct) ensures #[trigger] valv(Value::Struct(a)) == Val::Struct(vals(a.0@))
{ vals_to_len(a.0, a.0@.len()); assert(vals(a.0@).subrange(0, a.0@.len() as int) =~= vals(a.0@)); }
}
//@ fn Value::get_type
[C12] ensures ret.is_ok() == typed(self@, 0, 0, 0), ret is Ok ==> tyv(ret->Ok_0) == ty_of(self@)
//@ fn Value::from_value_to_type
requires $1 <= 33, $2 <= 33, $3 <= 33
[C12] ensures ret.is_ok() == typed(self@, $1 as int, $2 as int, $3 as int), ret is Ok ==> tyv(ret->Ok_0) == ty_of(self@)
decreases self@
//@ loop 0 iter it
invariant $1 <= 32, $2 <= 32, $3 <= 32, self@ is Struct, vals(it.seq().unref()) == self@->Struct_0
[C12] invariant tys($let2@) == tys_of(self@->Struct_0.take(it.index() as int)), typed_all(self@->Struct_0.take(it.index() as int), $1 as int, $2 + 1, $3 as int)
//@ loop 0 begin
proof { let l = self@->Struct_0; let i = it.index() as int; assert(l[i] == $pat0@); assert(decreases_to!(self@ => l)); assert(decreases_to!(l => l[i])); tys_take(l, i); typed_push(l, i, $1 as int, $2 + 1, $3 as int); }
//@ loop 0 end
assert(tys($let2@) =~= tys_of(self@->Struct_0.take(it.index() as int)).push(ty_of($pat0@)));
//@ tail
proof { if let Val::Struct(l) = self@ { assert(l.take(l.len() as int) =~= l); } }
//@ before for
proof { let l = self@->Struct_0; assert(l.take(0) =~= Seq::empty()); assert(typed_all(l.take(0), $1 as int, $2 + 1, $3 as int)); assert(tys_of(l.take(0)) =~= Seq::empty()); assert(tys($let2@) =~= Seq::empty()); }
//@ fn Value::to_signature_string
requires $2 <= 33, $3 <= 33, $4 <= 33
[C03,C12] ensures ret.is_ok() == (sigd(self@, $2 as int, $3 as int, $4 as int) && sb(old($1)@).len() + show(ty_of(self@)).len() <= 255)
[C03,C12] ensures ret is Ok ==> sb(final($1)@) == sb(old($1)@) + show(ty_of(self@))
decreases self@
//@ loop 0 iter it
invariant $2 <= 32, $3 <= 32, $4 <= 32, self@ is Struct, vals(it.seq().unref()) == self@->Struct_0
[C03,C12] invariant sb($1@) == sb(old($1)@) + seq![40u8] + show_all(tys_of(self@->Struct_0).take(it.index() as int)), sigd_all(self@->Struct_0.take(it.index() as int), $2 as int, $3 + 1, $4 as int)
//@ loop 0 begin
proof { let l = self@->Struct_0; let i = it.index() as int; assert(l[i] == $pat0@); assert(decreases_to!(self@ => l)); assert(decreases_to!(l => l[i])); tys_take(l, i); tys_at(l); all_at(tys_of(l), i, 0, 0, 0); all_push(tys_of(l).take(i), tys_of(l)[i], 0, 0, 0); sigd_push(l, i, $2 as int, $3 + 1, $4 as int); }
//@ begin
proof { match self@ {
    Val::Array(t, _) => { assert(show(ty_of(self@)) =~= seq![97u8] + show(t)); }
    Val::Dict(k, x) => { assert(show(ty_of(self@)) =~= seq![123u8] + show(ty_of(*k)) + show(ty_of(*x)) + seq![125u8]); }
    _ => {}
} }
//@ before for
proof { let l = self@->Struct_0; assert(l.take(0) =~= Seq::empty()); assert(sigd_all(l.take(0), $2 as int, $3 + 1, $4 as int)); assert(tys_of(l).take(0) =~= Seq::empty()); assert(show_all(tys_of(l).take(0)) =~= Seq::empty()); assert(sb($1@) =~= sb(old($1)@) + seq![40u8] + Seq::empty()); }
//@ before Type::check_len
proof {
    let o = sb(old($1)@);
    if let Val::Struct(l) = self@ { tys_at(l); assert(l.take(l.len() as int) =~= l); assert(tys_of(l).take(l.len() as int) =~= tys_of(l)); }
    assert(sb($1@) =~= o + show(ty_of(self@)));
}
//@ end
# The decoder (C01, C04, C10, C11, C13)
//@ module decode::decoder
//@ use use crate::vl::*;
//@ spec
pub use lem_d::*;
pub mod lem_d { use super::*; use crate::value::Value;
pub open spec fn cx(d: Decoder) -> Cx { Cx { b: d.buf@, f: d.fds@ } }
pub open spec fn st(d: Decoder) -> St { St { o: d.offset as int, m: match d.offset_fds { Some(i) => i as int, None => -1 } } }
pub open spec fn good(d: Decoder) -> bool { d.offset <= d.buf@.len() <= 134217728 && (d.offset_fds is Some ==> d.offset_fds->Some_0 < d.fds@.len()) }
pub open spec fn kept(a: Decoder, b: Decoder) -> bool { a.buf@ == b.buf@ && a.fds@ == b.fds@ }
pub open spec fn ecl(e: DecodeError) -> E { match e { DecodeError::NotEnoughBytes(_, _) => E::Short, _ => E::Bad } }
pub open spec fn res<T>(r: DecodeResult<T>, d: Decoder) -> Result<(T, St), E> { match r { Ok(v) => Ok((v, st(d))), Err(e) => Err(ecl(e)) } }
pub open spec fn ures(r: DecodeResult<()>, d: Decoder) -> Result<St, E> { match r { Ok(_) => Ok(st(d)), Err(e) => Err(ecl(e)) } }
pub open spec fn bres(r: DecodeResult<Bytes>, d: Decoder) -> Result<(Seq<u8>, St), E> { match r { Ok(v) => Ok((v@, st(d))), Err(e) => Err(ecl(e)) } }
pub open spec fn vres(r: DecodeResult<Value>, d: Decoder) -> Result<(Val, St), E> { match r { Ok(v) => Ok((v@, st(d))), Err(e) => Err(ecl(e)) } }
pub open spec fn lres(r: DecodeResult<Vec<Value>>, d: Decoder) -> Result<(Seq<Val>, St), E> { match r { Ok(v) => Ok((crate::value::value_enum::vals(v@), st(d))), Err(e) => Err(ecl(e)) } }
}
//@ fn check_length
[C13] ensures ret@ == if $1@.len() <= 134217728 { $1@ } else { $1@.subrange(0, 134217728) }
//@ begin
assert($1@.subrange(0, $1@.len() as int) =~= $1@);
//@ fn Decoder::new
[C01] ensures good(ret), ret.offset == 0, ret.offset_fds is None, ret.fds@.len() == 0
[C13] ensures ret.buf@ == if $1@.len() <= 134217728 { $1@ } else { $1@.subrange(0, 134217728) }
//@ fn Decoder::new_with_fds
[C01] ensures good(ret), ret.offset == 0, ret.offset_fds is None, ret.fds@ == $2@
[C13] ensures ret.buf@ == if $1@.len() <= 134217728 { $1@ } else { $1@.subrange(0, 134217728) }
//@ fn Decoder::checked_add
ensures match ret { Ok(n) => n == $1 + $2, Err(e) => ecl(e) is Bad && $1 + $2 > usize::MAX }
//@ fn Decoder::read
requires good(*old(self)), $1 <= 0x1_0000_0000
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && ret->Ok_0@.len() == $1 && final(self).offset == old(self).offset + $1
[C04,C11] ensures bres(ret, *final(self)) == take(cx(*old(self)), st(*old(self)), $1 as int)
//@ fn Decoder::algin
requires good(*old(self)), 0 < $1 <= 8
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset <= final(self).offset
[C04,C11] ensures ures(ret, *final(self)) == al(cx(*old(self)), st(*old(self)), $1 as int)
//@ begin
reveal(pad);
proof { small_mod($1 as int); }
//@ loop 0 iter it
invariant forall|i: int| 0 <= i < it.index() ==> #[trigger] it.seq()[i] == 0
invariant kept(*old(self), *self), good(*self), take(cx(*old(self)), st(*old(self)), pad(old(self).offset as int, $1 as int)) == Ok::<(Seq<u8>, St), E>((it.seq(), st(*self)))
//@ loop 0 begin
assert(it.seq()[it.index() as int] == b);
//@ tail
assert(al(cx(*old(self)), st(*old(self)), $1 as int) is Ok);
//@ module decode::value::basic_type
//@ use use crate::vl::*; use crate::ty::*; use crate::nm::*; use crate::decode::decoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*;
//@ spec
broadcast use {f64_size, sb_valid};
//@ fn Decoder::u_8
//@ rewrite __b[__i] ==> __b.index(__i)
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures res(ret, *final(self)) == d_u8(cx(*old(self)), st(*old(self)))
//@ fn Decoder::byte
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures forall|le: bool| #[trigger] d_basic(cx(*old(self)), st(*old(self)), le, Ty::Byte) == vres(ret, *final(self))
//@ fn Decoder::u_32
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures res(ret, *final(self)) == d_u32(cx(*old(self)), st(*old(self)), $1)
//@ fn Decoder::boolean
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::Boolean)
//@ fn Decoder::int_16
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::Int16)
//@ fn Decoder::uint_16
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::Uint16)
//@ fn Decoder::int_32
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::Int32)
//@ fn Decoder::uint_32
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::Uint32)
//@ fn Decoder::unix_fd
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C10] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::UnixFD)
//@ fn Decoder::int_64
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::Int64)
//@ fn Decoder::uint_64
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::Uint64)
//@ fn Decoder::double
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::Double)
//@ fn Decoder::string
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::String)
//@ fn Decoder::object_path
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures vres(ret, *final(self)) == d_basic(cx(*old(self)), st(*old(self)), $1, Ty::ObjectPath)
//@ fn Decoder::signature
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures forall|le: bool| #[trigger] d_basic(cx(*old(self)), st(*old(self)), le, Ty::Signature) == vres(ret, *final(self))
//@ fn Decoder::d_string_bytes
requires good(*old(self)), $1 <= 0xffff_ffff
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures bres(ret, *final(self)) == d_str(cx(*old(self)), st(*old(self)), $1 as int)
//@ fn Decoder::d_u32_string_bytes
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures bres(ret, *final(self)) == d_str32(cx(*old(self)), st(*old(self)), $1)
//@ fn Decoder::d_u8_string_bytes
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures bres(ret, *final(self)) == d_str8(cx(*old(self)), st(*old(self)))
//@ fn Decoder::d_type
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C13] ensures match res(ret, *final(self)) { Ok((t, s)) => Ok((tyv(t), s)), Err(e) => Err(e) } == d_type(cx(*old(self)), st(*old(self)))
//@ fn Decoder::d_signature
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C13] ensures match res(ret, *final(self)) { Ok((t, s)) => Ok((tys(t@), s)), Err(e) => Err(e) } == d_sig(cx(*old(self)), st(*old(self)))
# measures: variants left, then the length of the type's text
//@ module decode::value::container
//@ use use crate::vl::*; use crate::ty::*; use crate::decode::decoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*; use crate::value::container::*;
//@ spec
broadcast use {crate::value::value_enum::lem_v::valv_array, crate::value::value_enum::lem_v::valv_struct};
//@ fn Decoder::variant
requires good(*old(self)), $2 <= 4
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C13] ensures vres(ret, *final(self)) == d_val(cx(*old(self)), st(*old(self)), $1, $2 as int, Ty::Variant)
decreases 5 - $2, 0int, 0int
//@ fn Decoder::d_array
requires good(*old(self)), $2 <= 4
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C13] ensures lres(ret, *final(self)) == d_arr(cx(*old(self)), st(*old(self)), $1, $2 as int, $3@)
decreases 5 - $2, show($3@).len(), 1int
//@ before while
assert(vals($let2@) =~= Seq::<Val>::empty());
assert forall|l: Seq<Val>| #[trigger] (vals($let2@) + l) == l by { assert(vals($let2@) + l =~= l); }
//@ loop 0
invariant good(*self), kept(*old(self), *self), $2 <= 4
invariant d_arr(cx(*old(self)), st(*old(self)), $1, $2 as int, $3@) == match d_items(cx(*self), st(*self), $1, $2 as int, $3@, $let3 as int) { Ok((l, s)) => Ok((vals($let2@) + l, s)), Err(e) => Err(e) }
decreases (if $let3 > self.offset { $let3 - self.offset } else { 0 })
//@ loop 0 begin
let ghost l0 = $let2@;
proof { val_len(cx(*self), st(*self), $1, $2 as int, $3@); }
//@ loop 0 end
proof { assert(vals($let2@) =~= vals(l0).push($let4@)); 
assert forall|l: Seq<Val>| (#[trigger] (vals(l0) + (seq![$let4@] + l))) == vals($let2@) + l by { assert(vals(l0) + (seq![$let4@] + l) =~= vals($let2@) + l); } }
//@ tail
assert(vals($let2@) + Seq::<Val>::empty() =~= vals($let2@));
//@ fn Decoder::array
requires good(*old(self)), $2 <= 4
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C13] ensures vres(ret, *final(self)) == d_val(cx(*old(self)), st(*old(self)), $1, $2 as int, Ty::Array(Box::new($3@)))
decreases 5 - $2, show($3@).len(), 2int
//@ fn Decoder::decode_struct
requires good(*old(self)), $2 <= 4
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C13] ensures vres(ret, *final(self)) == d_val(cx(*old(self)), st(*old(self)), $1, $2 as int, Ty::Struct(tys($3@)))
decreases 5 - $2, show_all(tys($3@)).len() + 1, 5int
//@ fn Decoder::dict_entry
requires good(*old(self)), $2 <= 4
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C13] ensures vres(ret, *final(self)) == d_val(cx(*old(self)), st(*old(self)), $1, $2 as int, Ty::Dict(Box::new($3@), Box::new($4@)))
decreases 5 - $2, show($3@).len() + show($4@).len() + 1, 0int
//@ module decode::value::value_enum
//@ use use crate::vl::*; use crate::ty::*; use crate::decode::decoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*;
//@ spec
broadcast use {crate::value::type_enum::lem::tyv_struct};
//@ fn Decoder::values
requires good(*old(self)), $2 <= 4
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset <= final(self).offset && ($3@.len() > 0 ==> old(self).offset < final(self).offset)
[C04,C13] ensures lres(ret, *final(self)) == d_list(cx(*old(self)), st(*old(self)), $1, $2 as int, tys($3@))
decreases 5 - $2, show_all(tys($3@)).len() + 1, 4int
//@ before for
assert(vals($let1@) =~= Seq::<Val>::empty());
assert forall|l: Seq<Val>| #[trigger] (vals($let1@) + l) == l by { assert(vals($let1@) + l =~= l); }
assert(tys($3@).skip(0) =~= tys($3@));
//@ loop 0 iter it
invariant good(*self), kept(*old(self), *self), $2 <= 4, it.seq().unref() == $3@, old(self).offset <= self.offset, it.index() > 0 ==> old(self).offset < self.offset
invariant d_list(cx(*old(self)), st(*old(self)), $1, $2 as int, tys($3@)) == match d_list(cx(*self), st(*self), $1, $2 as int, tys($3@).skip(it.index() as int)) { Ok((l, s)) => Ok((vals($let1@) + l, s)), Err(e) => Err(e) }
//@ loop 0 begin
let ghost l0 = $let1@;
proof { let l = tys($3@); let i = it.index() as int; all_at(l, i, 0, 0, 0); assert(l.skip(i)[0] == l[i]); assert(l.skip(i).drop_first() =~= l.skip(i + 1)); }
//@ loop 0 end
proof { assert(vals($let1@) =~= vals(l0).push($let2@)); 
assert forall|l: Seq<Val>| (#[trigger] (vals(l0) + (seq![$let2@] + l))) == vals($let1@) + l by { assert(vals(l0) + (seq![$let2@] + l) =~= vals($let1@) + l); } }
//@ tail
proof { assert(tys($3@).skip($3@.len() as int) =~= Seq::<Ty>::empty()); assert(vals($let1@) + Seq::<Val>::empty() =~= vals($let1@)); }
//@ fn Decoder::value
requires good(*old(self)), $2 <= 4
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C13] ensures vres(ret, *final(self)) == d_val(cx(*old(self)), st(*old(self)), $1, $2 as int, $3@)
decreases 5 - $2, show($3@).len(), 0int
//@ begin
hide(d_arr); hide(d_list); hide(d_basic); hide(al); hide(d_type); hide(d_items);

//@ module decode::message::header
//@ use use crate::vl::*; use crate::ty::*; use crate::ms::*; use crate::decode::decoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*; use crate::message::types::*;
//@ spec
broadcast use {crate::value::type_enum::lem::tyv_struct};
//@ fn Decoder::message_header_type
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C08] ensures match res(ret, *final(self)) { Ok((t, s)) => Ok((mtv(t), s)), Err(e) => Err(e) } == d_mt(cx(*old(self)), st(*old(self)))
//@ fn Decoder::message_header_flags
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures match res(ret, *final(self)) { Ok((f, s)) => Ok((f.bits, s)), Err(e) => Err(e) } == d_fl(cx(*old(self)), st(*old(self)))
//@ fn Decoder::message_header_is_le
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04] ensures res(ret, *final(self)) == d_le(cx(*old(self)), st(*old(self)))
//@ fn Decoder::message_header_fields
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C08] ensures match res(ret, *final(self)) { Ok(((l, f), s)) => Ok(((match l { Some(l) => Some(tys(l@)), None => None }, f@), s)), Err(e) => Err(e) } == d_fields(cx(*old(self)), st(*old(self)), $1)
//@ after let signature
proof { assert(tys(seq![Type::Byte, Type::Variant]) =~= seq![Ty::Byte, Ty::Variant]); assert($let1@ == field_ty()); }
//@ fn Decoder::message_header
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C08] ensures match res(ret, *final(self)) { Ok(((h, p), s)) => Ok(((h@, match p { Some((n, l)) => Some((n, tys(l@))), None => None }), s)), Err(e) => Err(e) } == d_head(cx(*old(self)), st(*old(self)))
//@ begin
hide(d_fields); hide(d_u32); hide(d_u8); hide(required);
//@ module decode::message::message_struct
//@ use use crate::vl::*; use crate::ty::*; use crate::ms::*; use crate::decode::decoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*; use crate::message::types::*; use crate::message::message_struct::*;
//@ spec
broadcast use {crate::value::value_enum::lem_v::vals_nil};
//@ fn Decoder::message_body
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset <= final(self).offset
[C04,C11] ensures lres(ret, *final(self)) == d_body(cx(*old(self)), st(*old(self)), $1, $2, tys($3@))
//@ fn Decoder::message
requires good(*old(self))
[C01] ensures kept(*old(self), *final(self)), ret is Ok ==> good(*final(self)) && old(self).offset < final(self).offset
[C04,C08,C11,C13] ensures match res(ret, *final(self)) { Ok((m, s)) => Ok((m@, s)), Err(e) => Err(e) } == d_msg(cx(*old(self)), st(*old(self)))
//@ begin
hide(d_head); hide(d_body);
//@ fn Message::decode
[C04,C08,C11,C13] ensures match ret { Ok((m, n)) => Ok((m@, n as int)), Err(e) => Err(ecl(e)) } == match d_msg(Cx { b: cap($1@), f: Seq::empty() }, start()) { Ok((m, s)) => Ok((m, s.o)), Err(e) => Err(e) }
//@ after let mut decoder
proof { assert($let1.fds@ =~= Seq::<i32>::empty()); }
//@ fn Message::decode_with_fds
[C04,C08,C10,C11,C13] ensures match ret { Ok((m, n, k)) => Ok((m@, n as int, k as int)), Err(e) => Err(ecl(e)) } == match d_msg(Cx { b: cap($1@), f: $2@ }, start()) { Ok((m, s)) => Ok((m, s.o, s.m + 1)), Err(e) => Err(e) }
//@ begin
proof { vstd::slice::axiom_spec_len($2); }
