# The encoder (C02, C03, C10)
//@ module encode::encoder
//@ use use crate::vl::*; use crate::mw::*;
//@ spec
pub use lem_e::*;
pub mod lem_e { use super::*;
/// x was appended, the descriptors are as before
pub open spec fn put(a: Encoder, b: Encoder, x: Seq<u8>) -> bool { b.buf@ == a.buf@ + x && b.fds@ == a.fds@ }
/// v was appended (ok), or has no marshalling
pub open spec fn wrote(a: Encoder, b: Encoder, ok: bool, le: bool, v: Val) -> bool {
    let (w, g) = ix_val(a.fds@, v);
    match m_val(a.buf@.len() as int, le, w) { Some(x) => ok && b.buf@ == a.buf@ + x && b.fds@ == g, None => !ok }
}
}
//@ fn Encoder::new
[C03] ensures ret.buf@ == Seq::<u8>::empty(), ret.fds@ == Seq::<i32>::empty()
//@ fn Encoder::algin
requires 0 < $1 <= 8
[C03] ensures put(*old(self), *final(self), zs(pad(old(self).buf@.len() as int, $1 as int)))
//@ begin
proof { reveal(pad); small_mod($1 as int); }
//@ loop 0 iter it
invariant self.fds@ == old(self).fds@
[C03] invariant self.buf@ == old(self).buf@ + zs(it.index() as int)
//@ loop 0 end
assert(zs(it.index() as int).push(0u8) =~= zs(it.index() + 1));
assert((old(self).buf@ + zs(it.index() as int)).push(0u8) =~= old(self).buf@ + zs(it.index() as int).push(0u8));
//@ before for
assert(old(self).buf@ + zs(0) =~= old(self).buf@);
//@ tail
assert(old(self).buf@ + zs(0) =~= old(self).buf@);
//@ module encode::value::basic_type
//@ use use crate::vl::*; use crate::ty::*; use crate::mw::*; use crate::nm::*; use crate::encode::encoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*;
//@ spec
broadcast use {f64_size, cat_assoc, axiom_str_len, crate::bytes::axiom_buf_len};
//@ fn Encoder::byte
[C03] ensures put(*old(self), *final(self), seq![$1])
//@ tail
assert(self.buf@ =~= old(self).buf@ + seq![$1]);
//@ fn Encoder::boolean
[C03] ensures put(*old(self), *final(self), fix(old(self).buf@.len() as int, 4, wr_u32(if $1 { 1u32 } else { 0u32 }, $2)))
//@ fn Encoder::int_16
[C03] ensures put(*old(self), *final(self), fix(old(self).buf@.len() as int, 2, wr_i16($1, $2)))
//@ fn Encoder::uint_16
[C03] ensures put(*old(self), *final(self), fix(old(self).buf@.len() as int, 2, wr_u16($1, $2)))
//@ fn Encoder::int_32
[C03] ensures put(*old(self), *final(self), fix(old(self).buf@.len() as int, 4, wr_i32($1, $2)))
//@ fn Encoder::uint_32
[C03] ensures put(*old(self), *final(self), fix(old(self).buf@.len() as int, 4, wr_u32($1, $2)))
//@ fn Encoder::int_64
[C03] ensures put(*old(self), *final(self), fix(old(self).buf@.len() as int, 8, wr_i64($1, $2)))
//@ fn Encoder::uint_64
[C03] ensures put(*old(self), *final(self), fix(old(self).buf@.len() as int, 8, wr_u64($1, $2)))
//@ fn Encoder::double
[C03] ensures put(*old(self), *final(self), fix(old(self).buf@.len() as int, 8, wr_u64(f64_bits($1), $2)))
//@ fn Encoder::i_32
[C03] ensures put(*old(self), *final(self), wr_i32($1, $2))
//@ fn Encoder::u_32
[C03] ensures put(*old(self), *final(self), wr_u32($1, $2))
//@ fn Encoder::set_uint_32
requires $2 + 4 <= old(self).buf@.len()
[C03] ensures final(self).fds@ == old(self).fds@, final(self).buf@ == old(self).buf@.subrange(0, $2 as int) + wr_u32($1, $3) + old(self).buf@.subrange($2 + 4, old(self).buf@.len() as int)
//@ rewrite self.buf[__all_i] = __e[__all_j]; ==> self.buf.set(__all_i, __e[__all_j]);
//@ rewrite __u.to_le_bytes() ==> crate::th::to_le(__u)
//@ rewrite __u.to_be_bytes() ==> crate::th::to_be(__u)
//@ tail
assert(self.buf@ =~= old(self).buf@.subrange(0, $2 as int) + wr_u32($1, $3) + old(self).buf@.subrange($2 + 4, old(self).buf@.len() as int));
//@ fn Encoder::unix_fd
[C03,C10] ensures wrote(*old(self), *final(self), true, $2, Val::UnixFD($1))
//@ rewrite self.fds.iter().position(|i| *i == __d) ==> crate::th::position(&self.fds, __d)
//@ tail
proof {
    let i = $let1;
    let f = old(self).fds@;
    assert((i as i32) as u32 == (i as u32)) by (bit_vector);
    find_prop(f, $1);
    find_first(f, $1, i as int);
}
//@ fn Encoder::string
[C03] ensures put(*old(self), *final(self), m_str(old(self).buf@.len() as int, $2, sb($1@)))
//@ tail
assert(self.buf@ =~= old(self).buf@ + m_str(old(self).buf@.len() as int, $2, sb($1@)));
//@ fn Encoder::object_path
[C03] ensures put(*old(self), *final(self), m_str(old(self).buf@.len() as int, $2, $1@))
//@ fn Encoder::signature
[C03] ensures ret.is_ok() == sig_ok(tys($1@))
[C03] ensures ret is Ok ==> put(*old(self), *final(self), m_sig(tys($1@)))
//@ tail
assert(self.buf@ =~= old(self).buf@ + m_sig(tys($1@)));
//@ end
//@ module encode::value::value_enum
//@ use use crate::vl::*; use crate::ty::*; use crate::mw::*; use crate::encode::encoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*;
//@ spec
broadcast use {lem_v::valv_array, lem_v::valv_struct};
//@ fn Encoder::value
[C03,C10] ensures wrote(*old(self), *final(self), ret.is_ok(), $2, $1@)
decreases $1@, 1int
//@ module encode::value::container
//@ use use crate::vl::*; use crate::ty::*; use crate::mw::*; use crate::encode::encoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*; use crate::value::container::*;
//@ spec
broadcast use {crate::bytes::axiom_buf_len, lem_v::valv_array, lem_v::valv_struct};
//@ fn Encoder::array
[C03,C10] ensures wrote(*old(self), *final(self), ret.is_ok(), $2, Val::Array(tyv($1.type_), vals($1.array@)))
decreases Val::Array(tyv($1.type_), vals($1.array@)), 0int
//@ begin
hide(going);
proof { pad_bound(old(self).buf@.len() as int, 4); pad_bound(old(self).buf@.len() + pad(old(self).buf@.len() as int, 4) + 4, align(tyv($1.type_)) as int); }
//@ before for
let ghost l = vals($1.array@);
let ghost b2 = self.buf@;
let ghost mut acc = Seq::<u8>::empty();
proof { going_start(b2.len() as int, $2, old(self).fds@, l); assert(b2 + acc =~= b2);
    assert(b2.subrange(0, $let1 as int) =~= old(self).buf@ + zs(pad(old(self).buf@.len() as int, 4)));
    assert(b2.subrange($let1 + 4, b2.len() as int) =~= zs(pad($let1 + 4, align(tyv($1.type_)) as int))); }
//@ loop 0 iter it
invariant it.seq().unref() == $1.array@, l == vals($1.array@)
invariant $let2 == b2.len(), $let1 == old(self).buf@.len() + pad(old(self).buf@.len() as int, 4), $let1 + 4 <= b2.len(), b2.len() == $let1 + 4 + pad($let1 + 4, align(tyv($1.type_)) as int)
[C03] invariant b2.subrange(0, $let1 as int) == old(self).buf@ + zs(pad(old(self).buf@.len() as int, 4)), b2.subrange($let1 + 4, b2.len() as int) == zs(pad($let1 + 4, align(tyv($1.type_)) as int))
[C03,C10] invariant self.buf@ == b2 + acc, going(b2.len() as int, $2, old(self).fds@, l, acc, self.fds@, it.index() as int)
//@ loop 0 begin
proof { let i = it.index() as int; assert(l[i] == $pat0@); let v = Val::Array(tyv($1.type_), l); assert(v->Array_1 == l); assert(decreases_to!(v => v->Array_1)); assert(decreases_to!(l => l[i])); going_step(b2.len() as int, $2, old(self).fds@, l, acc, self.fds@, i); }
let ghost a0 = acc;
let ghost f0 = self.fds@;
//@ loop 0 end
proof { let x = m_val((b2.len() + a0.len()) as int, $2, ix_val(f0, $pat0@).0)->Some_0; acc = a0 + x; assert(self.buf@ =~= b2 + acc); }
//@ after for
proof { going_end(b2.len() as int, $2, old(self).fds@, l, acc, self.fds@); }
//@ tail
proof {
    let p = old(self).buf@.len() as int; let t = tyv($1.type_);
    array_tail(old(self).buf@, zs(pad(p, 4)), b2, zs(pad(p + pad(p, 4) + 4, align(t) as int)), acc, wr_u32(acc.len() as u32, $2), $let1 as int);
}
//@ fn Encoder::encode_struct
[C03,C10] ensures wrote(*old(self), *final(self), ret.is_ok(), $2, Val::Struct(vals($1.0@)))
decreases Val::Struct(vals($1.0@)), 0int
//@ begin
proof { pad_bound(old(self).buf@.len() as int, 8); }
//@ before for
let ghost l = vals($1.0@);
let ghost b2 = self.buf@;
let ghost mut acc = Seq::<u8>::empty();
proof { going_start(b2.len() as int, $2, old(self).fds@, l); assert(b2 + acc =~= b2); }
//@ loop 0 iter it
invariant it.seq().unref() == $1.0@, l == vals($1.0@), b2 == old(self).buf@ + zs(pad(old(self).buf@.len() as int, 8)), pad(old(self).buf@.len() as int, 8) >= 0
[C03,C10] invariant self.buf@ == b2 + acc, going(b2.len() as int, $2, old(self).fds@, l, acc, self.fds@, it.index() as int)
//@ loop 0 begin
proof { let i = it.index() as int; assert(l[i] == $pat0@); let v = Val::Struct(l); assert(v->Struct_0 == l); assert(decreases_to!(v => v->Struct_0)); assert(decreases_to!(l => l[i])); going_step(b2.len() as int, $2, old(self).fds@, l, acc, self.fds@, i); }
let ghost a0 = acc;
let ghost f0 = self.fds@;
//@ loop 0 end
proof { let x = m_val((b2.len() + a0.len()) as int, $2, ix_val(f0, $pat0@).0)->Some_0; acc = a0 + x; assert(self.buf@ =~= b2 + acc); }
//@ tail
proof {
    going_end(b2.len() as int, $2, old(self).fds@, l, acc, self.fds@);
    assert(self.buf@ =~= old(self).buf@ + (zs(pad(old(self).buf@.len() as int, 8)) + acc));
}
//@ fn Encoder::dict_entry
[C03,C10] ensures wrote(*old(self), *final(self), ret.is_ok(), $2, Val::Dict(Box::new($1.0@), Box::new($1.1@)))
decreases Val::Dict(Box::new($1.0@), Box::new($1.1@)), 0int
//@ begin
let ghost v = Val::Dict(Box::new($1.0@), Box::new($1.1@));
let ghost o = self.buf@;
proof { pad_bound(o.len() as int, 8); assert(decreases_to!(v => *v->Dict_0)); assert(decreases_to!(v => *v->Dict_1)); }
//@ tail
proof {
    let q = o.len() + pad(o.len() as int, 8);
    let (k, g) = ix_val(old(self).fds@, $1.0@); let (x, h) = ix_val(g, $1.1@);
    if tail__ is Ok { let a = m_val(q, $2, k)->Some_0; let b = m_val(q + a.len(), $2, x)->Some_0; assert(self.buf@ =~= o + (zs(pad(o.len() as int, 8)) + a + b)); }
}
//@ fn Encoder::variant
[C03,C10] ensures wrote(*old(self), *final(self), ret.is_ok(), $2, Val::Variant(Box::new($1@)))
decreases Val::Variant(Box::new($1@)), 0int
//@ begin
let ghost o = self.buf@;
proof {
    let v = Val::Variant(Box::new($1@)); assert(decreases_to!(v => *v->Variant_0));
    one_sig(ty_of($1@)); ix_ty(old(self).fds@, $1@);
    if sig_ok(seq![ty_of($1@)]) { typed_of($1@, 0, 0, 0); }
}
//@ before self.signature
assert(tys($let2@) =~= seq![ty_of($1@)]);
//@ tail
proof {
    let t = seq![ty_of($1@)]; let w = ix_val(old(self).fds@, $1@).0;
    if tail__ is Ok { let b = m_val((o.len() + m_sig(t).len()) as int, $2, w)->Some_0; assert(self.buf@ =~= o + (m_sig(t) + b)); }
}
//@ end
//@ module encode::message::header
//@ use use crate::vl::*; use crate::ty::*; use crate::mw::*; use crate::ms::*; use crate::encode::encoder::*; use crate::value::type_enum::*; use crate::value::value_enum::*; use crate::value::container::*; use crate::message::types::*;
//@ spec
pub open spec fn body_view(b: Option<(u32, Vec<Type>)>) -> Option<(u32, Seq<Ty>)> { match b { Some((n, l)) => Some((n, tys(l@))), None => None } }
//@ fn ARRAY_TYPE
[C03] ensures ret@ == field_ty()
//@ rewrite __x.try_into() ==> Type::try_from(__x)
//@ begin
proof {
    let t = field_ty(); let l = seq![Ty::Byte, Ty::Variant];
    reveal_strlit("(yv)"); assert("(yv)"@ =~= seq!['('].push('y').push('v').push(')')); broadcast use {sb_push}; sb1('(');
    let e = Seq::<Ty>::empty(); let m = seq![Ty::Variant];
    assert(l.drop_first() =~= m); assert(m.drop_first() =~= e); assert(l[0] == Ty::Byte && m[0] == Ty::Variant);
    assert(show(Ty::Byte) == seq![121u8]); assert(show(Ty::Variant) == seq![118u8]);
    assert(show_all(e) =~= Seq::empty());
    assert(show_all(m) =~= seq![118u8]);
    assert(show_all(l) =~= seq![121u8, 118u8]);
    assert(show(t) =~= seq![40u8, 121u8, 118u8, 41u8]);
    assert(sb("(yv)"@) =~= show(t));
    assert(wf_all(e) && deep_all(e, 0, 1, 0)); assert(wf(Ty::Variant) && deep(Ty::Variant, 0, 1, 0)); assert(wf_all(m) && deep_all(m, 0, 1, 0)); assert(wf(Ty::Byte) && deep(Ty::Byte, 0, 1, 0)); assert(wf_all(l) && deep_all(l, 0, 1, 0)); assert(wf(t)); assert(deep(t, 0, 0, 0)); assert(ty_ok(t));
    assert forall|u: Ty| ty_ok(u) && show(u) == show(t) implies u == t by { let x = show(t); assert(x.subrange(0, x.len() as int) =~= x); rd_complete(x, 0, u, 0, 0, 0); rd_complete(x, 0, t, 0, 0, 0); }
}
//@ fn Encoder::message_header
//@ rewrite fields.into() ==> Vec::<Value>::from(fields)
requires old(self).buf@.len() == 0
[C02,C03,C08,C10] ensures match m_head($1@, old(self).fds@.len(), body_view($2)) { Some(x) => ret is Ok && final(self).buf@ == x && final(self).fds@ == old(self).fds@, None => ret is Err }
//@ begin
hide(m_val); hide(field_vals); hide(ix_val); hide(ix_list); hide(tys); hide(vals); hide(ty_ok); hide(show);
let ghost h = $1@;
let ghost k = old(self).fds@.len();
let ghost bv = body_view($2);
let ghost n = match bv { Some((n, _)) => n, None => 0 };
let ghost sig = match bv { Some((_, l)) => Some(l), None => None };
//@ before self.u_32
proof { assert($let2@ == sent(h.f, sig, k)); assert($let4 == n); }
//@ before self.array
proof {
    assert(self.buf@ =~= m_first(h, n)); assert(self.buf@.len() == 12); assert(self.fds@ == old(self).fds@);
    ix_arr(self.fds@, sent(h.f, sig, k));
}
//@ module encode::message::message_struct
//@ use use crate::vl::*; use crate::ty::*; use crate::mw::*; use crate::ms::*; use crate::encode::encoder::*; use crate::encode::message::header::*; use crate::value::type_enum::*; use crate::value::value_enum::*;
//@ fn Encoder::message
requires old(self).buf@.len() == 0
[C02,C03,C10] ensures match m_msg($1@) { Some((x, g)) => ret is Ok && final(self).buf@ == x && final(self).fds@ == g, None => ret is Err }
//@ begin
hide(m_val); hide(m_list); hide(ix_val); hide(ix_list); hide(m_head); hide(sig_ok); hide(show); hide(show_all); hide(tys_of); hide(going); hide(sigd);
let ghost l = vals($1.body@);
let ghost t = tys_of(l);
let ghost le = $1.header.is_le;
proof { going_start(0, le, Seq::empty(), l); sig_start(l); sig_end(l); }
//@ before for
let ghost mut acc = Seq::<u8>::empty();
//@ loop 0 iter it
invariant it.seq().unref() == $1.body@, l == vals($1.body@), t == tys_of(l), le == $1.header.is_le, $let1 == le, l.len() == $1.body@.len(), t.len() == l.len(), $1@.body == l, $1@.h.le == le
invariant self.buf@ == old(self).buf@, self.buf@.len() == 0
[C03] invariant sb($let3@) == show_all(t.take(it.index() as int))
[C03,C10] invariant $let2.buf@ == acc, going(0, le, Seq::empty(), l, acc, $let2.fds@, it.index() as int)
//@ loop 0 begin
proof { let i = it.index() as int; assert(l[i] == $pat0@); going_step(0, le, Seq::empty(), l, acc, $let2.fds@, i); sig_step(l, i); }
let ghost a0 = acc;
let ghost f0 = $let2.fds@;
//@ loop 0 end
proof { acc = $let2.buf@; }
//@ before let body_length
proof {
    going_end(0, le, Seq::empty(), l, acc, self.fds@);
    if l.len() == 0 { no_body(Seq::empty(), 0, le, l); }
    assert(sb($let3@) == show_all(t));
    assert forall|k: Seq<Ty>| sig_ok(k) && show_all(k) == show_all(t) implies k == t by { sig_same(t, k); }
}
//@ fn Message::encode
[C02,C03] ensures match m_msg(self@) { Some((x, g)) => ret is Ok && ret->Ok_0@ == x, None => ret is Err }
//@ fn Message::encode_with_fds
[C02,C03,C10] ensures match m_msg(self@) { Some((x, g)) => ret is Ok && ret->Ok_0.0@ == x && ret->Ok_0.1@ == g, None => ret is Err }
//@ end
