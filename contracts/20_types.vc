# Signatures (C06, the signature limits of C13)
//@ module value::type_enum
//@ use use crate::ty::*;
//@ type Type view
//@ spec
broadcast use {axiom_str_len, sb_push, sb_nil, lem::tyv_struct};
pub use lem::*;
impl View for Type { type V = Ty; open spec fn view(&self) -> Ty { tyv(*self) } }
pub mod lem { use super::*;
/// the abstract type
pub open spec fn tyv(t: Type) -> Ty decreases t, 0nat {
    match t {
        Type::Byte => Ty::Byte, Type::Boolean => Ty::Boolean, Type::Int16 => Ty::Int16, Type::Uint16 => Ty::Uint16, Type::Int32 => Ty::Int32, Type::Uint32 => Ty::Uint32,
        Type::Int64 => Ty::Int64, Type::Uint64 => Ty::Uint64, Type::UnixFD => Ty::UnixFD, Type::Double => Ty::Double, Type::String => Ty::String,
        Type::ObjectPath => Ty::ObjectPath, Type::Variant => Ty::Variant, Type::Signature => Ty::Signature,
        Type::Array(e) => Ty::Array(Box::new(tyv(*e))),
        Type::Struct(l) => Ty::Struct(tys_to(l, l@.len())),
        Type::DictEntry(kv) => Ty::Dict(Box::new(tyv(kv.0)), Box::new(tyv(kv.1))),
    }
}
pub open spec fn tys_to(l: Vec<Type>, n: nat) -> Seq<Ty> decreases l, n {
    if n == 0 || n > l@.len() { Seq::empty() } else { tys_to(l, (n - 1) as nat).push(tyv(l@[n - 1])) }
}
pub open spec fn tys(l: Seq<Type>) -> Seq<Ty> { Seq::new(l.len(), |i: int| tyv(l[i])) }
pub proof fn tys_to_len(l: Vec<Type>, n: nat) requires n <= l@.len() ensures tys_to(l, n) =~= tys(l@).subrange(0, n as int) decreases n
{ if n > 0 { tys_to_len(l, (n - 1) as nat); } }
pub broadcast proof fn tyv_struct(l: Vec<Type>) ensures #[trigger] tyv(Type::Struct(l)) == Ty::Struct(tys(l@))
{ tys_to_len(l, l@.len()); assert(tys(l@).subrange(0, l@.len() as int) =~= tys(l@)); }
}
//@ fn get_char_at
[C06] ensures match ret { Ok(c) => $2 < $1@.len() && c == $1@[$2 as int], Err(_) => $2 >= $1@.len() }
//@ fn next_type
requires $3 <= 33, $4 <= 33, $5 <= 33
requires $1@.len() <= 255, *old($2) <= 255
[C06] ensures match ret { Ok(t) => rd($1@, *old($2) as int, $3 as int, $4 as int, $5 as int) == Some((tyv(t), *final($2) as int)), Err(_) => rd($1@, *old($2) as int, $3 as int, $4 as int, $5 as int) is None }
[C06] ensures ret is Ok ==> *old($2) < *final($2) <= $1@.len()
decreases $1@.len() + 1 - *old($2)
//@ begin
proof { if $1@.len() > *old($2) { rd_sound($1@, *old($2) as int, $3 as int, $4 as int, $5 as int); } }
//@ loop 0
[C06] invariant rd($1@, *old($2) as int, $3 as int, $4 as int, $5 as int) == match rd_struct($1@, *$2 as int, $3 as int, $4 + 1, $5 as int) { Some((l, k)) => Some((Ty::Struct(tys($let5@) + l), k)), None => None }
invariant $3 <= 32, $4 <= 32, $5 <= 32, $1@.len() <= 255, *old($2) < *$2 <= $1@.len(), $let1 == *old($2)
decreases $1@.len() - *$2
//@ loop 0 begin
let ghost t0 = $let5@;
let ghost o0 = *$2;
assert(tys(t0) + Seq::<Ty>::empty() =~= tys(t0));
//@ loop 0 end
assert(tys($let5@) =~= tys(t0).push(tyv($let6)));
assert forall|l: Seq<Ty>| (#[trigger] (tys(t0) + (seq![tyv($let6)] + l))) == tys($let5@) + l by { assert(tys(t0) + (seq![tyv($let6)] + l) =~= tys($let5@) + l); }
//@ before loop
assert(tys($let5@) =~= seq![tyv($let4)]);
//@ end
//@ fn Type::check_depth
[C06,C13] ensures ret.is_ok() == ($1 <= 32 && $2 <= 32 && $3 <= 32)
//@ fn Type::get_alignment
[C06] ensures ret == align(self@)
//@ fn Type::check_len
[C06,C13] ensures ret.is_ok() == (sb($1@).len() <= 255)
//@ fn Type::from_bytes_to_signature
[C06,C13] ensures ret is Ok <==> (exists|l: Seq<Ty>| sig_ok(l) && $1@ == show_all(l))
[C06] ensures ret is Ok ==> sig_ok(tys(ret->Ok_0@)) && show_all(tys(ret->Ok_0@)) == $1@
[C06] ensures match ret { Ok(l) => rd_all($1@, 0) == Some(tys(l@)) && $1@.len() <= 255, Err(_) => rd_all($1@, 0) is None || $1@.len() > 255 }
//@ begin
proof { sig_iff($1@); }
//@ before while
assert(tys($let2@) =~= Seq::<Ty>::empty());
assert forall|l: Seq<Ty>| #[trigger] (Seq::<Ty>::empty() + l) == l by { assert(Seq::<Ty>::empty() + l =~= l); }
assert(Seq::<Ty>::empty() + rd_all($1@, 0)->Some_0 =~= rd_all($1@, 0)->Some_0);
//@ loop 0
[C06] invariant rd_all($1@, 0) == match rd_all($1@, $let3 as int) { Some(l) => Some(tys($let2@) + l), None => None }
invariant $let1 == $1@.len(), $1@.len() <= 255, $let3 <= $1@.len()
decreases $1@.len() - $let3
//@ loop 0 begin
proof { sig_iff($1@); }
let ghost t0 = $let2@;
//@ loop 0 end
assert(tys($let2@) =~= tys(t0).push(tyv($let4)));
assert forall|l: Seq<Ty>| (#[trigger] (tys(t0) + (seq![tyv($let4)] + l))) == tys($let2@) + l by { assert(tys(t0) + (seq![tyv($let4)] + l) =~= tys($let2@) + l); }
//@ tail
assert(tys($let2@) + Seq::<Ty>::empty() =~= tys($let2@));
//@ end
//@ fn Type::from_string_to_signature
[C06,C13] ensures ret is Ok <==> (exists|l: Seq<Ty>| sig_ok(l) && sb($1@) == show_all(l))
[C06] ensures ret is Ok ==> sig_ok(tys(ret->Ok_0@)) && show_all(tys(ret->Ok_0@)) == sb($1@)
//@ fn <Type as TryFrom<&[u8]>>::try_from
[C06] ensures match ret { Ok(t) => $1@.len() <= 255 && rd($1@, 0, 0, 0, 0) == Some((tyv(t), $1@.len() as int)), Err(_) => $1@.len() > 255 || rd($1@, 0, 0, 0, 0) is None || rd($1@, 0, 0, 0, 0)->Some_0.1 != $1@.len() }
[C06] ensures ret is Ok <==> (exists|t: Ty| ty_ok(t) && show(t).len() <= 255 && $1@ == show(t))
[C06] ensures ret is Ok ==> ty_ok(ret->Ok_0@) && show(ret->Ok_0@) == $1@
//@ begin
proof {
    rd_sound($1@, 0, 0, 0, 0);
    assert($1@.subrange(0, $1@.len() as int) =~= $1@);
    if exists|t: Ty| ty_ok(t) && show(t).len() <= 255 && $1@ == show(t) {
        let t = choose|t: Ty| ty_ok(t) && show(t).len() <= 255 && $1@ == show(t);
        rd_complete($1@, 0, t, 0, 0, 0);
    }
}
//@ fn <Type as TryFrom<&str>>::try_from
[C06] ensures ret is Ok <==> (exists|t: Ty| ty_ok(t) && show(t).len() <= 255 && sb($1@) == show(t))
[C06] ensures ret is Ok ==> ty_ok(ret->Ok_0@) && show(ret->Ok_0@) == sb($1@)
//@ fn Type::from_signature_to_string
[C06] ensures ret.is_ok() == sig_ok(tys($1@))
[C06] ensures ret is Ok ==> sb(ret->Ok_0@) == show_all(tys($1@))
//@ loop 0 iter it
[C06] invariant sb($let1@) == show_all(tys($1@).take(it.index() as int)), all_ok(tys($1@).take(it.index() as int)), show_all(tys($1@).take(it.index() as int)).len() <= 255
invariant it.seq().unref() == $1@
//@ loop 0 begin
proof { let l = tys($1@); let i = it.index() as int; all_at(l, i, 0, 0, 0); all_push(l.take(i), l[i], 0, 0, 0); }
//@ before for
proof { assert(tys($1@).take(0) =~= Seq::<Ty>::empty()); assert(all_ok(Seq::<Ty>::empty()) && show_all(Seq::<Ty>::empty()).len() == 0); }
//@ tail
proof { assert(tys($1@).take($1@.len() as int) =~= tys($1@)); }
//@ fn Type::try_to_string
requires $2 <= 33, $3 <= 33, $4 <= 33
[C06,C13] ensures ret.is_ok() == (wf(self@) && deep(self@, $2 as int, $3 as int, $4 as int) && sb(old($1)@).len() + show(self@).len() <= 255)
[C06] ensures ret is Ok ==> sb(final($1)@) == sb(old($1)@) + show(self@)
decreases self
//@ loop 0 iter it
invariant $2 <= 32, $3 <= 32, $4 <= 32, it.seq().unref() == $src0@, *self == Type::Struct(*$src0)
[C06] invariant sb($1@) == sb(old($1)@) + seq![40u8] + show_all(tys($src0@).take(it.index() as int))
[C06] invariant wf_all(tys($src0@).take(it.index() as int)), deep_all(tys($src0@).take(it.index() as int), $2 as int, $3 + 1, $4 as int)
//@ loop 0 begin
assert(decreases_to!(*self => self->Struct_0)); assert(self->Struct_0 == *$src0); assert(decreases_to!(*$src0 => $src0@[it.index() as int])); assert(decreases_to!(*self => *$pat0));
proof { let l = tys($src0@); let i = it.index() as int; all_at(l, i, $2 as int, $3 + 1, $4 as int); all_push(l.take(i), l[i], $2 as int, $3 + 1, $4 as int); }
//@ before Type::check_len
proof {
    let o = sb(old($1)@);
    if let Ty::Struct(l) = self@ { assert(l.take(l.len() as int) =~= l); }
    assert(sb($1@) =~= o + show(self@));
}
//@ end
//@ inimpl <Type as Display>
open spec fn disp(&self) -> Seq<u8> { show(self@) }
//@ fn <Type as Display>::fmt
[C06] ensures ret is Ok, final($1)@ == old($1)@ + show(self@)
decreases self
//@ begin
proof { lits(); broadcast use crate::th::sb_nil; }
//@ loop 0 iter it
invariant it.seq().unref() == $src0@, *self == Type::Struct(*$src0)
[C06] invariant $1@ == old($1)@ + seq![40u8] + show_all(tys($src0@).take(it.index() as int))
//@ loop 0 begin
assert(decreases_to!(*self => self->Struct_0)); assert(self->Struct_0 == *$src0); assert(decreases_to!(*$src0 => $src0@[it.index() as int])); assert(decreases_to!(*self => *$pat0));
proof { let l = tys($src0@); let i = it.index() as int; all_at(l, i, 0, 0, 0); all_push(l.take(i), l[i], 0, 0, 0); }
//@ tail
proof {
    let o = old($1)@;
    if let Ty::Struct(l) = self@ { assert(l.take(l.len() as int) =~= l); }
    assert($1@ =~= o + show(self@));
}
//@ spec
/// the one-letter texts
pub proof fn lits() ensures sb("y"@) == seq![121u8], sb("b"@) == seq![98u8], sb("n"@) == seq![110u8], sb("q"@) == seq![113u8], sb("i"@) == seq![105u8], sb("u"@) == seq![117u8], sb("x"@) == seq![120u8], sb("t"@) == seq![116u8],
    sb("h"@) == seq![104u8], sb("d"@) == seq![100u8], sb("s"@) == seq![115u8], sb("o"@) == seq![111u8], sb("v"@) == seq![118u8], sb("g"@) == seq![103u8], sb("a"@) == seq![97u8], sb("("@) == seq![40u8], sb(")"@) == seq![41u8], sb("{"@) == seq![123u8], sb("}"@) == seq![125u8]
{
    reveal_strlit("y"); assert("y"@ =~= seq!['y']); sb1('y');
    reveal_strlit("b"); assert("b"@ =~= seq!['b']); sb1('b');
    reveal_strlit("n"); assert("n"@ =~= seq!['n']); sb1('n');
    reveal_strlit("q"); assert("q"@ =~= seq!['q']); sb1('q');
    reveal_strlit("i"); assert("i"@ =~= seq!['i']); sb1('i');
    reveal_strlit("u"); assert("u"@ =~= seq!['u']); sb1('u');
    reveal_strlit("x"); assert("x"@ =~= seq!['x']); sb1('x');
    reveal_strlit("t"); assert("t"@ =~= seq!['t']); sb1('t');
    reveal_strlit("h"); assert("h"@ =~= seq!['h']); sb1('h');
    reveal_strlit("d"); assert("d"@ =~= seq!['d']); sb1('d');
    reveal_strlit("s"); assert("s"@ =~= seq!['s']); sb1('s');
    reveal_strlit("o"); assert("o"@ =~= seq!['o']); sb1('o');
    reveal_strlit("v"); assert("v"@ =~= seq!['v']); sb1('v');
    reveal_strlit("g"); assert("g"@ =~= seq!['g']); sb1('g');
    reveal_strlit("a"); assert("a"@ =~= seq!['a']); sb1('a');
    reveal_strlit("("); assert("("@ =~= seq!['(']); sb1('(');
    reveal_strlit(")"); assert(")"@ =~= seq![')']); sb1(')');
    reveal_strlit("{"); assert("{"@ =~= seq!['{']); sb1('{');
    reveal_strlit("}"); assert("}"@ =~= seq!['}']); sb1('}');
}
//@ end
