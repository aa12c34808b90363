# Match rules (C14, C15, C16)
//@ module match_rule
//@ type MatchRule
//@ type MatchRuleError
//@ use use crate::mr::*; use crate::message::types::*; use crate::match_rule::arg::*; use crate::match_rule::arg_path::*;
//@ spec
pub use lem_mr::*;
pub mod lem_mr { use super::*;
pub open spec fn mrv(m: MatchRule) -> Mr { match m {
    MatchRule::Type(t) => Mr::Type(mtv(t)),
    MatchRule::Sender(s) => Mr::Sender(s@),
    MatchRule::Interface(s) => Mr::Interface(s@),
    MatchRule::Member(s) => Mr::Member(s@),
    MatchRule::Path(p) => Mr::Path(p@),
    MatchRule::PathNamespace(p) => Mr::PathNamespace(p@),
    MatchRule::Destination(s) => Mr::Destination(s@),
    MatchRule::Arg(a) => Mr::Arg(a.0 as int, a.1@),
    MatchRule::ArgPath(a) => Mr::ArgPath(a.0 as int, a.1@),
    MatchRule::Arg0Namespace(s) => Mr::Arg0Namespace(s@),
    MatchRule::Eavesdrop(b) => Mr::Eavesdrop(b),
} }
pub open spec fn appr(a: Seq<Mr>, o: Option<Seq<Mr>>) -> Option<Seq<Mr>> { match o { Some(r) => Some(a + r), None => None } }
pub open spec fn mrs(l: Seq<MatchRule>) -> Seq<Mr> { Seq::new(l.len(), |i: int| mrv(l[i])) }
}
//@ module match_rule::arg
//@ type Arg
//@ use use crate::mr::*;
//@ fn Arg::get_index
[C14,C15,C16] ensures ret == self.0
//@ fn Arg::get_value
[C14,C15,C16] ensures ret@ == self.1@
//@ fn <Arg as TryFrom<(usize,String)>>::try_from
[C14,C16] ensures ret.is_ok() == ($1.0 < 64), ret is Ok ==> ret->Ok_0.0 == $1.0 && ret->Ok_0.1@ == $1.1@
//@ fn Arg::get_key
[C14] ensures sb(ret@) == sb("arg"@) + dec(self.0 as nat)
//@ inimpl <Arg as Display>
open spec fn disp(&self) -> Seq<u8> { sb(crate::mr::esc(self.1@)) }
//@ fn <Arg as Display>::fmt
[C14] ensures ret is Ok, final($1)@ == old($1)@ + sb(esc(self.1@))
//@ module match_rule::arg_path
//@ type ArgPath
//@ use use crate::mr::*;
//@ fn ArgPath::get_index
[C14,C15,C16] ensures ret == self.0
//@ fn ArgPath::get_value
[C14,C15,C16] ensures *ret == self.1
//@ fn <ArgPath as From<(usize,ObjectPath)>>::from
[C14,C16] ensures ret.0 == $1.0, ret.1 == $1.1
//@ fn ArgPath::get_key
[C14] ensures sb(ret@) == sb("arg"@) + dec(self.0 as nat) + sb("path"@)
//@ inimpl <ArgPath as Display>
open spec fn disp(&self) -> Seq<u8> { self.1@ }
//@ fn <ArgPath as Display>::fmt
[C14] ensures ret is Ok, final($1)@ == old($1)@ + self.1@
//@ module match_rule::matching
//@ use use crate::mr::*; use crate::vl::*; use crate::ms::*; use crate::nm::*; use crate::message::types::*; use crate::value::value_enum::*; use crate::match_rule::lem_mr::*; use crate::message::message_struct::*;
//@ fn match_namespace
requires ($3 as u32) < 128
[C15] ensures ret == at_or_below(sb($1@), sb($2@), $3 as u8)
//@ begin
broadcast use {group_texts, group_str_eq, crate::th2::group_slices};
proof { sb1($3); }
//@ fn get_str_from_string_or_object_path
[C15] ensures match text_of($1@) { Some(s) => ret is Some && sb(ret->Some_0@) == s, None => ret is None }
//@ spec
/// what Message and MatchRule values made by the library satisfy
pub open spec fn built(m: Message) -> bool { match m.header.fields.destination { Some(Bus::WellKnownBusName(d)) => well_known_ok(d@), _ => true } }
//@ fn MatchRule::matching_rule
requires mr_ok(mrv(*self)), built(*$1)
[C15] ensures ret == hit(mrv(*self), $1@)
//@ begin
broadcast use {group_texts, group_str_eq, crate::th2::group_slices};
proof {
    if self is Destination && $1.header.fields.destination is Some && $1.header.fields.destination->Some_0 is WellKnownBusName {
        let d = $1.header.fields.destination->Some_0->WellKnownBusName_0@; assert(dchar(d, 0, true, false));
        let u = self->Destination_0@; assert(uchar(u, 0));
    }
}
//@ fn MatchRule::matching_rules
requires forall|i: int| 0 <= i < $1@.len() ==> mr_ok(#[trigger] mrv($1@[i])), built(*$2)
[C15] ensures ret == hits(mrs($1@), $2@)
//@ loop 0 iter it
invariant it.seq().unref() == $1@, forall|i: int| 0 <= i < $1@.len() ==> mr_ok(#[trigger] mrv($1@[i])), built(*$2)
[C15] invariant forall|i: int| 0 <= i < it.index() ==> hit(#[trigger] mrs($1@)[i], $2@)
//@ loop 0 begin
assert(mrs($1@)[it.index() as int] == mrv(*$pat0));
//@ module match_rule::escape
//@ use use crate::mr::*;
//@ fn escape
[C14] ensures ret@ == esc($1@)
//@ loop 0 iter it
invariant it.seq() == $1@
[C14] invariant $let1@ == esc($1@.take(it.index() as int))
//@ loop 0 begin
proof { let i = it.index() as int; let t = $1@.take(i + 1); assert(t.drop_last() =~= $1@.take(i)); assert(t.last() == $1@[i]); reveal_strlit("\\'"); reveal_strlit("','"); reveal_strlit("'\\'"); }
let ghost r0 = $let1@;
//@ loop 0 end
assert($let1@ =~= r0 + esc1($pat0));
//@ tail
assert($1@.take($1@.len() as int) =~= $1@);
//@ module match_rule::unescape
//@ use use crate::mr::*;
//@ spec
pub open spec fn left(st: State, t: Seq<char>) -> Option<Seq<char>> { match st { State::OutsideSingleQuotes => unq(t, false), State::OutsideSingleQuotesBackslash => unq(seq!['\\'] + t, false), State::InsideSingleQuotes => unq(t, true) } }
pub open spec fn step(st: State, c: char) -> (State, Seq<char>) { match st {
    State::OutsideSingleQuotes => if c == '\\' { (State::OutsideSingleQuotesBackslash, Seq::empty()) } else if c == '\'' { (State::InsideSingleQuotes, Seq::empty()) } else { (st, seq![c]) },
    State::OutsideSingleQuotesBackslash => if c == '\\' { (st, seq![c]) } else if c == '\'' { (State::OutsideSingleQuotes, seq![c]) } else { (State::OutsideSingleQuotes, seq!['\\', c]) },
    State::InsideSingleQuotes => if c == '\'' { (State::OutsideSingleQuotes, Seq::empty()) } else { (st, seq![c]) },
} }
pub proof fn step_left(st: State, t: Seq<char>) requires t.len() > 0 ensures left(st, t) == app(step(st, t[0]).1, left(step(st, t[0]).0, t.skip(1)))
{
    let c = t[0]; let r = t.skip(1); let b = seq!['\\'] + t; let d = seq!['\\'] + r;
    assert(t =~= seq![c] + r);
    assert(b.skip(1) =~= t); assert(b.skip(2) =~= r); assert(d.skip(1) =~= r);
    assert(b[0] == '\\' && b[1] == c);
    let e = left(step(st, c).0, r);
    match st {
        State::OutsideSingleQuotes => { if c == '\\' { assert(d =~= t); } if e is Some { assert(Seq::empty() + e->Some_0 =~= e->Some_0); assert(app(Seq::empty(), e) == e); } },
        State::OutsideSingleQuotesBackslash => {
            if c == '\\' { assert(d =~= t); assert(unq(b, false) == cons('\\', unq(t, false))); }
            else if c == '\'' {}
            else { assert(unq(b, false) == cons('\\', unq(t, false))); assert(unq(t, false) == cons(c, unq(r, false))); if e is Some { assert(seq!['\\'] + (seq![c] + e->Some_0) =~= seq!['\\', c] + e->Some_0); } }
        },
        State::InsideSingleQuotes => { if e is Some { assert(Seq::empty() + e->Some_0 =~= e->Some_0); } },
    }
}
//@ fn unescape
[C16] ensures match ret { Ok(r) => unq($1@, false) == Some(r@), Err(_) => unq($1@, false) is None }
//@ before for
assert($1@.skip(0) =~= $1@); assert(left($let2, $1@) == app($let1@, left($let2, $1@))) by { if left($let2, $1@) is Some { assert($let1@ + left($let2, $1@)->Some_0 =~= left($let2, $1@)->Some_0); } }
//@ loop 0 iter it
invariant it.seq() == $1@
[C16] invariant unq($1@, false) == app($let1@, left($let2, $1@.skip(it.index() as int)))
//@ loop 0 begin
let ghost s0 = $let2;
let ghost r0 = $let1@;
proof { let i = it.index() as int; assert($1@.skip(i).skip(1) =~= $1@.skip(i + 1)); step_left($let2, $1@.skip(i)); }
//@ loop 0 end
proof { let i = it.index() as int; assert($let2 == step(s0, $pat0).0); assert($let1@ =~= r0 + step(s0, $pat0).1);
    let e = left($let2, $1@.skip(i + 1)); if e is Some { assert(r0 + (step(s0, $pat0).1 + e->Some_0) =~= $let1@ + e->Some_0); } }
//@ begin
proof { let e = $1@.skip($1@.len() as int); assert(e =~= Seq::empty()); let b = seq!['\\'] + e; assert(b.skip(1) =~= e); assert(unq(b, false) == cons('\\', unq(e, false)));
    assert forall|x: Seq<char>| #[trigger] app(x, unq(e, false)) == Some(x) by { assert(x + Seq::empty() =~= x); }
    assert forall|x: Seq<char>| #[trigger] app(x, unq(b, false)) == Some(x.push('\\')) by { assert(x + (seq!['\\'] + Seq::empty()) =~= x.push('\\')); } }
//@ module match_rule::split
//@ type Split
//@ use use crate::mr::*;
//@ spec
pub open spec fn inp(c: char) -> Input { if calnum(c) || c == '_' { Input::AlphanumericAndUnderscore } else if c == '=' { Input::Equal } else if c == ',' { Input::Comma } else if c == '\'' { Input::Quote } else if c == '\\' { Input::Backslash } else { Input::Others } }
pub open spec fn left(st: State, t: Seq<char>) -> Option<nat> { match st {
    State::KeyBegin => rule_len(t), State::Key => krest(t), State::Value => vlen(t, false),
    State::ValueBackslash => if t.len() > 0 && t[0] == '\'' { more(1, vlen(t.skip(1), false)) } else { vlen(t, false) },
    State::ValueInsideQuotes => vlen(t, true),
} }
//@ fn Split::new
[C16] ensures ret.0@ == $1@
//@ fn <Input as From<char>>::from
[C16] ensures ret == inp($1)
//@ fn next_position
//@ rewrite __s.len() ==> crate::th::text_len(__s)
[C16] ensures match ret { Ok(p) => rule_len($1@) is Some && p == sb($1@.take(rule_len($1@)->Some_0 as int)).len(), Err(_) => rule_len($1@) is None }
//@ before for
assert($1@.skip(0) =~= $1@);
//@ loop 0 iter it
invariant it.seq().len() == $1@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).1 == $1@[i] && it.seq()[i].0 == sb($1@.take(i)).len() && it.seq()[i].0 < sb($1@).len() <= isize::MAX
[C16] invariant rule_len($1@) == more(it.index() as nat, left($let1, $1@.skip(it.index() as int)))
//@ loop 0 begin
proof { let i = it.index() as int; assert($1@.skip(i).skip(1) =~= $1@.skip(i + 1)); assert($1@.skip(i)[0] == $1@[i]); if $1@.skip(i).len() > 1 { assert($1@.skip(i)[1] == $1@.skip(i + 1)[0]); assert($1@.skip(i).skip(2) =~= $1@.skip(i + 1).skip(1)); } }
//@ begin
proof { assert($1@.skip($1@.len() as int) =~= Seq::empty()); assert($1@.take($1@.len() as int) =~= $1@); }
//@ fn <Split as Iterator>::next
[C16] ensures match ret { None => old(self).0@.len() == 0, Some(Ok(r)) => old(self).0@.len() > 0 && rule_len(old(self).0@) is Some && r@ == old(self).0@.take(rule_len(old(self).0@)->Some_0 as int) && final(self).0@ == after(old(self).0@, rule_len(old(self).0@)->Some_0), Some(Err(_)) => old(self).0@.len() > 0 && rule_len(old(self).0@) is None }
//@ begin
broadcast use {group_texts, group_str_eq, crate::th2::group_slices};
proof { rule_bound(self.0@); sb1(','); }
let ghost s = self.0@;
let ghost n = rule_len(s)->Some_0 as int;
proof { assert(self.0.cs() == s); assert(sb(s.take(n)).len() >= 0); if 0 <= n < s.len() && s[n] == ',' { sb_cat(seq![','], s.skip(n + 1)); assert(seq![','] + s.skip(n + 1) =~= s.skip(n)); } if n == s.len() { assert(s.skip(n) =~= Seq::empty()); }
    assert forall|x: Seq<char>, y: Seq<char>| #[trigger] sb(x) == seq![44u8] + #[trigger] sb(y) implies x == seq![','] + y by { sb_cat(seq![','], y); sb_inj(x, seq![','] + y); }
    assert((seq![','] + s.skip(n + 1)).skip(1) =~= s.skip(n + 1)); }
//@ module match_rule::decode
//@ use use crate::mr::*; use crate::nm::*; use crate::message::types::*; use crate::match_rule::lem_mr::*;
//@ fn <MatchRule as TryFrom<&str>>::try_from
[C16] ensures match ret { Ok(m) => rule_of($1@) == Some(mrv(m)), Err(_) => rule_of($1@) is None }
//@ begin
broadcast use {str_ext, group_str_eq};
proof {
    reveal_strlit("arg"); reveal_strlit("path"); reveal_strlit("true"); reveal_strlit("false"); assert("true"@.len() == 4 && "false"@.len() == 5); pre_text("arg"@); suf_text("path"@);
    assert forall|a: Seq<char>, b: Seq<char>| $1@ == #[trigger] (a.push('=') + b) && !a.contains('=') implies pos_of($1@, '=') == a.len() && $1@.take(a.len() as int) == a && $1@.skip(a.len() as int + 1) == b by { pos_is($1@, '=', a, b); }
    if !$1@.contains('=') { pos_none($1@, '='); }
}
//@ fn MatchRule::decode
//@ rewrite for __p in Split::new(__all_x) __b ==> let mut rules__ = Split::new(__all_x); loop { match rules__.next() { Some(__p) => __b, None => break, } }
[C14,C16] ensures match ret { Ok(l) => rules_of($1@) == Some(mrs(l@)), Err(_) => rules_of($1@) is None }
//@ loop 0
invariant_except_break rules_of($1@) == appr(mrs($let1@), rules_of(rules__.0@))
ensures rules_of($1@) == Some(mrs($let1@))
decreases rules__.0@.len()
//@ end
//@ module match_rule::encode
//@ use use crate::mr::*; use crate::nm::*; use crate::message::types::*; use crate::match_rule::lem_mr::*;
//@ inimpl <MatchRule as Display>
open spec fn disp(&self) -> Seq<u8> { btext(mrv(*self)) }
//@ fn <MatchRule as Display>::fmt
[C14] ensures ret is Ok, final($1)@ == old($1)@ + btext(mrv(*self))
//@ fn MatchRule::encode
[C14] ensures sb(ret@) == bjoined(mrs($1@))
//@ begin
hide(btext);
hide(mrv);
broadcast use {group_texts, group_str_eq, crate::th2::group_slices};
proof { reveal_strlit(","); sb1(','); assert(","@ =~= seq![',']);
    assert(mrs(Seq::<MatchRule>::empty()) =~= Seq::empty()); assert($1@.len() == 0 ==> mrs($1@) =~= Seq::empty());
    let t = mrs($1@.skip(1)); assert(t.take(0) =~= Seq::empty()); assert(t.take(t.len() as int) =~= t); assert($1@.len() > 0 ==> mrs($1@).skip(1) =~= t && mrs($1@)[0] == mrv($1@[0])); }
//@ loop 0 iter it
invariant it.seq().unref() == $1@.skip(1), $1@.len() > 0
[C14] invariant sb($let2@) == btext(mrv($1@[0])) + btail(mrs($1@.skip(1)).take(it.index() as int))
//@ loop 0 begin
let ghost z0 = $let2@;
//@ loop 0 end
proof { let t = mrs($1@.skip(1)); let k = it.index() as int; let x = btext(mrv(*$pat0)); let a = btext(mrv($1@[0]));
    assert(t.take(k + 1).drop_last() =~= t.take(k)); assert(t[k] == mrv(*$pat0)); assert(t.take(k + 1).last() == t[k]);
    joined_step($let2@, z0, a, btail(t.take(k)), x); }
//@ end
