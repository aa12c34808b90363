// D-Bus signatures: abstract types, their text, and a grammar-directed reader.
pub mod ty {
use vstd::prelude::*;
use crate::th::*;
verus! {
pub enum Ty { Byte, Boolean, Int16, Uint16, Int32, Uint32, Int64, Uint64, UnixFD, Double, String, ObjectPath, Variant, Signature,
    Array(Box<Ty>), Struct(Seq<Ty>), Dict(Box<Ty>, Box<Ty>) }

/// type code of a type without components
pub open spec fn code(t: Ty) -> u8 { match t {
    Ty::Byte => 121, Ty::Boolean => 98, Ty::Int16 => 110, Ty::Uint16 => 113, Ty::Int32 => 105, Ty::Uint32 => 117, Ty::Int64 => 120, Ty::Uint64 => 116,
    Ty::UnixFD => 104, Ty::Double => 100, Ty::String => 115, Ty::ObjectPath => 111, Ty::Variant => 118, Ty::Signature => 103, Ty::Array(_) => 97, Ty::Struct(_) => 40, Ty::Dict(_, _) => 123 } }
pub open spec fn simple(t: Ty) -> bool { !(t is Array) && !(t is Struct) && !(t is Dict) }
/// the text of a type / of a list of types
pub open spec fn show(t: Ty) -> Seq<u8> decreases t {
    match t {
        Ty::Array(e) => seq![97u8] + show(*e),
        Ty::Struct(l) => seq![40u8] + show_all(l) + seq![41u8],
        Ty::Dict(k, v) => seq![123u8] + show(*k) + show(*v) + seq![125u8],
        _ => seq![code(t)],
    }
}
pub open spec fn show_all(l: Seq<Ty>) -> Seq<u8> decreases l { if l.len() == 0 { Seq::empty() } else { show(l[0]) + show_all(l.drop_first()) } }
/// no empty struct anywhere
pub open spec fn wf(t: Ty) -> bool decreases t {
    match t {
        Ty::Array(e) => wf(*e),
        Ty::Struct(l) => l.len() > 0 && wf_all(l),
        Ty::Dict(k, v) => wf(*k) && wf(*v),
        _ => true,
    }
}
pub open spec fn wf_all(l: Seq<Ty>) -> bool decreases l { l.len() == 0 || (wf(l[0]) && wf_all(l.drop_first())) }
/// at most 32 levels of each kind, when already inside (a, s, d) levels
pub open spec fn deep(t: Ty, a: int, s: int, d: int) -> bool decreases t {
    a <= 32 && s <= 32 && d <= 32 && match t {
        Ty::Array(e) => deep(*e, a + 1, s, d),
        Ty::Struct(l) => deep_all(l, a, s + 1, d),
        Ty::Dict(k, v) => deep(*k, a, s, d + 1) && deep(*v, a, s, d + 1),
        _ => true,
    }
}
pub open spec fn deep_all(l: Seq<Ty>, a: int, s: int, d: int) -> bool decreases l { l.len() == 0 || (deep(l[0], a, s, d) && deep_all(l.drop_first(), a, s, d)) }
pub open spec fn ty_ok(t: Ty) -> bool { wf(t) && deep(t, 0, 0, 0) }
pub open spec fn all_ok(l: Seq<Ty>) -> bool { wf_all(l) && deep_all(l, 0, 0, 0) }
/// a valid signature
pub open spec fn sig_ok(l: Seq<Ty>) -> bool { all_ok(l) && show_all(l).len() <= 255 }
pub open spec fn align(t: Ty) -> nat { match t {
    Ty::Byte => 1, Ty::Signature => 1, Ty::Variant => 1,
    Ty::Int16 => 2, Ty::Uint16 => 2,
    Ty::Boolean => 4, Ty::Int32 => 4, Ty::Uint32 => 4, Ty::UnixFD => 4, Ty::String => 4, Ty::ObjectPath => 4, Ty::Array(_) => 4,
    Ty::Int64 => 8, Ty::Uint64 => 8, Ty::Double => 8, Ty::Struct(_) => 8, Ty::Dict(_, _) => 8 } }

pub open spec fn of_code(c: u8) -> Option<Ty> {
    if c == 121 { Some(Ty::Byte) } else if c == 98 { Some(Ty::Boolean) } else if c == 110 { Some(Ty::Int16) } else if c == 113 { Some(Ty::Uint16) }
    else if c == 105 { Some(Ty::Int32) } else if c == 117 { Some(Ty::Uint32) } else if c == 120 { Some(Ty::Int64) } else if c == 116 { Some(Ty::Uint64) }
    else if c == 104 { Some(Ty::UnixFD) } else if c == 100 { Some(Ty::Double) } else if c == 115 { Some(Ty::String) } else if c == 111 { Some(Ty::ObjectPath) }
    else if c == 118 { Some(Ty::Variant) } else if c == 103 { Some(Ty::Signature) } else { None }
}
/// read one type at i: the type and where it ends
pub open spec fn rd(s: Seq<u8>, i: int, a: int, t: int, d: int) -> Option<(Ty, int)> decreases s.len() - i, 0int {
    if !(a <= 32 && t <= 32 && d <= 32) || i < 0 || i >= s.len() { None }
    else if s[i] == 97 { match rd(s, i + 1, a + 1, t, d) { Some((e, j)) => Some((Ty::Array(Box::new(e)), j)), None => None } }
    else if s[i] == 40 { match rd(s, i + 1, a, t + 1, d) {
        Some((e, j)) => if j <= i || j > s.len() { None } else { match rd_struct(s, j, a, t + 1, d) { Some((l, k)) => Some((Ty::Struct(seq![e] + l), k)), None => None } },
        None => None } }
    else if s[i] == 123 { match rd(s, i + 1, a, t, d + 1) {
        Some((k, j)) => if j <= i || j > s.len() { None } else { match rd(s, j, a, t, d + 1) { Some((v, n)) => if 0 <= n < s.len() && s[n] == 125 { Some((Ty::Dict(Box::new(k), Box::new(v)), n + 1)) } else { None }, None => None } },
        None => None } }
    else { match of_code(s[i]) { Some(x) => Some((x, i + 1)), None => None } }
}
/// read types up to the closing parenthesis
pub open spec fn rd_struct(s: Seq<u8>, i: int, a: int, t: int, d: int) -> Option<(Seq<Ty>, int)> decreases s.len() - i, 1int {
    if i < 0 || i >= s.len() { None }
    else if s[i] == 41 { Some((Seq::empty(), i + 1)) }
    else { match rd(s, i, a, t, d) {
        Some((e, j)) => if j <= i || j > s.len() { None } else { match rd_struct(s, j, a, t, d) { Some((l, k)) => Some((seq![e] + l, k)), None => None } },
        None => None } }
}
pub open spec fn rd_all(s: Seq<u8>, i: int) -> Option<Seq<Ty>> decreases s.len() - i {
    if i >= s.len() { if i == s.len() { Some(Seq::empty()) } else { None } }
    else { match rd(s, i, 0, 0, 0) {
        Some((e, j)) => if j <= i || j > s.len() { None } else { match rd_all(s, j) { Some(l) => Some(seq![e] + l), None => None } },
        None => None } }
}

// ---- lemmas
pub proof fn rd_sound(s: Seq<u8>, i: int, a: int, t: int, d: int)
    ensures match rd(s, i, a, t, d) { Some((e, j)) => 0 <= i < j <= s.len() && s.subrange(i, j) == show(e) && wf(e) && deep(e, a, t, d), None => true }
    decreases s.len() - i, 0int
{
    if !(a <= 32 && t <= 32 && d <= 32) || i < 0 || i >= s.len() { }
    else if s[i] == 97 {
        rd_sound(s, i + 1, a + 1, t, d);
        if let Some((e, j)) = rd(s, i + 1, a + 1, t, d) { assert(s.subrange(i, j) =~= seq![97u8] + s.subrange(i + 1, j)); }
    } else if s[i] == 40 {
        rd_sound(s, i + 1, a, t + 1, d);
        if let Some((e, j)) = rd(s, i + 1, a, t + 1, d) {
            rd_struct_sound(s, j, a, t + 1, d);
            if let Some((l, k)) = rd_struct(s, j, a, t + 1, d) {
                let x = seq![e] + l;
                assert(x.drop_first() =~= l);
                assert(wf_all(x) && deep_all(x, a, t + 1, d) && show_all(x) == show(e) + show_all(l));
                assert(s.subrange(i, k) =~= seq![40u8] + (s.subrange(i + 1, j) + s.subrange(j, k - 1)) + seq![41u8]);
            }
        }
    } else if s[i] == 123 {
        rd_sound(s, i + 1, a, t, d + 1);
        if let Some((k, j)) = rd(s, i + 1, a, t, d + 1) {
            rd_sound(s, j, a, t, d + 1);
            if let Some((v, n)) = rd(s, j, a, t, d + 1) { if n < s.len() && s[n] == 125 {
                assert(s.subrange(i, n + 1) =~= seq![123u8] + s.subrange(i + 1, j) + s.subrange(j, n) + seq![125u8]);
            } }
        }
    } else { if let Some(x) = of_code(s[i]) { assert(s.subrange(i, i + 1) =~= seq![code(x)]); } }
}
pub proof fn rd_struct_sound(s: Seq<u8>, i: int, a: int, t: int, d: int)
    ensures match rd_struct(s, i, a, t, d) { Some((l, k)) => 0 <= i < k <= s.len() && s[k - 1] == 41 && s.subrange(i, k - 1) == show_all(l)
        && wf_all(l) && deep_all(l, a, t, d), None => true }
    decreases s.len() - i, 1int
{
    if i < 0 || i >= s.len() { }
    else if s[i] == 41 { assert(s.subrange(i, i) =~= Seq::empty()); }
    else {
        rd_sound(s, i, a, t, d);
        if let Some((e, j)) = rd(s, i, a, t, d) { if j > i {
            rd_struct_sound(s, j, a, t, d);
            if let Some((l, k)) = rd_struct(s, j, a, t, d) {
                assert((seq![e] + l).drop_first() =~= l);
                assert(s.subrange(i, k - 1) =~= s.subrange(i, j) + s.subrange(j, k - 1));
            }
        } }
    }
}
/// where text u stands at i in s
pub open spec fn at(s: Seq<u8>, i: int, u: Seq<u8>) -> bool { 0 <= i && i + u.len() <= s.len() && s.subrange(i, i + u.len()) == u }
pub proof fn at_cat(s: Seq<u8>, i: int, u: Seq<u8>, v: Seq<u8>) requires at(s, i, u + v) ensures at(s, i, u), at(s, i + u.len(), v)
{
    assert(s.subrange(i, i + u.len()) =~= (u + v).subrange(0, u.len() as int)); assert((u + v).subrange(0, u.len() as int) =~= u);
    assert(s.subrange(i + u.len(), i + u.len() + v.len()) =~= (u + v).subrange(u.len() as int, (u.len() + v.len()) as int)); assert((u + v).subrange(u.len() as int, (u.len() + v.len()) as int) =~= v);
}
pub proof fn at_one(s: Seq<u8>, i: int, c: u8) requires at(s, i, seq![c]) ensures s[i] == c, i < s.len() { assert(s.subrange(i, i + 1)[0] == c); }
pub proof fn show_len(t: Ty) ensures show(t).len() > 0, show(t)[0] != 41 {}
pub proof fn rd_complete(s: Seq<u8>, i: int, e: Ty, a: int, t: int, d: int)
    requires at(s, i, show(e)), wf(e), deep(e, a, t, d)
    ensures rd(s, i, a, t, d) == Some((e, i + show(e).len()))
    decreases e
{
    match e {
        Ty::Array(x) => { at_cat(s, i, seq![97u8], show(*x)); at_one(s, i, 97); rd_complete(s, i + 1, *x, a + 1, t, d); },
        Ty::Struct(l) => {
            at_cat(s, i, seq![40u8] + show_all(l), seq![41u8]); at_cat(s, i, seq![40u8], show_all(l)); at_one(s, i, 40);
            let n = i + 1 + show_all(l).len();
            at_one(s, n as int, 41);
            assert(show_all(l) == show(l[0]) + show_all(l.drop_first()));
            at_cat(s, i + 1, show(l[0]), show_all(l.drop_first()));
            assert(wf_all(l) && deep_all(l, a, t + 1, d));
            rd_complete(s, i + 1, l[0], a, t + 1, d);
            let r = l.drop_first();
            show_len(l[0]);
            rd_struct_complete(s, i + 1 + show(l[0]).len(), r, a, t + 1, d);
            assert(seq![l[0]] + r =~= l);
        },
        Ty::Dict(k, v) => {
            at_cat(s, i, seq![123u8] + show(*k) + show(*v), seq![125u8]); at_cat(s, i, seq![123u8] + show(*k), show(*v)); at_cat(s, i, seq![123u8], show(*k)); at_one(s, i, 123);
            show_len(*k);
            rd_complete(s, i + 1, *k, a, t, d + 1);
            rd_complete(s, i + 1 + show(*k).len(), *v, a, t, d + 1);
            at_one(s, i + 1 + show(*k).len() + show(*v).len(), 125);
        },
        _ => { at_one(s, i, code(e)); }
    }
}
pub proof fn rd_struct_complete(s: Seq<u8>, i: int, l: Seq<Ty>, a: int, t: int, d: int)
    requires at(s, i, show_all(l)), i + show_all(l).len() < s.len(), s[i + show_all(l).len()] == 41,
        wf_all(l), deep_all(l, a, t, d)
    ensures rd_struct(s, i, a, t, d) == Some((l, i + show_all(l).len() + 1))
    decreases l
{
    if l.len() == 0 { assert(l =~= Seq::empty()); } else {
        let r = l.drop_first();
        at_cat(s, i, show(l[0]), show_all(r));
        show_len(l[0]);
        assert(s.subrange(i, i + show(l[0]).len())[0] == s[i]);
        assert(wf(l[0]) && deep(l[0], a, t, d));
        rd_complete(s, i, l[0], a, t, d);
        rd_struct_complete(s, i + show(l[0]).len(), r, a, t, d);
        assert(seq![l[0]] + r =~= l);
    }
}
pub proof fn rd_all_sound(s: Seq<u8>, i: int)
    ensures match rd_all(s, i) { Some(l) => i <= s.len() && (0 <= i ==> s.subrange(i, s.len() as int) == show_all(l)) && all_ok(l), None => true }
    decreases s.len() - i
{
    if i >= s.len() { if i >= 0 && i == s.len() { assert(s.subrange(i, i) =~= Seq::empty()); } } else {
        rd_sound(s, i, 0, 0, 0);
        if let Some((e, j)) = rd(s, i, 0, 0, 0) { if j > i {
            rd_all_sound(s, j);
            if let Some(l) = rd_all(s, j) {
                assert((seq![e] + l).drop_first() =~= l);
                if i >= 0 { assert(s.subrange(i, s.len() as int) =~= s.subrange(i, j) + s.subrange(j, s.len() as int)); }
            }
        } }
    }
}
pub proof fn rd_all_complete(s: Seq<u8>, i: int, l: Seq<Ty>)
    requires at(s, i, show_all(l)), i + show_all(l).len() == s.len(), all_ok(l)
    ensures rd_all(s, i) == Some(l)
    decreases l
{
    if l.len() == 0 { assert(l =~= Seq::empty()); } else {
        let r = l.drop_first();
        at_cat(s, i, show(l[0]), show_all(r));
        show_len(l[0]);
        assert(ty_ok(l[0]));
        rd_complete(s, i, l[0], 0, 0, 0);
        rd_all_complete(s, i + show(l[0]).len(), r);
        assert(seq![l[0]] + r =~= l);
    }
}
/// C06: the two directions of "parsing inverts printing"
pub proof fn sig_iff(s: Seq<u8>)
    ensures match rd_all(s, 0) { Some(l) => s == show_all(l) && all_ok(l), None => !(exists|l: Seq<Ty>| all_ok(l) && s == show_all(l)) }
{
    rd_all_sound(s, 0);
    assert(s.subrange(0, s.len() as int) =~= s);
    if rd_all(s, 0) is None && exists|l: Seq<Ty>| all_ok(l) && s == show_all(l) {
        let l = choose|l: Seq<Ty>| all_ok(l) && s == show_all(l);
        rd_all_complete(s, 0, l);
    }
}
pub proof fn sig_inv(l: Seq<Ty>) requires all_ok(l) ensures rd_all(show_all(l), 0) == Some(l)
{ let s = show_all(l); assert(s.subrange(0, s.len() as int) =~= s); rd_all_complete(s, 0, l); }
pub proof fn show_all_push(l: Seq<Ty>, e: Ty) ensures show_all(l.push(e)) == show_all(l) + show(e) decreases l
{
    if l.len() == 0 { assert(l.push(e).drop_first() =~= Seq::empty()); assert(show_all(Seq::<Ty>::empty()) =~= Seq::empty()); assert(l =~= Seq::empty()); assert(show_all(l.push(e)) =~= show_all(l) + show(e)); }
    else { assert(l.push(e).drop_first() =~= l.drop_first().push(e)); show_all_push(l.drop_first(), e); assert(show_all(l.push(e)) =~= show_all(l) + show(e)); }
}
/// adding one type at the end of a list; what holds of a list holds of its elements
pub proof fn all_push(l: Seq<Ty>, e: Ty, a: int, s: int, d: int)
    ensures wf_all(l.push(e)) == (wf_all(l) && wf(e)), deep_all(l.push(e), a, s, d) == (deep_all(l, a, s, d) && deep(e, a, s, d)), show_all(l.push(e)) == show_all(l) + show(e)
    decreases l
{
    show_all_push(l, e);
    if l.len() == 0 { assert(l.push(e).drop_first() =~= Seq::empty()); assert(wf_all(Seq::<Ty>::empty()) && deep_all(Seq::<Ty>::empty(), a, s, d)); }
    else { assert(l.push(e).drop_first() =~= l.drop_first().push(e)); all_push(l.drop_first(), e, a, s, d); }
}
pub proof fn all_at(l: Seq<Ty>, i: int, a: int, s: int, d: int)
    requires 0 <= i < l.len()
    ensures wf_all(l) ==> wf(l[i]), deep_all(l, a, s, d) ==> deep(l[i], a, s, d), show_all(l.take(i)).len() + show(l[i]).len() <= show_all(l).len(),
        l.take(i + 1) == l.take(i).push(l[i])
    decreases l
{
    assert(l.take(i + 1) =~= l.take(i).push(l[i]));
    if i > 0 { all_at(l.drop_first(), i - 1, a, s, d); assert(l.take(i).drop_first() =~= l.drop_first().take(i - 1)); assert(l.drop_first()[i - 1] == l[i]); assert(l.take(i)[0] == l[0]); }
    else { assert(l.take(0) =~= Seq::empty()); assert(show_all(l.take(0)).len() == 0); }
}
} // verus!
}
