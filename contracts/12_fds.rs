// C10: the descriptors of a message body.
pub mod fd {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
use crate::ms::*;
use crate::mw::*;
use crate::rt::*;
verus! {
/// the descriptors in a value, in order
pub open spec fn fds_of(v: Val) -> Seq<i32> decreases v {
    match v {
        Val::UnixFD(d) => seq![d],
        Val::Array(t, l) => fds_of_all(l),
        Val::Struct(l) => fds_of_all(l),
        Val::Dict(k, x) => fds_of(*k) + fds_of(*x),
        Val::Variant(x) => fds_of(*x),
        _ => Seq::empty(),
    }
}
pub open spec fn fds_of_all(l: Seq<Val>) -> Seq<i32> decreases l { if l.len() == 0 { Seq::empty() } else { fds_of(l[0]) + fds_of_all(l.drop_first()) } }
/// f, and then what of l is new, at its first occurrence
pub open spec fn firsts(f: Seq<i32>, l: Seq<i32>) -> Seq<i32> decreases l.len() { if l.len() == 0 { f } else { firsts(if f.contains(l[0]) { f } else { f.push(l[0]) }, l.drop_first()) } }
pub proof fn firsts_cat(f: Seq<i32>, a: Seq<i32>, b: Seq<i32>) ensures firsts(f, a + b) == firsts(firsts(f, a), b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); firsts_cat(if f.contains(a[0]) { f } else { f.push(a[0]) }, a.drop_first(), b); }
}
pub proof fn new_one(f: Seq<i32>, d: i32) ensures index_of(f, d).1 == (if f.contains(d) { f } else { f.push(d) }), index_of(f, d).1 == firsts(f, seq![d])
{
    find_prop(f, d);
    assert(seq![d].drop_first() =~= Seq::empty());
    assert(firsts(if f.contains(d) { f } else { f.push(d) }, seq![d].drop_first()) == (if f.contains(d) { f } else { f.push(d) }));
    if f.contains(d) { let j = choose|j: int| 0 <= j < f.len() && f[j] == d; assert(f[j] == d); }
}
/// the list that is returned holds the descriptors in order of first occurrence
pub proof fn ix_firsts(f: Seq<i32>, v: Val) ensures ix_val(f, v).1 == firsts(f, fds_of(v)) decreases v
{
    match v {
        Val::UnixFD(d) => { new_one(f, d); }
        Val::Array(t, l) => { ix_firsts_all(f, l); }
        Val::Struct(l) => { ix_firsts_all(f, l); }
        Val::Dict(k, x) => { ix_firsts(f, *k); ix_firsts(ix_val(f, *k).1, *x); firsts_cat(f, fds_of(*k), fds_of(*x)); }
        Val::Variant(x) => { ix_firsts(f, *x); }
        _ => {}
    }
}
pub proof fn ix_firsts_all(f: Seq<i32>, l: Seq<Val>) ensures ix_list(f, l).1 == firsts(f, fds_of_all(l)) decreases l
{ if l.len() > 0 { ix_firsts(f, l[0]); ix_firsts_all(ix_val(f, l[0]).1, l.drop_first()); firsts_cat(f, fds_of(l[0]), fds_of_all(l.drop_first())); } }
pub open spec fn once(f: Seq<i32>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> f[i] != f[j] }
/// every descriptor once, and nothing else
pub proof fn firsts_set(f: Seq<i32>, l: Seq<i32>) ensures once(f) ==> once(firsts(f, l)), forall|d: i32| firsts(f, l).contains(d) <==> f.contains(d) || l.contains(d) decreases l.len()
{
    if l.len() > 0 {
        let g = if f.contains(l[0]) { f } else { f.push(l[0]) };
        let r = l.drop_first();
        firsts_set(g, r);
        assert forall|d: i32| firsts(f, l).contains(d) <==> f.contains(d) || l.contains(d) by {
            if f.contains(d) { let j = choose|j: int| 0 <= j < f.len() && f[j] == d; assert(g[j] == d); }
            if l.contains(d) { let j = choose|j: int| 0 <= j < l.len() && l[j] == d; if j > 0 { assert(r[j - 1] == d); } else if !f.contains(d) { assert(g[f.len() as int] == d); } }
            if g.contains(d) { let j = choose|j: int| 0 <= j < g.len() && g[j] == d; if j < f.len() { assert(f[j] == d); } else { assert(l[0] == d); } }
            if r.contains(d) { let j = choose|j: int| 0 <= j < r.len() && r[j] == d; assert(l[j + 1] == d); }
        }
        if once(f) && !f.contains(l[0]) { assert forall|i: int, j: int| 0 <= i < j < g.len() implies g[i] != g[j] by { if j == f.len() { assert(f[i] != l[0]); } } }
    }
}
/// the indices in v stand for these places of g
pub open spec fn lookup(g: Seq<i32>, v: Val) -> Val decreases v {
    match v {
        Val::UnixFD(i) => Val::UnixFD(g[(i as u32) as int]),
        Val::Array(t, l) => Val::Array(t, lookup_all(g, l)),
        Val::Struct(l) => Val::Struct(lookup_all(g, l)),
        Val::Dict(k, x) => Val::Dict(Box::new(lookup(g, *k)), Box::new(lookup(g, *x))),
        Val::Variant(x) => Val::Variant(Box::new(lookup(g, *x))),
        _ => v,
    }
}
pub open spec fn lookup_all(g: Seq<i32>, l: Seq<Val>) -> Seq<Val> decreases l { if l.len() == 0 { Seq::empty() } else { seq![lookup(g, l[0])] + lookup_all(g, l.drop_first()) } }
/// every index that is written stands for the descriptor it replaces
pub proof fn ix_lookup(f: Seq<i32>, v: Val, g: Seq<i32>) requires ext(ix_val(f, v).1, g), g.len() <= 0x8000_0000 ensures lookup(g, ix_val(f, v).0) == v decreases v
{
    match v {
        Val::UnixFD(d) => { find_prop(f, d); let (i, h) = index_of(f, d); let u = i as u32; assert((u as i32) as u32 == u) by (bit_vector); assert(g.subrange(0, h.len() as int)[i] == g[i]); }
        Val::Array(t, l) => { ix_lookup_all(f, l, g); }
        Val::Struct(l) => { ix_lookup_all(f, l, g); }
        Val::Dict(k, x) => { let h = ix_val(f, *k).1; ix_grow(h, *x); ext_trans(h, ix_val(f, v).1, g); ix_lookup(f, *k, g); ix_lookup(h, *x, g); }
        Val::Variant(x) => { ix_lookup(f, *x, g); }
        _ => {}
    }
}
pub proof fn ix_lookup_all(f: Seq<i32>, l: Seq<Val>, g: Seq<i32>) requires ext(ix_list(f, l).1, g), g.len() <= 0x8000_0000 ensures lookup_all(g, ix_list(f, l).0) == l decreases l
{
    if l.len() > 0 {
        let (w, h) = ix_val(f, l[0]); let (r, k) = ix_list(h, l.drop_first());
        ix_grow_list(h, l.drop_first()); ext_trans(h, k, g);
        ix_lookup(f, l[0], g); ix_lookup_all(h, l.drop_first(), g);
        assert((seq![w] + r).drop_first() =~= r); assert((seq![w] + r)[0] == w);
        assert(seq![l[0]] + l.drop_first() =~= l);
    } else { assert(l =~= Seq::empty()); }
}
/// C10, encoding: the list that comes with an encoded message, and the indices written for it
pub proof fn msg_fds(m: Msg) requires m_msg(m) is Some, m_msg(m)->Some_0.0.len() <= 134217728
    ensures ({ let g = m_msg(m)->Some_0.1;
        &&& g == firsts(Seq::empty(), fds_of_all(m.body)) && once(g) && forall|d: i32| g.contains(d) <==> fds_of_all(m.body).contains(d)
        &&& lookup_all(g, ix_list(Seq::empty(), m.body).0) == m.body
        &&& sent(m.h.f, None, g.len()).unix_fds == if g.len() > 0 { Some(g.len() as u32) } else { m.h.f.unix_fds }
        &&& g.len() as u32 == g.len() })
{
    hide(m_val); hide(m_list); hide(ix_val); hide(ix_list); hide(m_head); hide(sig_ok); hide(fds_of_all); hide(tys_of); hide(lookup_all);
    let e = Seq::<i32>::empty(); let (b, g) = m_msg(m)->Some_0;
    ix_firsts_all(e, m.body); firsts_set(e, fds_of_all(m.body));
    assert(m_list(0, m.h.le, ix_list(e, m.body).0) is Some);
    ix_count_list(0, m.h.le, e, m.body);
    pad_bound(0, 8);
    assert(g.subrange(0, g.len() as int) =~= g);
    ix_lookup_all(e, m.body, g);
}
} // verus!
}
