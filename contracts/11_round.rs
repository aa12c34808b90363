// What the encoder writes, the reader reads back (C02); alignment does not depend on where the body starts (C03); descriptors (C10).
pub mod rt {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
use crate::ms::*;
use crate::mw::*;
use crate::lm::*;
use crate::pf::*;
verus! {
pub open spec fn step_ok(a: int) -> bool { a == 1 || a == 2 || a == 4 || a == 8 }
pub open spec fn cong(p: int, q: int) -> bool { p >= 0 && q >= 0 && p % 8 == q % 8 }
pub proof fn pad_cong(p: int, q: int, a: int) requires cong(p, q), step_ok(a) ensures pad(p, a) == pad(q, a), 0 <= pad(p, a) < a { reveal(pad); }
pub proof fn align_ok(t: Ty) ensures step_ok(align(t) as int) {}
pub proof fn shift_basic(p: int, q: int, le: bool, v: Val) requires cong(p, q) ensures m_basic(p, le, v) == m_basic(q, le, v) { pad_cong(p, q, 2); pad_cong(p, q, 4); pad_cong(p, q, 8); }
pub proof fn shift_arr(p: int, q: int, le: bool, t: Ty, l: Seq<Val>)
    requires cong(p, q), ({ let a = p + pad(p, 4) + 4; let k = pad(a, align(t) as int); m_list(a + k, le, l) == m_list(a + k + q - p, le, l) })
    ensures m_val(p, le, Val::Array(t, l)) == m_val(q, le, Val::Array(t, l))
{
    hide(show_all); hide(sig_ok); hide(wr_u32); hide(zs); hide(align); hide(m_basic); hide(ty_of); hide(m_sig);
    pad_cong(p, q, 4); align_ok(t); let a = p + pad(p, 4) + 4; pad_cong(a, a + q - p, align(t) as int);
    let k = pad(a, align(t) as int);
    assert(q + pad(q, 4) + 4 + pad(q + pad(q, 4) + 4, align(t) as int) == a + k + q - p);
}
/// C03: a value's marshalling depends on its position only modulo 8, so it is the same counted from the start of the body or of the message
pub proof fn shift(p: int, q: int, le: bool, v: Val) requires cong(p, q) ensures m_val(p, le, v) == m_val(q, le, v) decreases v
{
    hide(show_all); hide(sig_ok); hide(wr_u32); hide(zs); hide(align); hide(m_basic); hide(ty_of); hide(m_sig);
    match v {
        Val::Array(t, l) => {
            let a = p + pad(p, 4) + 4; let k = pad(a, align(t) as int);
            align_ok(t); pad_cong(p, q, 4); pad_cong(a, a, align(t) as int);
            shift_list(a + k, a + k + q - p, le, l);
            shift_arr(p, q, le, t, l);
        }
        Val::Struct(l) => { pad_cong(p, q, 8); shift_list(p + pad(p, 8), q + pad(q, 8), le, l); assert(m_val(p, le, v) == m_val(q, le, v)); }
        Val::Dict(k, x) => { pad_cong(p, q, 8); let a = p + pad(p, 8); let b = q + pad(q, 8); shift(a, b, le, *k); if let Some(y) = m_val(a, le, *k) { shift(a + y.len(), b + y.len(), le, *x); } assert(m_val(p, le, v) == m_val(q, le, v)); }
        Val::Variant(x) => { let n = m_sig(seq![ty_of(*x)]).len(); shift(p + n, q + n, le, *x); assert(m_val(p, le, v) == m_val(q, le, v)); }
        _ => { shift_basic(p, q, le, v); assert(m_val(p, le, v) == m_basic(p, le, v)); assert(m_val(q, le, v) == m_basic(q, le, v)); }
    }
}
pub proof fn shift_list(p: int, q: int, le: bool, l: Seq<Val>) requires cong(p, q) ensures m_list(p, le, l) == m_list(q, le, l) decreases l
{ hide(m_basic); hide(sig_ok); hide(m_sig); if l.len() > 0 { shift(p, q, le, l[0]); if let Some(a) = m_val(p, le, l[0]) { shift_list(p + a.len(), q + a.len(), le, l.drop_first()); } } }
// ---------------------------------------------------------------- numbers
pub proof fn num16(v: u16, le: bool) ensures rd_u16(wr_u16(v, le), le) == v, wr_u16(v, le).len() == 2 {}
pub proof fn num32(v: u32, le: bool) ensures rd_u32(wr_u32(v, le), le) == v, wr_u32(v, le).len() == 4 {}
pub proof fn num64(v: u64, le: bool) ensures rd_u64(wr_u64(v, le), le) == v, wr_u64(v, le).len() == 8
{
    let lo = (v % 0x1_0000_0000) as u32; let hi = (v / 0x1_0000_0000) as u32;
    num32(lo, le); num32(hi, le);
    let s = wr_u64(v, le);
    if le { assert(s.subrange(4, 8) =~= wr_u32(hi, true)); assert(rd_u32(s, true) == rd_u32(wr_u32(lo, true), true)); }
    else { assert(s.subrange(4, 8) =~= wr_u32(lo, false)); assert(rd_u32(s, false) == rd_u32(wr_u32(hi, false), false)); }
}
pub proof fn signed(a: i16, b: i32, c: i64) ensures (a as u16) as i16 == a, (b as u32) as i32 == b, (c as u64) as i64 == c
{ assert((a as u16) as i16 == a) by (bit_vector); assert((b as u32) as i32 == b) by (bit_vector); assert((c as u64) as i64 == c) by (bit_vector); }
// ---------------------------------------------------------------- reading what was written
pub proof fn b_take(c: Cx, s: St, x: Seq<u8>) requires at(c.b, s.o, x) ensures take(c, s, x.len() as int) == Ok::<_, E>((x, St { o: s.o + x.len(), m: s.m })) {}
pub proof fn b_al(c: Cx, s: St, p: int, a: int) requires cong(p, s.o), step_ok(a), at(c.b, s.o, zs(pad(p, a))) ensures al(c, s, a) == Ok::<_, E>(St { o: s.o + pad(p, a), m: s.m })
{ pad_cong(p, s.o, a); b_take(c, s, zs(pad(p, a))); }
pub proof fn b_num(c: Cx, s: St, p: int, n: int, x: Seq<u8>) requires cong(p, s.o), step_ok(n), x.len() == n, at(c.b, s.o, fix(p, n, x)) ensures num(c, s, n) == Ok::<_, E>((x, St { o: s.o + fix(p, n, x).len(), m: s.m }))
{ at_cat(c.b, s.o, zs(pad(p, n)), x); pad_cong(p, s.o, n); b_al(c, s, p, n); b_take(c, St { o: s.o + pad(p, n), m: s.m }, x); }
pub proof fn b_u32(c: Cx, s: St, p: int, le: bool, v: u32) requires cong(p, s.o), at(c.b, s.o, fix(p, 4, wr_u32(v, le))) ensures d_u32(c, s, le) == Ok::<_, E>((v, St { o: s.o + fix(p, 4, wr_u32(v, le)).len(), m: s.m }))
{ num32(v, le); b_num(c, s, p, 4, wr_u32(v, le)); }
pub proof fn b_str(c: Cx, s: St, b: Seq<u8>) requires at(c.b, s.o, b + seq![0u8]) ensures d_str(c, s, b.len() as int) == Ok::<_, E>((b, St { o: s.o + b.len() + 1, m: s.m }))
{ at_cat(c.b, s.o, b, seq![0u8]); b_take(c, s, b); b_take(c, St { o: s.o + b.len(), m: s.m }, seq![0u8]); }
pub proof fn b_str32(c: Cx, s: St, p: int, le: bool, b: Seq<u8>) requires cong(p, s.o), at(c.b, s.o, m_str(p, le, b)), c.b.len() <= 134217728
    ensures d_str32(c, s, le) == Ok::<_, E>((b, St { o: s.o + m_str(p, le, b).len(), m: s.m }))
{
    let n = wr_u32(b.len() as u32, le); let z = seq![0u8];
    num32(b.len() as u32, le); pad_cong(p, s.o, 4);
    assert(m_str(p, le, b) =~= fix(p, 4, n) + (b + z));
    at_cat(c.b, s.o, fix(p, 4, n), b + z);
    b_u32(c, s, p, le, b.len() as u32);
    b_str(c, St { o: s.o + fix(p, 4, n).len(), m: s.m }, b);
}
pub proof fn b_sig(c: Cx, s: St, l: Seq<Ty>) requires sig_ok(l), at(c.b, s.o, m_sig(l))
    ensures d_sig(c, s) == Ok::<_, E>((l, St { o: s.o + m_sig(l).len(), m: s.m })), l.len() == 1 ==> d_type(c, s) == Ok::<_, E>((l[0], St { o: s.o + m_sig(l).len(), m: s.m }))
{
    let b = show_all(l); let z = seq![0u8]; let n = seq![b.len() as u8];
    assert(m_sig(l) =~= n + (b + z));
    at_cat(c.b, s.o, n, b + z); b_take(c, s, n); b_str(c, St { o: s.o + 1, m: s.m }, b);
    sig_total(l);
    if l.len() == 1 { assert(l =~= seq![l[0]]); one_sig(l[0]); assert(b.subrange(0, b.len() as int) =~= b); rd_complete(b, 0, l[0], 0, 0, 0); }
}
/// the list in use starts with f
pub open spec fn pre(f: Seq<i32>, c: Cx) -> bool { f.len() <= c.f.len() && c.f.subrange(0, f.len() as int) == f && f.len() <= 0x8000_0000 }
pub open spec fn is_basic(v: Val) -> bool { !(v is Array || v is Struct || v is Dict || v is Variant) }
pub proof fn b_fd(c: Cx, s: St, p: int, le: bool, i: int) requires cong(p, s.o), 0 <= i < c.f.len(), i < 0x8000_0000, at(c.b, s.o, fix(p, 4, wr_u32((i as i32) as u32, le)))
    ensures d_basic(c, s, le, Ty::UnixFD) == Ok::<_, E>((Val::UnixFD(c.f[i]), St { o: s.o + fix(p, 4, wr_u32((i as i32) as u32, le)).len(), m: if i > s.m { i } else { s.m } }))
{ let u = i as u32; assert((u as i32) as u32 == u) by (bit_vector); b_u32(c, s, p, le, u); }
pub proof fn b_basic(c: Cx, s: St, p: int, le: bool, v: Val, f: Seq<i32>, k: int)
    requires is_basic(v), cong(p, s.o), val_ok(v, k), s.m == f.len() - 1, pre(ix_val(f, v).1, c), c.b.len() <= 134217728,
        m_basic(p, le, ix_val(f, v).0) is Some, at(c.b, s.o, m_basic(p, le, ix_val(f, v).0)->Some_0)
    ensures d_basic(c, s, le, ty_of(v)) == Ok::<_, E>((v, St { o: s.o + m_basic(p, le, ix_val(f, v).0)->Some_0.len(), m: ix_val(f, v).1.len() - 1 }))
{
    hide(fix); hide(num); hide(path_ok); hide(sig_ok); hide(d_str32); hide(d_u32); hide(wr_u16); hide(wr_u32); hide(wr_u64); hide(rd_u16); hide(rd_u32); hide(rd_u64); hide(m_str); hide(d_sig); hide(m_sig);
    match v {
        Val::Byte(b) => { b_take(c, s, seq![b]); }
        Val::Boolean(b) => { b_u32(c, s, p, le, if b { 1u32 } else { 0u32 }); }
        Val::Int16(i) => { signed(i, 0, 0); num16(i as u16, le); b_num(c, s, p, 2, wr_u16(i as u16, le)); }
        Val::Uint16(i) => { num16(i, le); b_num(c, s, p, 2, wr_u16(i, le)); }
        Val::Int32(i) => { signed(0, i, 0); num32(i as u32, le); b_num(c, s, p, 4, wr_u32(i as u32, le)); }
        Val::Uint32(i) => { num32(i, le); b_num(c, s, p, 4, wr_u32(i, le)); }
        Val::Int64(i) => { signed(0, 0, i); num64(i as u64, le); b_num(c, s, p, 8, wr_u64(i as u64, le)); }
        Val::Uint64(i) => { num64(i, le); b_num(c, s, p, 8, wr_u64(i, le)); }
        Val::Double(i) => { num64(i, le); b_num(c, s, p, 8, wr_u64(i, le)); }
        Val::String(b) => { b_str32(c, s, p, le, b); }
        Val::ObjectPath(b) => { b_str32(c, s, p, le, b); }
        Val::Signature(l) => { b_sig(c, s, l); }
        Val::UnixFD(d) => { let (i, g) = index_of(f, d); find_prop(f, d); assert(c.f.subrange(0, g.len() as int)[i] == c.f[i]); b_fd(c, s, p, le, i); }
        _ => {}
    }
}
// ---------------------------------------------------------------- the list of descriptors only grows
pub open spec fn ext(f: Seq<i32>, g: Seq<i32>) -> bool { f.len() <= g.len() && g.subrange(0, f.len() as int) == f }
pub proof fn ext_trans(f: Seq<i32>, g: Seq<i32>, h: Seq<i32>) requires ext(f, g), ext(g, h) ensures ext(f, h) { assert(h.subrange(0, f.len() as int) =~= g.subrange(0, f.len() as int)); }
pub proof fn pre_ext(f: Seq<i32>, g: Seq<i32>, c: Cx) requires ext(f, g), pre(g, c) ensures pre(f, c) { assert(c.f.subrange(0, f.len() as int) =~= g.subrange(0, f.len() as int)); }
pub proof fn ix_grow(f: Seq<i32>, v: Val) ensures ext(f, ix_val(f, v).1) decreases v
{
    assert(f.subrange(0, f.len() as int) =~= f);
    match v {
        Val::UnixFD(d) => { assert(f.push(d).subrange(0, f.len() as int) =~= f); }
        Val::Array(t, l) => { ix_grow_list(f, l); }
        Val::Struct(l) => { ix_grow_list(f, l); }
        Val::Dict(k, x) => { ix_grow(f, *k); ix_grow(ix_val(f, *k).1, *x); ext_trans(f, ix_val(f, *k).1, ix_val(f, v).1); }
        Val::Variant(x) => { ix_grow(f, *x); }
        _ => {}
    }
}
pub proof fn ix_grow_list(f: Seq<i32>, l: Seq<Val>) ensures ext(f, ix_list(f, l).1) decreases l
{ assert(f.subrange(0, f.len() as int) =~= f); if l.len() > 0 { let g = ix_val(f, l[0]).1; ix_grow(f, l[0]); ix_grow_list(g, l.drop_first()); ext_trans(f, g, ix_list(f, l).1); } }
// ---------------------------------------------------------------- values
/// what is written for v at position p
pub open spec fn wv(p: int, le: bool, f: Seq<i32>, v: Val) -> Option<Seq<u8>> { m_val(p, le, ix_val(f, v).0) }
pub open spec fn wl(p: int, le: bool, f: Seq<i32>, l: Seq<Val>) -> Option<Seq<u8>> { m_list(p, le, ix_list(f, l).0) }
pub open spec fn ready(c: Cx, s: St, p: int, d: int, f: Seq<i32>, g: Seq<i32>) -> bool { cong(p, s.o) && 0 <= d <= 4 && s.m == f.len() - 1 && pre(g, c) && c.b.len() <= 134217728 }
pub open spec fn after(s: St, x: Seq<u8>, g: Seq<i32>) -> St { St { o: s.o + x.len(), m: g.len() - 1 } }
/// one element after another
pub proof fn wl_step(p: int, le: bool, f: Seq<i32>, l: Seq<Val>) requires l.len() > 0, wl(p, le, f, l) is Some
    ensures ({ let g = ix_val(f, l[0]).1; let a = wv(p, le, f, l[0]); let b = wl(p + a->Some_0.len(), le, g, l.drop_first());
        a is Some && b is Some && wl(p, le, f, l)->Some_0 == a->Some_0 + b->Some_0 && ix_list(f, l).1 == ix_list(g, l.drop_first()).1 && ext(g, ix_list(f, l).1) })
{
    let (w, g) = ix_val(f, l[0]); let (r, h) = ix_list(g, l.drop_first());
    assert((seq![w] + r).drop_first() =~= r); assert((seq![w] + r)[0] == w);
    ix_grow_list(g, l.drop_first());
}
pub proof fn b_struct(c: Cx, s: St, p: int, le: bool, d: int, v: Val, l: Seq<Val>, f: Seq<i32>)
    requires v == Val::Struct(l), ready(c, s, p, d, f, ix_val(f, v).1), val_ok(v, 4 - d), wv(p, le, f, v) is Some, at(c.b, s.o, wv(p, le, f, v)->Some_0)
    ensures d_val(c, s, le, d, ty_of(v)) == Ok::<_, E>((v, after(s, wv(p, le, f, v)->Some_0, ix_val(f, v).1)))
    decreases l, 1int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    let a = zs(pad(p, 8)); pad_cong(p, s.o, 8);
    let x = wl(p + pad(p, 8), le, f, l)->Some_0;
    zs_len(pad(p, 8)); at_cat(c.b, s.o, a, x); b_al(c, s, p, 8);
    let s1 = St { o: s.o + pad(p, 8), m: s.m };
    b_list(c, s1, p + pad(p, 8), le, d, l, f);
}
pub proof fn b_dict(c: Cx, s: St, p: int, le: bool, d: int, v: Val, f: Seq<i32>)
    requires v is Dict, ready(c, s, p, d, f, ix_val(f, v).1), val_ok(v, 4 - d), wv(p, le, f, v) is Some, at(c.b, s.o, wv(p, le, f, v)->Some_0)
    ensures d_val(c, s, le, d, ty_of(v)) == Ok::<_, E>((v, after(s, wv(p, le, f, v)->Some_0, ix_val(f, v).1)))
    decreases v, 0int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    let k = v->Dict_0; let y = v->Dict_1;
    assert(decreases_to!(v => *v->Dict_0)); assert(decreases_to!(v => *v->Dict_1));
    let a = zs(pad(p, 8)); pad_cong(p, s.o, 8); zs_len(pad(p, 8));
    let q = p + pad(p, 8); let g = ix_val(f, *k).1;
    let x1 = wv(q, le, f, *k)->Some_0; let x2 = wv(q + x1.len(), le, g, *y)->Some_0;
    at_cat(c.b, s.o, a + x1, x2); at_cat(c.b, s.o, a, x1); b_al(c, s, p, 8);
    let s1 = St { o: s.o + pad(p, 8), m: s.m };
    ix_grow(g, *y); pre_ext(g, ix_val(f, v).1, c);
    b_val(c, s1, q, le, d, *k, f);
    b_val(c, after(s1, x1, g), q + x1.len(), le, d, *y, g);
}
pub proof fn b_variant(c: Cx, s: St, p: int, le: bool, d: int, v: Val, f: Seq<i32>)
    requires v is Variant, ready(c, s, p, d, f, ix_val(f, v).1), val_ok(v, 4 - d), wv(p, le, f, v) is Some, at(c.b, s.o, wv(p, le, f, v)->Some_0)
    ensures d_val(c, s, le, d, ty_of(v)) == Ok::<_, E>((v, after(s, wv(p, le, f, v)->Some_0, ix_val(f, v).1)))
    decreases v, 0int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    let y = v->Variant_0;
    assert(decreases_to!(v => *v->Variant_0));
    let t = seq![ty_of(*y)]; ix_ty(f, *y); one_sig(ty_of(*y));
    let x = wv(p + m_sig(t).len(), le, f, *y)->Some_0;
    at_cat(c.b, s.o, m_sig(t), x); b_sig(c, s, t);
    b_val(c, St { o: s.o + m_sig(t).len(), m: s.m }, p + m_sig(t).len(), le, d + 1, *y, f);
}
pub proof fn b_val(c: Cx, s: St, p: int, le: bool, d: int, v: Val, f: Seq<i32>)
    requires ready(c, s, p, d, f, ix_val(f, v).1), val_ok(v, 4 - d), wv(p, le, f, v) is Some, at(c.b, s.o, wv(p, le, f, v)->Some_0)
    ensures d_val(c, s, le, d, ty_of(v)) == Ok::<_, E>((v, after(s, wv(p, le, f, v)->Some_0, ix_val(f, v).1)))
    decreases v, 1int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    match v {
        Val::Array(t, l) => { b_arr(c, s, p, le, d, v, t, l, f); }
        Val::Struct(l) => { assert(decreases_to!(v => v->Struct_0)); assert(v->Struct_0 == l); b_struct(c, s, p, le, d, v, l, f); }
        Val::Dict(k, y) => { b_dict(c, s, p, le, d, v, f); }
        Val::Variant(y) => { b_variant(c, s, p, le, d, v, f); }
        _ => { b_basic(c, s, p, le, v, f, 4 - d); }
    }
}
pub proof fn zs_len(n: int) requires n >= 0 ensures zs(n).len() == n {}
pub proof fn b_arr(c: Cx, s: St, p: int, le: bool, d: int, v: Val, t: Ty, l: Seq<Val>, f: Seq<i32>)
    requires v == Val::Array(t, l), ready(c, s, p, d, f, ix_list(f, l).1), vals_ok(l, 4 - d), of_ty(l, t), wv(p, le, f, v) is Some, at(c.b, s.o, wv(p, le, f, v)->Some_0)
    ensures d_arr(c, s, le, d, t) == Ok::<_, E>((l, after(s, wv(p, le, f, v)->Some_0, ix_list(f, l).1)))
    decreases l, 1int
{
    hide(wr_u32); hide(al); hide(d_u32); hide(align); hide(vals_ok); hide(zs); hide(ty_of); hide(m_basic); hide(d_basic); hide(d_type); hide(show_all);
    let q = p + pad(p, 4) + 4; let k = pad(q, align(t) as int);
    let x = wl(q + k, le, f, l)->Some_0;
    let n = x.len() as u32;
    num32(n, le); pad_cong(p, s.o, 4); align_ok(t); zs_len(pad(p, 4));
    pad_cong(q, s.o + pad(p, 4) + 4, align(t) as int); zs_len(k);
    let w1 = zs(pad(p, 4)) + wr_u32(n, le);
    assert(ix_val(f, v).0 == Val::Array(t, ix_list(f, l).0));
    assert(wv(p, le, f, v)->Some_0 == w1 + zs(k) + x);
    at_cat(c.b, s.o, w1 + zs(k), x); at_cat(c.b, s.o, w1, zs(k));
    b_u32(c, s, p, le, n);
    let s1 = St { o: s.o + w1.len(), m: s.m };
    b_al(c, s1, q, align(t) as int);
    let s2 = St { o: s1.o + k, m: s.m };
    b_items(c, s2, q + k, le, d, t, l, f);
}
pub proof fn b_items(c: Cx, s: St, p: int, le: bool, d: int, t: Ty, l: Seq<Val>, f: Seq<i32>)
    requires ready(c, s, p, d, f, ix_list(f, l).1), vals_ok(l, 4 - d), of_ty(l, t), wl(p, le, f, l) is Some, at(c.b, s.o, wl(p, le, f, l)->Some_0)
    ensures d_items(c, s, le, d, t, s.o + wl(p, le, f, l)->Some_0.len()) == Ok::<_, E>((l, after(s, wl(p, le, f, l)->Some_0, ix_list(f, l).1)))
    decreases l, 0int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    if l.len() > 0 {
        wl_step(p, le, f, l);
        let g = ix_val(f, l[0]).1; let a = wv(p, le, f, l[0])->Some_0; let b = wl(p + a.len(), le, g, l.drop_first())->Some_0;
        at_cat(c.b, s.o, a, b); pre_ext(g, ix_list(f, l).1, c);
        let r = l.drop_first();
        assert(vals_ok(l, 4 - d)); assert(ty_of(l[0]) == t);
        assert forall|i: int| 0 <= i < r.len() implies ty_of(#[trigger] r[i]) == t by { assert(r[i] == l[i + 1]); }
        b_val(c, s, p, le, d, l[0], f);
        val_len(c, s, le, d, t);
        b_items(c, after(s, a, g), p + a.len(), le, d, t, r, g);
        assert(seq![l[0]] + r =~= l);
    } else { assert(l =~= Seq::empty()); }
}
pub proof fn b_list(c: Cx, s: St, p: int, le: bool, d: int, l: Seq<Val>, f: Seq<i32>)
    requires ready(c, s, p, d, f, ix_list(f, l).1), vals_ok(l, 4 - d), wl(p, le, f, l) is Some, at(c.b, s.o, wl(p, le, f, l)->Some_0)
    ensures d_list(c, s, le, d, tys_of(l)) == Ok::<_, E>((l, after(s, wl(p, le, f, l)->Some_0, ix_list(f, l).1)))
    decreases l, 0int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    if l.len() > 0 {
        wl_step(p, le, f, l);
        let g = ix_val(f, l[0]).1; let a = wv(p, le, f, l[0])->Some_0; let b = wl(p + a.len(), le, g, l.drop_first())->Some_0;
        at_cat(c.b, s.o, a, b); pre_ext(g, ix_list(f, l).1, c);
        let r = l.drop_first();
        assert(vals_ok(l, 4 - d));
        b_val(c, s, p, le, d, l[0], f);
        b_list(c, after(s, a, g), p + a.len(), le, d, r, g);
        assert(seq![l[0]] + r =~= l);
        assert(tys_of(l).drop_first() =~= tys_of(r)); assert(tys_of(l)[0] == ty_of(l[0]));
    } else { assert(l =~= Seq::empty()); }
}
// ---------------------------------------------------------------- header fields
pub proof fn fields_push(f: Fl, l: Seq<Val>, e: Val)
    ensures fields_of(f, l.push(e)) == match fields_of(f, l) { Some(g) => match code_value(e) { Some((n, v)) => field_of(g, n, v), None => None }, None => None }
    decreases l.len()
{
    hide(code_value); hide(field_of);
    if l.len() == 0 { assert(l.push(e).drop_first() =~= Seq::empty());
        if let Some((n, v)) = code_value(e) { if let Some(g) = field_of(f, n, v) { assert(fields_of(g, l.push(e).drop_first()) == Some(g)); } } }
    else { assert(l.push(e).drop_first() =~= l.drop_first().push(e)); if let Some((n, v)) = code_value(l[0]) { if let Some(g) = field_of(f, n, v) { fields_push(g, l.drop_first(), e); } } }
}
pub proof fn vals_ok_push(l: Seq<Val>, e: Val, k: int) ensures vals_ok(l.push(e), k) == (vals_ok(l, k) && val_ok(e, k)) decreases l.len()
{
    hide(path_ok); hide(sig_ok); hide(ty_ok); hide(show);
    if l.len() == 0 { assert(l.push(e).drop_first() =~= Seq::empty()); assert(vals_ok(Seq::<Val>::empty(), k)); assert(l.push(e)[0] == e); }
    else { assert(l.push(e).drop_first() =~= l.drop_first().push(e)); assert(l.push(e)[0] == l[0]); vals_ok_push(l.drop_first(), e, k); }
}
pub proof fn basic_ty(v: Val) requires v is ObjectPath || v is String || v is Uint32 || v is Signature ensures ty_ok(ty_of(v)), show(ty_of(v)).len() == 1 {}
pub proof fn fv_ok(n: u8, v: Val) requires val_ok(v, 3), v is ObjectPath || v is String || v is Uint32 || v is Signature
    ensures val_ok(fv(n, v), 4), ty_of(fv(n, v)) == field_ty(), code_value(fv(n, v)) == Some((n, v))
{
    hide(path_ok); hide(sig_ok); hide(ty_ok); hide(show);
    basic_ty(v);
    let b = Val::Byte(n); let w = Val::Variant(Box::new(v)); let e = Seq::<Val>::empty();
    assert(val_ok(b, 4) && val_ok(w, 4)); assert(vals_ok(e, 4)); vals_ok_push(e, b, 4); vals_ok_push(e.push(b), w, 4);
    assert(seq![b, w] =~= e.push(b).push(w));
    assert(vals_ok(seq![b, w], 4));
    assert(val_ok(Val::Struct(seq![b, w]), 4));
    tys_at(seq![b, w]); assert(tys_of(seq![b, w]) =~= seq![Ty::Byte, Ty::Variant]);
    assert(ty_of(Val::Struct(seq![b, w])) == field_ty());
}
pub open spec fn good_fields(l: Seq<Val>, x: Fl) -> bool { fields_of(no_fields(), l) == Some(x) && vals_ok(l, 4) && of_ty(l, field_ty()) }
pub proof fn one_field(f: Fl, x: Fl, y: Fl, l: Seq<Val>, n: u8, v: Val)
    requires good_fields(l, x), f == no_fields(), field_of(x, n, v) == Some(y), val_ok(v, 3), v is ObjectPath || v is String || v is Uint32 || v is Signature
    ensures good_fields(l.push(fv(n, v)), y)
{
    hide(fv); hide(field_of); hide(val_ok); hide(fields_of); hide(code_value); hide(vals_ok);
    fv_ok(n, v); fields_push(f, l, fv(n, v)); vals_ok_push(l, fv(n, v), 4);
    let m = l.push(fv(n, v));
    assert forall|i: int| 0 <= i < m.len() implies ty_of(#[trigger] m[i]) == field_ty() by { if i < l.len() { assert(m[i] == l[i]); } }
}
pub proof fn fields_start() ensures good_fields(Seq::empty(), no_fields()) {}
pub proof fn texts_ok(x: Fl) requires fl_ok(x)
    ensures x.interface is Some ==> vstd::utf8::valid_utf8(x.interface->Some_0), x.member is Some ==> vstd::utf8::valid_utf8(x.member->Some_0), x.error_name is Some ==> vstd::utf8::valid_utf8(x.error_name->Some_0),
        x.destination is Some ==> vstd::utf8::valid_utf8(x.destination->Some_0), x.sender is Some ==> vstd::utf8::valid_utf8(x.sender->Some_0)
{
    hide(dotted); hide(unique_ok); hide(member_ok);
    if let Some(y) = x.interface { dotted_ascii(y, false, false); }
    if let Some(y) = x.error_name { dotted_ascii(y, false, false); }
    if let Some(y) = x.member { member_ascii(y); }
    if let Some(y) = x.destination { if y.len() > 0 && y[0] == 58 { unique_ascii(y); } else { dotted_ascii(y, true, false); } }
    if let Some(y) = x.sender { if y.len() > 0 && y[0] == 58 { unique_ascii(y); } else { dotted_ascii(y, true, false); } }
}
/// the fields that were sent are the fields that are read
pub proof fn fields_back(x: Fl) requires fl_ok(x) ensures good_fields(field_vals(x), x)
{
    hide(fv); hide(path_ok); hide(interface_ok); hide(member_ok); hide(error_ok); hide(bus_ok); hide(sig_ok); hide(fields_of); hide(code_value); hide(good_fields);
    texts_ok(x); fields_start();
    let l0 = Seq::<Val>::empty(); let x0 = no_fields();
    let l1 = match x.path { Some(y) => l0.push(fv(1, Val::ObjectPath(y))), None => l0 }; let x1 = Fl { path: x.path, ..x0 };
    if let Some(y) = x.path { one_field(no_fields(), x0, x1, l0, 1, Val::ObjectPath(y)); }
    assert(good_fields(l1, x1));
    let l2 = match x.interface { Some(y) => l1.push(fv(2, Val::String(y))), None => l1 }; let x2 = Fl { interface: x.interface, ..x1 };
    if let Some(y) = x.interface { one_field(no_fields(), x1, x2, l1, 2, Val::String(y)); }
    assert(good_fields(l2, x2));
    let l3 = match x.member { Some(y) => l2.push(fv(3, Val::String(y))), None => l2 }; let x3 = Fl { member: x.member, ..x2 };
    if let Some(y) = x.member { one_field(no_fields(), x2, x3, l2, 3, Val::String(y)); }
    assert(good_fields(l3, x3));
    let l4 = match x.error_name { Some(y) => l3.push(fv(4, Val::String(y))), None => l3 }; let x4 = Fl { error_name: x.error_name, ..x3 };
    if let Some(y) = x.error_name { one_field(no_fields(), x3, x4, l3, 4, Val::String(y)); }
    assert(good_fields(l4, x4));
    let l5 = match x.reply_serial { Some(y) => l4.push(fv(5, Val::Uint32(y))), None => l4 }; let x5 = Fl { reply_serial: x.reply_serial, ..x4 };
    if let Some(y) = x.reply_serial { one_field(no_fields(), x4, x5, l4, 5, Val::Uint32(y)); }
    assert(good_fields(l5, x5));
    let l6 = match x.destination { Some(y) => l5.push(fv(6, Val::String(y))), None => l5 }; let x6 = Fl { destination: x.destination, ..x5 };
    if let Some(y) = x.destination { one_field(no_fields(), x5, x6, l5, 6, Val::String(y)); }
    assert(good_fields(l6, x6));
    let l7 = match x.sender { Some(y) => l6.push(fv(7, Val::String(y))), None => l6 }; let x7 = Fl { sender: x.sender, ..x6 };
    if let Some(y) = x.sender { one_field(no_fields(), x6, x7, l6, 7, Val::String(y)); }
    assert(good_fields(l7, x7));
    let l8 = match x.signature { Some(y) => l7.push(fv(8, Val::Signature(y))), None => l7 }; let x8 = Fl { signature: x.signature, ..x7 };
    if let Some(y) = x.signature { one_field(no_fields(), x7, x8, l7, 8, Val::Signature(y)); }
    assert(good_fields(l8, x8));
    let l9 = match x.unix_fds { Some(y) => l8.push(fv(9, Val::Uint32(y))), None => l8 }; let x9 = Fl { unix_fds: x.unix_fds, ..x8 };
    if let Some(y) = x.unix_fds { one_field(no_fields(), x8, x9, l8, 9, Val::Uint32(y)); }
    assert(good_fields(l9, x9));
    assert(x9 == x); assert(l9 == field_vals(x));
}
// ---------------------------------------------------------------- messages
/// every new descriptor takes at least a byte
pub proof fn ix_count(p: int, le: bool, f: Seq<i32>, v: Val) requires wv(p, le, f, v) is Some, p >= 0 ensures ix_val(f, v).1.len() <= f.len() + wv(p, le, f, v)->Some_0.len() decreases v
{
    hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(show_all); hide(ty_of); hide(wr_u16); hide(wr_u64);
    pad_cong(p, p, 8); pad_cong(p, p, 4);
    match v {
        Val::UnixFD(d) => { num32((index_of(f, d).0 as i32) as u32, le); }
        Val::Array(t, l) => { let q = p + pad(p, 4) + 4; align_ok(t); pad_cong(q, q, align(t) as int); ix_count_list(q + pad(q, align(t) as int), le, f, l); }
        Val::Struct(l) => { ix_count_list(p + pad(p, 8), le, f, l); }
        Val::Dict(k, x) => { let q = p + pad(p, 8); ix_count(q, le, f, *k); ix_count(q + wv(q, le, f, *k)->Some_0.len(), le, ix_val(f, *k).1, *x); }
        Val::Variant(x) => { ix_ty(f, *x); ix_count(p + m_sig(seq![ty_of(*x)]).len(), le, f, *x); }
        _ => {}
    }
}
pub proof fn ix_count_list(p: int, le: bool, f: Seq<i32>, l: Seq<Val>) requires wl(p, le, f, l) is Some, p >= 0 ensures ix_list(f, l).1.len() <= f.len() + wl(p, le, f, l)->Some_0.len() decreases l
{ if l.len() > 0 { wl_step(p, le, f, l); ix_count(p, le, f, l[0]); ix_count_list(p + wv(p, le, f, l[0])->Some_0.len(), le, ix_val(f, l[0]).1, l.drop_first()); } }
/// what the library's types guarantee of a message: known type and flags, required fields present, valid contents (C05, C06, C08, C12), and at most four variants inside each other
pub open spec fn hd_ok(h: Hd) -> bool { 1 <= h.mt <= 4 && h.fl & !7u8 == 0 && required(h.mt, h.f) && fl_ok(h.f) }
pub open spec fn msg_valid(m: Msg) -> bool { hd_ok(m.h) && vals_ok(m.body, 4) }
pub proof fn b_first(c: Cx, h: Hd, n: u32) requires at(c.b, 0, m_first(h, n)), 1 <= h.mt <= 4, h.fl & !7u8 == 0
    ensures d_le(c, start()) == Ok::<_, E>((h.le, St { o: 1, m: -1 })), d_mt(c, St { o: 1, m: -1 }) == Ok::<_, E>((h.mt, St { o: 2, m: -1 })), d_fl(c, St { o: 2, m: -1 }) == Ok::<_, E>((h.fl, St { o: 3, m: -1 })),
        d_u8(c, St { o: 3, m: -1 }) == Ok::<_, E>((h.ver, St { o: 4, m: -1 })), d_u32(c, St { o: 4, m: -1 }, h.le) == Ok::<_, E>((n, St { o: 8, m: -1 })), d_u32(c, St { o: 8, m: -1 }, h.le) == Ok::<_, E>((h.serial, St { o: 12, m: -1 }))
{
    let e = if h.le { 0x6cu8 } else { 0x42u8 };
    let a = seq![e, h.mt, h.fl, h.ver]; let x = wr_u32(n, h.le); let y = wr_u32(h.serial, h.le);
    num32(n, h.le); num32(h.serial, h.le);
    assert(m_first(h, n) =~= a + x + y);
    at_cat(c.b, 0, a + x, y); at_cat(c.b, 0, a, x);
    assert(a =~= seq![e] + (seq![h.mt] + (seq![h.fl] + seq![h.ver])));
    at_cat(c.b, 0, seq![e], seq![h.mt] + (seq![h.fl] + seq![h.ver])); at_cat(c.b, 1, seq![h.mt], seq![h.fl] + seq![h.ver]); at_cat(c.b, 2, seq![h.fl], seq![h.ver]);
    b_take(c, start(), seq![e]); b_take(c, St { o: 1, m: -1 }, seq![h.mt]); b_take(c, St { o: 2, m: -1 }, seq![h.fl]); b_take(c, St { o: 3, m: -1 }, seq![h.ver]);
    reveal(pad); broadcast use zs_nil; assert(fix(4, 4, x) =~= x); assert(fix(8, 4, y) =~= y);
    b_u32(c, St { o: 4, m: -1 }, 4, h.le, n); b_u32(c, St { o: 8, m: -1 }, 8, h.le, h.serial);
}
pub proof fn b_head(c: Cx, h: Hd, k: nat, body: Option<(u32, Seq<Ty>)>)
    requires hd_ok(h), m_head(h, k, body) is Some, at(c.b, 0, m_head(h, k, body)->Some_0), c.b.len() <= 134217728, body is Some ==> sig_ok(body->Some_0.1) && body->Some_0.0 != 0
    ensures d_head(c, start()) == Ok::<_, E>(((Hd { f: sent(h.f, None, k), ..h }, body), St { o: m_head(h, k, body)->Some_0.len() as int, m: -1 }))
{
    hide(m_val); hide(field_vals); hide(ix_val); hide(d_arr); hide(d_u32); hide(d_u8); hide(d_le); hide(d_mt); hide(d_fl); hide(m_first); hide(path_ok); hide(interface_ok); hide(member_ok); hide(error_ok); hide(bus_ok); hide(sig_ok); hide(fields_of); hide(vals_ok);
    let n = match body { Some((n, _)) => n, None => 0 };
    let sig = match body { Some((_, l)) => Some(l), None => None };
    let x = sent(h.f, sig, k);
    let v = Val::Array(field_ty(), field_vals(x));
    let f = Seq::<i32>::empty();
    let a = m_val(12, h.le, v)->Some_0;
    at_cat(c.b, 0, m_first(h, n), a);
    first_len(h, n);
    b_first(c, h, n);
    ix_arr(f, x); ix_fields(f, x); fields_back(x);
    let s = St { o: 12, m: -1 };
    assert(c.f.subrange(0, 0) =~= f);
    b_arr(c, s, 12, h.le, 0, v, field_ty(), field_vals(x), f);
    assert(required(h.mt, Fl { signature: None, ..x }) == required(h.mt, h.f));
}
pub proof fn first_len(h: Hd, n: u32) ensures m_first(h, n).len() == 12 {}
/// C02: what was encoded is read back, to the last byte and descriptor
pub proof fn msg_back(m: Msg)
    requires m_msg(m) is Some, msg_valid(m), m_msg(m)->Some_0.0.len() <= 134217728
    ensures ({ let (b, g) = m_msg(m)->Some_0; dec(b, g) == Ok::<_, E>((Msg { h: Hd { f: sent(m.h.f, None, g.len()), ..m.h }, body: m.body }, St { o: b.len() as int, m: g.len() - 1 })) && g.len() <= 134217728 })
{
    hide(m_val); hide(m_list); hide(ix_list); hide(ix_val); hide(m_head); hide(sig_ok); hide(hd_ok); hide(vals_ok); hide(d_list); hide(d_head); hide(tys_of); hide(sent); hide(zs); hide(al);
    let (b, g) = m_msg(m)->Some_0;
    let c = Cx { b, f: g };
    let le = m.h.le; let e = Seq::<i32>::empty(); let l = m.body;
    let x = wl(0, le, e, l)->Some_0;
    let n = x.len() as u32; let t = tys_of(l);
    let plan = if n == 0 { None } else { Some((n, t)) };
    let y = m_head(m.h, g.len(), plan)->Some_0;
    let k = pad(y.len() as int, 8);
    pad_cong(y.len() as int, y.len() as int, 8); zs_len(k);
    assert(b == y + zs(k) + x);
    assert(b.subrange(0, b.len() as int) =~= b); assert(cap(b) == b);
    at_cat(b, 0, y + zs(k), x); at_cat(b, 0, y, zs(k));
    ix_count_list(0, le, e, l);
    b_head(c, m.h, g.len(), plan);
    let s1 = St { o: y.len() as int, m: -1 };
    b_al(c, s1, y.len() as int, 8);
    let s2 = St { o: y.len() + k, m: -1 };
    assert(g.subrange(0, g.len() as int) =~= g);
    assert(cong(0, s2.o)) by { pad_bound(y.len() as int, 8); }
    assert(n == x.len());
    if n == 0 {
        sig_end(l); no_body(e, 0, le, l); assert(l =~= Seq::empty()); assert(x.len() == 0);
    } else {
        b_list(c, s2, 0, le, 0, l, e);
    }
}
} // verus!
}
