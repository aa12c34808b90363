// C04: the reader accepts exactly the correct marshallings, and reads them right; C10: the indices that are read.
pub mod sd {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
use crate::ms::*;
use crate::mw::*;
use crate::lm::*;
use crate::pf::*;
use crate::rt::*;
use crate::fd::*;
verus! {
pub open spec fn max(a: int, b: int) -> int { if a > b { a } else { b } }
/// the highest index in a value whose descriptors are indices; -1: there is none
pub open spec fn top(v: Val) -> int decreases v {
    match v {
        Val::UnixFD(i) => (i as u32) as int,
        Val::Array(t, l) => top_all(l),
        Val::Struct(l) => top_all(l),
        Val::Dict(k, x) => max(top(*k), top(*x)),
        Val::Variant(x) => top(*x),
        _ => -1,
    }
}
pub open spec fn top_all(l: Seq<Val>) -> int decreases l { if l.len() == 0 { -1 } else { max(top(l[0]), top_all(l.drop_first())) } }
pub proof fn top_min(v: Val) ensures top(v) >= -1 decreases v
{ match v { Val::Array(t, l) => { top_min_all(l); } Val::Struct(l) => { top_min_all(l); } Val::Dict(k, x) => { top_min(*k); top_min(*x); } Val::Variant(x) => { top_min(*x); } _ => {} } }
pub proof fn top_min_all(l: Seq<Val>) ensures top_all(l) >= -1 decreases l { if l.len() > 0 { top_min(l[0]); top_min_all(l.drop_first()); } }
/// the descriptors play no part in what types and contents are allowed
pub proof fn look_ok(f: Seq<i32>, w: Val, k: int) ensures val_ok(lookup(f, w), k) == val_ok(w, k), ty_of(lookup(f, w)) == ty_of(w) decreases w, 0int
{
    hide(path_ok); hide(sig_ok); hide(ty_ok); hide(show);
    match w {
        Val::Array(t, l) => { look_ok_all(f, l, k); look_of_ty(f, l, t); }
        Val::Struct(l) => { look_ok_all(f, l, k); }
        Val::Dict(a, b) => { look_ok(f, *a, k); look_ok(f, *b, k); }
        Val::Variant(x) => { look_ok(f, *x, k - 1); }
        _ => {}
    }
}
pub proof fn look_ok_all(f: Seq<i32>, l: Seq<Val>, k: int) ensures vals_ok(lookup_all(f, l), k) == vals_ok(l, k), tys_of(lookup_all(f, l)) == tys_of(l), lookup_all(f, l).len() == l.len() decreases l, 0int
{
    hide(path_ok); hide(sig_ok); hide(ty_ok); hide(show);
    if l.len() > 0 { let r = lookup_all(f, l.drop_first()); look_ok(f, l[0], k); look_ok_all(f, l.drop_first(), k); assert((seq![lookup(f, l[0])] + r).drop_first() =~= r); }
}
pub proof fn look_of_ty(f: Seq<i32>, l: Seq<Val>, t: Ty) ensures of_ty(lookup_all(f, l), t) == of_ty(l, t) decreases l, 1int
{
    hide(ty_of);
    look_ok_all(f, l, 0); let m = lookup_all(f, l); tys_at(l); tys_at(m);
    assert forall|i: int| 0 <= i < l.len() implies ty_of(#[trigger] l[i]) == ty_of(m[i]) by { assert(tys_of(l)[i] == tys_of(m)[i]); }
    assert forall|i: int| 0 <= i < l.len() implies ty_of(l[i]) == ty_of(#[trigger] m[i]) by { assert(ty_of(l[i]) == ty_of(m[i])); }
}
// ---------------------------------------------------------------- numbers and texts: what was read is what a writer writes
pub proof fn un16(b: Seq<u8>, le: bool) requires b.len() == 2 ensures wr_u16(rd_u16(b, le), le) == b { assert(wr_u16(rd_u16(b, le), le) =~= b); }
proof fn four(a: u8, b: u8, c: u8, d: u8)
    ensures ({ let x = a as int + 0x100 * b + 0x10000 * c + 0x1000000 * d; 0 <= x < 0x1_0000_0000 && x % 256 == a && x / 0x100 % 256 == b && x / 0x10000 % 256 == c && x / 0x1000000 == d })
{
    let x = a as int + 0x100 * b + 0x10000 * c + 0x1000000 * d; let y = b as int + 0x100 * c + 0x10000 * d; let z = c as int + 0x100 * d;
    assert(x == a + 0x100 * y); assert(x / 0x100 == y); assert(x % 256 == a);
    assert(y == b + 0x100 * z); assert(y % 256 == b);
    assert(x == (a + 0x100 * b) + 0x10000 * z); assert(x / 0x10000 == z); assert(z % 256 == c);
}
pub proof fn un32(b: Seq<u8>, le: bool) requires b.len() == 4 ensures wr_u32(rd_u32(b, le), le) == b
{
    if le { four(b[0], b[1], b[2], b[3]); } else { four(b[3], b[2], b[1], b[0]); }
    let w = wr_u32(rd_u32(b, le), le);
    assert(w[0] == b[0] && w[1] == b[1] && w[2] == b[2] && w[3] == b[3]);
    assert(w =~= b);
}
proof fn two(lo: u32, hi: u32) ensures ({ let x = (lo as int + 0x1_0000_0000 * hi) as u64; (x % 0x1_0000_0000) as u32 == lo && (x / 0x1_0000_0000) as u32 == hi })
{ let x = lo as int + 0x1_0000_0000 * hi; assert(x <= u64::MAX); assert(x % 0x1_0000_0000 == lo); assert(x / 0x1_0000_0000 == hi); }
pub proof fn un64(b: Seq<u8>, le: bool) requires b.len() == 8 ensures wr_u64(rd_u64(b, le), le) == b
{
    hide(rd_u32); hide(wr_u32);
    let x = b.subrange(0, 4); let y = b.subrange(4, 8);
    un32(x, le); un32(y, le);
    assert(rd_u32(b, le) == rd_u32(x, le)) by { reveal(rd_u32); }
    if le { two(rd_u32(x, le), rd_u32(y, le)); } else { two(rd_u32(y, le), rd_u32(x, le)); }
    assert(wr_u64(rd_u64(b, le), le) == x + y);
    assert(x + y =~= b);
}
pub proof fn unsigned(a: u16, b: u32, c: u64) ensures (a as i16) as u16 == a, (b as i32) as u32 == b, (c as i64) as u64 == c
{ assert((a as i16) as u16 == a) by (bit_vector); assert((b as i32) as u32 == b) by (bit_vector); assert((c as i64) as u64 == c) by (bit_vector); }
/// the bytes from s to o
pub open spec fn span(c: Cx, s: St, o: int) -> Seq<u8> { c.b.subrange(s.o, o) }
pub open spec fn inside(c: Cx, s: St) -> bool { 0 <= s.o <= c.b.len() }
pub proof fn span_cat(c: Cx, a: int, b: int, e: int) requires 0 <= a <= b <= e <= c.b.len() ensures c.b.subrange(a, e) == c.b.subrange(a, b) + c.b.subrange(b, e) { assert(c.b.subrange(a, e) =~= c.b.subrange(a, b) + c.b.subrange(b, e)); }
pub proof fn s_al(c: Cx, s: St, a: int) requires inside(c, s), step_ok(a), al(c, s, a) is Ok
    ensures ({ let r = al(c, s, a)->Ok_0; inside(c, r) && s.o <= r.o && r.m == s.m && r.o == s.o + pad(s.o, a) && span(c, s, r.o) == zs(pad(s.o, a)) })
{ pad_bound(s.o, a); let r = al(c, s, a)->Ok_0; assert(zeros(span(c, s, r.o))); assert(span(c, s, r.o) =~= zs(pad(s.o, a))); }
pub proof fn s_num(c: Cx, s: St, n: int) requires inside(c, s), step_ok(n), num(c, s, n) is Ok
    ensures ({ let (b, r) = num(c, s, n)->Ok_0; inside(c, r) && s.o + n <= r.o && r.m == s.m && b.len() == n && span(c, s, r.o) == fix(s.o, n, b) })
{ s_al(c, s, n); let (b, r) = num(c, s, n)->Ok_0; span_cat(c, s.o, s.o + pad(s.o, n), r.o); }
pub proof fn s_u32(c: Cx, s: St, le: bool) requires inside(c, s), d_u32(c, s, le) is Ok
    ensures ({ let (v, r) = d_u32(c, s, le)->Ok_0; inside(c, r) && s.o + 4 <= r.o && r.o == s.o + pad(s.o, 4) + 4 && r.m == s.m && span(c, s, r.o) == fix(s.o, 4, wr_u32(v, le)) })
{ hide(rd_u32); hide(wr_u32); s_num(c, s, 4); s_al(c, s, 4); un32(num(c, s, 4)->Ok_0.0, le); }
pub proof fn s_str(c: Cx, s: St, n: int) requires inside(c, s), n >= 0, d_str(c, s, n) is Ok
    ensures ({ let (b, r) = d_str(c, s, n)->Ok_0; inside(c, r) && r.o == s.o + n + 1 && r.m == s.m && b.len() == n && span(c, s, r.o) == b + seq![0u8] })
{ let (b, r) = d_str(c, s, n)->Ok_0; assert(span(c, s, r.o) =~= b + seq![0u8]); }
pub proof fn s_str32(c: Cx, s: St, le: bool) requires inside(c, s), d_str32(c, s, le) is Ok
    ensures ({ let (b, r) = d_str32(c, s, le)->Ok_0; inside(c, r) && s.o < r.o && r.m == s.m && span(c, s, r.o) == m_str(s.o, le, b) })
{
    hide(wr_u32); hide(d_u32); hide(d_str);
    s_u32(c, s, le); let (n, s1) = d_u32(c, s, le)->Ok_0; s_str(c, s1, n as int); let (b, r) = d_str32(c, s, le)->Ok_0;
    span_cat(c, s.o, s1.o, r.o);
    assert(m_str(s.o, le, b) =~= fix(s.o, 4, wr_u32(n, le)) + (b + seq![0u8]));
}
pub proof fn s_str8(c: Cx, s: St) requires inside(c, s), d_str8(c, s) is Ok
    ensures ({ let (b, r) = d_str8(c, s)->Ok_0; inside(c, r) && s.o < r.o && r.m == s.m && b.len() <= 255 && span(c, s, r.o) == seq![b.len() as u8] + b + seq![0u8] })
{
    hide(d_str);
    let (n, s1) = d_u8(c, s)->Ok_0; s_str(c, s1, n as int); let (b, r) = d_str8(c, s)->Ok_0;
    span_cat(c, s.o, s1.o, r.o);
    assert(span(c, s, s1.o) =~= seq![n]);
    assert(seq![n] + (b + seq![0u8]) =~= seq![n] + b + seq![0u8]);
}
pub proof fn s_sig(c: Cx, s: St) requires inside(c, s)
    ensures
        d_sig(c, s) is Ok ==> ({ let (l, r) = d_sig(c, s)->Ok_0; inside(c, r) && s.o < r.o && r.m == s.m && sig_ok(l) && span(c, s, r.o) == m_sig(l) }),
        d_type(c, s) is Ok ==> ({ let (t, r) = d_type(c, s)->Ok_0; inside(c, r) && s.o < r.o && r.m == s.m && sig_ok(seq![t]) && span(c, s, r.o) == m_sig(seq![t]) })
{
    hide(d_str8);
    if d_str8(c, s) is Ok {
        s_str8(c, s); let b = d_str8(c, s)->Ok_0.0;
        sig_iff(b); rd_all_sound(b, 0); rd_sound(b, 0, 0, 0, 0); assert(b.subrange(0, b.len() as int) =~= b);
        if one_type(b) is Some { one_sig(one_type(b)->Some_0); }
    }
}
/// v, read from s up to r, is w with its indices looked up, and w is what stands there
pub open spec fn good(c: Cx, s: St, le: bool, w: Val, v: Val, r: St) -> bool {
    &&& m_val(s.o, le, w) == Some(span(c, s, r.o))
    &&& lookup(c.f, w) == v && ty_of(w) == ty_of(v)
    &&& top(w) < c.f.len() && r.m == max(s.m, top(w))
    &&& s.o < r.o <= c.b.len()
}
pub open spec fn good_all(c: Cx, s: St, le: bool, w: Seq<Val>, v: Seq<Val>, r: St) -> bool {
    &&& m_list(s.o, le, w) == Some(span(c, s, r.o))
    &&& lookup_all(c.f, w) == v && tys_of(w) == tys_of(v) && w.len() == v.len()
    &&& top_all(w) < c.f.len() && r.m == max(s.m, top_all(w))
    &&& s.o <= r.o <= c.b.len()
}
// ---------------------------------------------------------------- soundness: what is accepted is a marshalling
pub proof fn s_basic(c: Cx, s: St, le: bool, t: Ty) -> (w: Val)
    requires inside(c, s), s.m >= -1, d_basic(c, s, le, t) is Ok
    ensures good(c, s, le, w, d_basic(c, s, le, t)->Ok_0.0, d_basic(c, s, le, t)->Ok_0.1), is_basic(w)
{
    hide(num); hide(d_u32); hide(d_str32); hide(d_sig); hide(path_ok); hide(sig_ok); hide(wr_u16); hide(wr_u32); hide(wr_u64); hide(rd_u16); hide(rd_u32); hide(rd_u64); hide(fix); hide(m_sig);
    let (v, r) = d_basic(c, s, le, t)->Ok_0;
    match t {
        Ty::Byte => { assert(span(c, s, r.o) =~= seq![v->Byte_0]); }
        Ty::Boolean => { s_u32(c, s, le); }
        Ty::Int16 => { s_num(c, s, 2); let b = num(c, s, 2)->Ok_0.0; un16(b, le); unsigned(rd_u16(b, le), 0, 0); }
        Ty::Uint16 => { s_num(c, s, 2); un16(num(c, s, 2)->Ok_0.0, le); }
        Ty::Int32 => { s_num(c, s, 4); let b = num(c, s, 4)->Ok_0.0; un32(b, le); unsigned(0, rd_u32(b, le), 0); }
        Ty::Uint32 => { s_num(c, s, 4); un32(num(c, s, 4)->Ok_0.0, le); }
        Ty::Int64 => { s_num(c, s, 8); let b = num(c, s, 8)->Ok_0.0; un64(b, le); unsigned(0, 0, rd_u64(b, le)); }
        Ty::Uint64 => { s_num(c, s, 8); un64(num(c, s, 8)->Ok_0.0, le); }
        Ty::Double => { s_num(c, s, 8); un64(num(c, s, 8)->Ok_0.0, le); }
        Ty::UnixFD => { s_u32(c, s, le); let i = d_u32(c, s, le)->Ok_0.0; unsigned(0, i, 0); let w = Val::UnixFD(i as i32); assert(lookup(c.f, w) == v); return w; }
        Ty::String => { s_str32(c, s, le); }
        Ty::ObjectPath => { s_str32(c, s, le); }
        Ty::Signature => { s_sig(c, s); }
        _ => {}
    }
    v
}
pub proof fn s_val(c: Cx, s: St, le: bool, d: int, t: Ty) -> (w: Val)
    requires inside(c, s), s.m >= -1, d <= 4, d_val(c, s, le, d, t) is Ok
    ensures good(c, s, le, w, d_val(c, s, le, d, t)->Ok_0.0, d_val(c, s, le, d, t)->Ok_0.1)
    decreases 5 - d, t, 0int
{
    hide(d_basic); hide(d_type); hide(al); hide(m_basic); hide(sig_ok); hide(m_sig); hide(show_all); hide(zs); hide(wr_u32); hide(d_u32); hide(align); hide(one_type);
    let (v, r) = d_val(c, s, le, d, t)->Ok_0;
    read_ok(c, s, le, d, t);
    match t {
        Ty::Array(e) => { let l = s_arr(c, s, le, d, *e); let w = Val::Array(*e, l); w }
        Ty::Struct(l) => {
            s_al(c, s, 8); let s1 = al(c, s, 8)->Ok_0; let x = s_list(c, s1, le, d, l); let w = Val::Struct(x);
            list_len(c, s1, le, d, l); list_count(c, s1, le, d, l);
            span_cat(c, s.o, s1.o, r.o); top_min_all(x);
            w
        }
        Ty::Dict(k, y) => {
            s_al(c, s, 8); let s1 = al(c, s, 8)->Ok_0; let a = s_val(c, s1, le, d, *k); let s2 = d_val(c, s1, le, d, *k)->Ok_0.1;
            top_min(a);
            let b = s_val(c, s2, le, d, *y); let w = Val::Dict(Box::new(a), Box::new(b));
            span_cat(c, s1.o, s2.o, r.o); span_cat(c, s.o, s1.o, r.o);
            assert((zs(pad(s.o, 8)) + span(c, s1, s2.o)) + span(c, s2, r.o) =~= zs(pad(s.o, 8)) + (span(c, s1, s2.o) + span(c, s2, r.o)));
            w
        }
        Ty::Variant => {
            s_sig(c, s); let (u, s2) = d_type(c, s)->Ok_0; read_ok(c, s2, le, d + 1, u);
            let x = s_val(c, s2, le, d + 1, u); let w = Val::Variant(Box::new(x));
            span_cat(c, s.o, s2.o, r.o);
            w
        }
        _ => { let w = s_basic(c, s, le, t); w }
    }
}
pub proof fn s_arr(c: Cx, s: St, le: bool, d: int, e: Ty) -> (w: Seq<Val>)
    requires inside(c, s), s.m >= -1, d <= 4, d_arr(c, s, le, d, e) is Ok
    ensures good(c, s, le, Val::Array(e, w), Val::Array(e, d_arr(c, s, le, d, e)->Ok_0.0), d_arr(c, s, le, d, e)->Ok_0.1), w.len() == d_arr(c, s, le, d, e)->Ok_0.0.len(),
        lookup_all(c.f, w) == d_arr(c, s, le, d, e)->Ok_0.0
    decreases 5 - d, e, 0x1000_0000int
{
    hide(al); hide(zs); hide(wr_u32); hide(d_u32); hide(align); hide(m_basic); hide(sig_ok); hide(m_sig);
    let (v, r) = d_arr(c, s, le, d, e)->Ok_0;
    s_u32(c, s, le); let (n, s1) = d_u32(c, s, le)->Ok_0;
    align_ok(e); s_al(c, s1, align(e) as int); let s2 = al(c, s1, align(e) as int)->Ok_0;
    items_len(c, s2, le, d, e, s2.o + n);
    let w = s_items(c, s2, le, d, e, s2.o + n);
    span_cat(c, s.o, s1.o, r.o); span_cat(c, s1.o, s2.o, r.o);
    let x = span(c, s2, r.o);
    assert(x.len() == n);
    let a = zs(pad(s.o, 4)); let b = wr_u32(n, le); let k = zs(pad(s1.o, align(e) as int));
    assert((a + b) + (k + x) =~= a + b + k + x);
    top_min_all(w);
    w
}
pub proof fn s_items(c: Cx, s: St, le: bool, d: int, e: Ty, end: int) -> (w: Seq<Val>)
    requires inside(c, s), s.m >= -1, d <= 4, d_items(c, s, le, d, e, end) is Ok
    ensures good_all(c, s, le, w, d_items(c, s, le, d, e, end)->Ok_0.0, d_items(c, s, le, d, e, end)->Ok_0.1)
    decreases 5 - d, e, (if end > s.o { end - s.o } else { 0 }) + 1
{
    hide(d_basic); hide(d_type); hide(al); hide(m_basic); hide(sig_ok); hide(m_sig); hide(zs); hide(wr_u32); hide(d_u32); hide(align);
    let (v, r) = d_items(c, s, le, d, e, end)->Ok_0;
    if s.o >= end { assert(span(c, s, r.o) =~= Seq::empty()); Seq::empty() }
    else {
        let a = s_val(c, s, le, d, e); let (y, s2) = d_val(c, s, le, d, e)->Ok_0; top_min(a);
        let b = s_items(c, s2, le, d, e, end); let z = d_items(c, s2, le, d, e, end)->Ok_0.0;
        cons_good(c, s, le, a, b, y, z, s2, r); seq![a] + b
    }
}
proof fn cons_good(c: Cx, s: St, le: bool, a: Val, b: Seq<Val>, y: Val, z: Seq<Val>, s2: St, r: St)
    requires inside(c, s), good(c, s, le, a, y, s2), good_all(c, s2, le, b, z, r) ensures good_all(c, s, le, seq![a] + b, seq![y] + z, r)
{
    hide(m_basic); hide(sig_ok); hide(m_sig); hide(zs); hide(wr_u32); hide(align);
    let w = seq![a] + b; let v = seq![y] + z;
    assert(w.drop_first() =~= b); assert(v.drop_first() =~= z);
    span_cat(c, s.o, s2.o, r.o); top_min(a); top_min_all(b);
}
pub proof fn s_list(c: Cx, s: St, le: bool, d: int, l: Seq<Ty>) -> (w: Seq<Val>)
    requires inside(c, s), s.m >= -1, d <= 4, d_list(c, s, le, d, l) is Ok
    ensures good_all(c, s, le, w, d_list(c, s, le, d, l)->Ok_0.0, d_list(c, s, le, d, l)->Ok_0.1)
    decreases 5 - d, l, 0int
{
    hide(d_basic); hide(d_type); hide(al); hide(m_basic); hide(sig_ok); hide(m_sig); hide(zs); hide(wr_u32); hide(d_u32); hide(align);
    let (v, r) = d_list(c, s, le, d, l)->Ok_0;
    if l.len() == 0 { assert(span(c, s, r.o) =~= Seq::empty()); Seq::empty() }
    else {
        let a = s_val(c, s, le, d, l[0]); let (y, s2) = d_val(c, s, le, d, l[0])->Ok_0; top_min(a);
        let b = s_list(c, s2, le, d, l.drop_first()); let z = d_list(c, s2, le, d, l.drop_first())->Ok_0.0;
        cons_good(c, s, le, a, b, y, z, s2, r); seq![a] + b
    }
}
// ---------------------------------------------------------------- completeness: every marshalling is accepted, and read right
/// w stands at s, within what a reader inside d variants accepts
pub open spec fn stands(c: Cx, s: St, le: bool, d: int, w: Val) -> bool {
    &&& s.o >= 0 && s.m >= -1 && 0 <= d <= 4 && c.b.len() <= 134217728
    &&& val_ok(w, 4 - d) && top(w) < c.f.len()
    &&& m_val(s.o, le, w) is Some && at(c.b, s.o, m_val(s.o, le, w)->Some_0)
}
pub open spec fn stand(c: Cx, s: St, le: bool, d: int, w: Seq<Val>) -> bool {
    &&& s.o >= 0 && s.m >= -1 && 0 <= d <= 4 && c.b.len() <= 134217728
    &&& vals_ok(w, 4 - d) && top_all(w) < c.f.len()
    &&& m_list(s.o, le, w) is Some && at(c.b, s.o, m_list(s.o, le, w)->Some_0)
}
pub open spec fn then(s: St, x: Seq<u8>, t: int) -> St { St { o: s.o + x.len(), m: max(s.m, t) } }
pub proof fn k_basic(c: Cx, s: St, le: bool, d: int, w: Val)
    requires is_basic(w), stands(c, s, le, d, w)
    ensures d_basic(c, s, le, ty_of(w)) == Ok::<_, E>((lookup(c.f, w), then(s, m_val(s.o, le, w)->Some_0, top(w))))
{
    hide(fix); hide(num); hide(path_ok); hide(sig_ok); hide(d_str32); hide(d_u32); hide(wr_u16); hide(wr_u32); hide(wr_u64); hide(rd_u16); hide(rd_u32); hide(rd_u64); hide(m_str); hide(d_sig); hide(m_sig);
    let p = s.o;
    match w {
        Val::Byte(b) => { b_take(c, s, seq![b]); }
        Val::Boolean(b) => { b_u32(c, s, p, le, if b { 1u32 } else { 0u32 }); }
        Val::Int16(i) => { signed(i, 0, 0); num16(i as u16, le); b_num(c, s, p, 2, wr_u16(i as u16, le)); }
        Val::Uint16(i) => { num16(i, le); b_num(c, s, p, 2, wr_u16(i, le)); }
        Val::Int32(i) => { signed(0, i, 0); num32(i as u32, le); b_num(c, s, p, 4, wr_u32(i as u32, le)); }
        Val::Uint32(i) => { num32(i, le); b_num(c, s, p, 4, wr_u32(i, le)); }
        Val::Int64(i) => { signed(0, 0, i); num64(i as u64, le); b_num(c, s, p, 8, wr_u64(i as u64, le)); }
        Val::Uint64(i) => { num64(i, le); b_num(c, s, p, 8, wr_u64(i, le)); }
        Val::Double(i) => { num64(i, le); b_num(c, s, p, 8, wr_u64(i, le)); }
        Val::String(b) => { b_str32(c, s, p, le, b); }
        Val::ObjectPath(b) => { b_str32(c, s, p, le, b); }
        Val::Signature(l) => { b_sig(c, s, l); }
        Val::UnixFD(i) => { b_u32(c, s, p, le, i as u32); }
        _ => {}
    }
}
pub proof fn k_val(c: Cx, s: St, le: bool, d: int, w: Val)
    requires stands(c, s, le, d, w)
    ensures d_val(c, s, le, d, ty_of(w)) == Ok::<_, E>((lookup(c.f, w), then(s, m_val(s.o, le, w)->Some_0, top(w))))
    decreases w, 1int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    let p = s.o;
    match w {
        Val::Array(t, l) => { k_arr(c, s, le, d, w, t, l); }
        Val::Struct(l) => {
            assert(decreases_to!(w => w->Struct_0));
            pad_cong(p, p, 8); zs_len(pad(p, 8));
            let s1 = St { o: p + pad(p, 8), m: s.m }; let x = m_list(s1.o, le, l)->Some_0;
            at_cat(c.b, p, zs(pad(p, 8)), x); b_al(c, s, p, 8);
            k_list(c, s1, le, d, l); look_ok_all(c.f, l, 0);
        }
        Val::Dict(k, y) => { k_dict(c, s, le, d, w); }
        Val::Variant(y) => {
            assert(decreases_to!(w => *w->Variant_0));
            let t = seq![ty_of(*y)]; one_sig(ty_of(*y));
            let x = m_val(p + m_sig(t).len(), le, *y)->Some_0;
            at_cat(c.b, p, m_sig(t), x); b_sig(c, s, t);
            k_val(c, St { o: p + m_sig(t).len(), m: s.m }, le, d + 1, *y);
        }
        _ => { k_basic(c, s, le, d, w); }
    }
}
pub proof fn k_dict(c: Cx, s: St, le: bool, d: int, w: Val)
    requires w is Dict, stands(c, s, le, d, w)
    ensures d_val(c, s, le, d, ty_of(w)) == Ok::<_, E>((lookup(c.f, w), then(s, m_val(s.o, le, w)->Some_0, top(w))))
    decreases w, 0int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    let p = s.o; let k = w->Dict_0; let y = w->Dict_1;
    assert(decreases_to!(w => *w->Dict_0)); assert(decreases_to!(w => *w->Dict_1));
    let a = zs(pad(p, 8)); pad_cong(p, p, 8); zs_len(pad(p, 8));
    let s1 = St { o: p + pad(p, 8), m: s.m };
    let x1 = m_val(s1.o, le, *k)->Some_0; let x2 = m_val(s1.o + x1.len(), le, *y)->Some_0;
    at_cat(c.b, s.o, a + x1, x2); at_cat(c.b, s.o, a, x1); b_al(c, s, p, 8);
    top_min(*k); top_min(*y);
    k_val(c, s1, le, d, *k);
    k_val(c, then(s1, x1, top(*k)), le, d, *y);
}
pub proof fn k_arr(c: Cx, s: St, le: bool, d: int, w: Val, t: Ty, l: Seq<Val>)
    requires w == Val::Array(t, l), stands(c, s, le, d, w)
    ensures d_arr(c, s, le, d, t) == Ok::<_, E>((lookup_all(c.f, l), then(s, m_val(s.o, le, w)->Some_0, top_all(l))))
    decreases l, 1int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    let p = s.o;
    let q = p + pad(p, 4) + 4; let k = pad(q, align(t) as int);
    let x = m_list(q + k, le, l)->Some_0;
    let n = x.len() as u32;
    num32(n, le); pad_cong(p, p, 4); align_ok(t); zs_len(pad(p, 4)); pad_cong(q, q, align(t) as int); zs_len(k);
    let w1 = zs(pad(p, 4)) + wr_u32(n, le);
    assert(m_val(p, le, w)->Some_0 == w1 + zs(k) + x);
    at_cat(c.b, p, w1 + zs(k), x); at_cat(c.b, p, w1, zs(k));
    assert(fix(p, 4, wr_u32(n, le)) == w1) by { reveal(fix); }
    b_u32(c, s, p, le, n);
    let s1 = St { o: p + w1.len(), m: s.m };
    b_al(c, s1, q, align(t) as int);
    k_items(c, St { o: s1.o + k, m: s.m }, le, d, t, l);
}
pub proof fn k_items(c: Cx, s: St, le: bool, d: int, t: Ty, l: Seq<Val>)
    requires stand(c, s, le, d, l), of_ty(l, t)
    ensures d_items(c, s, le, d, t, s.o + m_list(s.o, le, l)->Some_0.len()) == Ok::<_, E>((lookup_all(c.f, l), then(s, m_list(s.o, le, l)->Some_0, top_all(l))))
    decreases l, 0int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    if l.len() > 0 {
        let a = m_val(s.o, le, l[0])->Some_0; let r = l.drop_first(); let b = m_list(s.o + a.len(), le, r)->Some_0;
        at_cat(c.b, s.o, a, b); top_min(l[0]); top_min_all(r);
        assert(ty_of(l[0]) == t);
        assert forall|i: int| 0 <= i < r.len() implies ty_of(#[trigger] r[i]) == t by { assert(r[i] == l[i + 1]); }
        k_val(c, s, le, d, l[0]);
        val_len(c, s, le, d, t);
        k_items(c, then(s, a, top(l[0])), le, d, t, r);
    }
}
pub proof fn k_list(c: Cx, s: St, le: bool, d: int, l: Seq<Val>)
    requires stand(c, s, le, d, l)
    ensures d_list(c, s, le, d, tys_of(l)) == Ok::<_, E>((lookup_all(c.f, l), then(s, m_list(s.o, le, l)->Some_0, top_all(l))))
    decreases l, 0int
{
    hide(fix); hide(zs); hide(wr_u32); hide(sig_ok); hide(m_sig); hide(align); hide(d_basic); hide(m_basic); hide(al); hide(d_type); hide(d_u32); hide(path_ok); hide(show); hide(wf); hide(deep); hide(show_all);
    if l.len() > 0 {
        let a = m_val(s.o, le, l[0])->Some_0; let r = l.drop_first(); let b = m_list(s.o + a.len(), le, r)->Some_0;
        at_cat(c.b, s.o, a, b); top_min(l[0]); top_min_all(r);
        k_val(c, s, le, d, l[0]);
        k_list(c, then(s, a, top(l[0])), le, d, r);
        assert(tys_of(l).drop_first() =~= tys_of(r)); assert(tys_of(l)[0] == ty_of(l[0]));
    } else { assert(s == then(s, m_list(s.o, le, l)->Some_0, top_all(l))); }
}
// ---------------------------------------------------------------- messages
/// a message as it stands on the wire: the fixed header, the elements of the field array in their order, the body's values with indices for descriptors
pub struct Wire { pub h: Hd, pub l: Seq<Val>, pub body: Seq<Val> }
pub open spec fn wire_head(w: Wire, n: u32) -> Option<Seq<u8>> { match m_val(12, w.h.le, Val::Array(field_ty(), w.l)) { Some(a) => Some(m_first(w.h, n) + a), None => None } }
pub open spec fn wire(w: Wire) -> Option<Seq<u8>> {
    match m_list(0, w.h.le, w.body) { None => None, Some(x) => match wire_head(w, x.len() as u32) { None => None, Some(y) => Some(y + zs(pad(y.len() as int, 8)) + x) } }
}
/// known type and flags, known fields that occur once with their type and content, the required ones among them, the body as the signature field says, valid contents, limits, indices below k
pub open spec fn legal(w: Wire, k: nat) -> bool {
    &&& 1 <= w.h.mt <= 4 && w.h.fl & !7u8 == 0
    &&& vals_ok(w.l, 4) && of_ty(w.l, field_ty())
    &&& match fields_of(no_fields(), w.l) { Some(g) => w.h.f == Fl { signature: None, ..g } && (g.signature == Some(tys_of(w.body)) || g.signature is None && w.body.len() == 0), None => false }
    &&& required(w.h.mt, w.h.f)
    &&& vals_ok(w.body, 4) && top_all(w.body) < k
}
/// what a wire message means with the descriptors f
pub open spec fn meant(w: Wire, f: Seq<i32>) -> Msg { Msg { h: w.h, body: lookup_all(f, w.body) } }
proof fn pair(f: Seq<i32>, m: Seq<Val>) requires m.len() == 2
    ensures lookup_all(f, m) == seq![lookup(f, m[0]), lookup(f, m[1])], top_all(m) == max(top(m[0]), top(m[1]))
{
    let r = m.drop_first(); let e = r.drop_first();
    assert(e =~= Seq::empty()); assert(r[0] == m[1]);
    assert(lookup_all(f, e) == Seq::<Val>::empty()); assert(lookup_all(f, r) =~= seq![lookup(f, m[1])]);
    assert(lookup_all(f, m) =~= seq![lookup(f, m[0]), lookup(f, m[1])]);
    top_min(m[1]); assert(top_all(e) == -1); assert(top_all(r) == top(m[1]));
}
proof fn plain_field(f: Seq<i32>, g: Fl, e: Val)
    ensures
        code_value(e) is Some && field_of(g, code_value(e)->Some_0.0, code_value(e)->Some_0.1) is Some ==> lookup(f, e) == e && top(e) == -1,
        code_value(lookup(f, e)) is Some && field_of(g, code_value(lookup(f, e))->Some_0.0, code_value(lookup(f, e))->Some_0.1) is Some ==> lookup(f, e) == e && top(e) == -1
{
    hide(path_ok); hide(interface_ok); hide(member_ok); hide(error_ok); hide(bus_ok); hide(sig_ok);
    if let Val::Struct(m) = e {
        look_ok_all(f, m, 0);
        if m.len() == 2 {
            pair(f, m); assert(seq![m[0], m[1]] =~= m);
            assert(lookup(f, m[0]) is Byte ==> lookup(f, m[0]) == m[0] && top(m[0]) == -1);
            if let Val::Variant(x) = m[1] { assert(lookup(f, m[1]) == Val::Variant(Box::new(lookup(f, *x)))); assert(top(m[1]) == top(*x));
                if lookup(f, *x) is ObjectPath || lookup(f, *x) is String || lookup(f, *x) is Uint32 || lookup(f, *x) is Signature { assert(lookup(f, *x) == *x && top(*x) == -1); } }
        }
    }
}
/// header fields have no descriptors
proof fn plain_fields(f: Seq<i32>, g: Fl, l: Seq<Val>)
    ensures fields_of(g, l) is Some ==> lookup_all(f, l) == l && top_all(l) == -1, fields_of(g, lookup_all(f, l)) is Some ==> lookup_all(f, l) == l && top_all(l) == -1
    decreases l.len()
{
    hide(code_value); hide(field_of);
    if l.len() > 0 {
        let r = l.drop_first(); let q = lookup_all(f, l);
        plain_field(f, g, l[0]);
        assert(q.drop_first() =~= lookup_all(f, r)); assert(q[0] == lookup(f, l[0]));
        assert(seq![l[0]] + r =~= l);
        if let Some((n, v)) = code_value(l[0]) { if let Some(k) = field_of(g, n, v) { plain_fields(f, k, r); } }
        if let Some((n, v)) = code_value(q[0]) { if let Some(k) = field_of(g, n, v) { plain_fields(f, k, r); } }
    } else { assert(l =~= Seq::empty()); }
}
proof fn arr_facts(t: Ty, l: Seq<Val>, k: int) ensures top(Val::Array(t, l)) == top_all(l), val_ok(Val::Array(t, l), k) == (vals_ok(l, k) && of_ty(l, t)) {}
pub proof fn s_first(c: Cx, s: St) requires s == start(), d_head(c, s) is Ok
    ensures ({ let (h, p) = d_head(c, s)->Ok_0.0; let n = d_u32(c, St { o: 4, m: -1 }, h.le)->Ok_0.0; let s6 = St { o: 12, m: -1 };
        &&& inside(c, s6) && c.b.subrange(0, 12) == m_first(h, n) && 1 <= h.mt <= 4 && h.fl & !7u8 == 0
        &&& d_fields(c, s6, h.le) is Ok && d_fields(c, s6, h.le)->Ok_0.1 == d_head(c, s)->Ok_0.1 && d_fields(c, s6, h.le)->Ok_0.0.1 == h.f && body_plan(n, d_fields(c, s6, h.le)->Ok_0.0.0) == Some(p) && required(h.mt, h.f) })
{
    hide(d_fields); hide(required); hide(wr_u32); hide(rd_u32); hide(body_plan); hide(d_u32);
    let (h, p) = d_head(c, s)->Ok_0.0; let le = h.le;
    let s1 = St { o: 1, m: -1 }; let s4 = St { o: 4, m: -1 }; let s5 = St { o: 8, m: -1 };
    assert(d_le(c, s)->Ok_0.1 == s1); assert(d_u8(c, St { o: 3, m: -1 })->Ok_0.1 == s4);
    reveal(pad);
    s_u32(c, s4, le); assert(d_u32(c, s4, le)->Ok_0.1 == s5); s_u32(c, s5, le);
    let (n, t5) = d_u32(c, s4, le)->Ok_0; let (serial, t6) = d_u32(c, s5, le)->Ok_0;
    broadcast use zs_nil;
    let x = wr_u32(n, le); let y = wr_u32(serial, le);
    assert(fix(4, 4, x) =~= x); assert(fix(8, 4, y) =~= y);
    assert(t5 == s5); assert(t6 == St { o: 12, m: -1 });
    assert(x == c.b.subrange(4, 8)); assert(y == c.b.subrange(8, 12));
    let e = if le { 0x6cu8 } else { 0x42u8 };
    assert(c.b.subrange(0, 4) =~= seq![e, h.mt, h.fl, h.ver]);
    span_cat(c, 0, 4, 12); span_cat(c, 4, 8, 12);
    assert(seq![e, h.mt, h.fl, h.ver] + (x + y) =~= m_first(h, n));
}
/// C04: what is accepted is the marshalling of a legal message, which is the one returned
pub proof fn accepts_only(b: Seq<u8>, f: Seq<i32>) -> (w: Wire)
    requires dec(b, f) is Ok
    ensures ({ let (m, r) = dec(b, f)->Ok_0; legal(w, f.len()) && wire(w) == Some(b.subrange(0, r.o)) && 0 <= r.o <= b.len() && r.o <= 134217728 && m == meant(w, f) && r.m == top_all(w.body) })
{
    hide(d_arr); hide(d_list); hide(al); hide(fields_of); hide(required); hide(d_u32); hide(m_first); hide(m_val); hide(m_list); hide(vals_ok); hide(sig_ok); hide(tys_of); hide(lookup_all); hide(top_all); hide(zs); hide(ty_of);
    let c = Cx { b: cap(b), f };
    let s = start();
    msg_len(c, s);
    s_first(c, s);
    let ((h, p), s1) = d_head(c, s)->Ok_0; let le = h.le;
    let n = d_u32(c, St { o: 4, m: -1 }, le)->Ok_0.0;
    let s6 = St { o: 12, m: -1 };
    let l = s_arr(c, s6, le, 0, field_ty()); let q = d_arr(c, s6, le, 0, field_ty())->Ok_0.0;
    arr_ok(c, s6, le, 0, field_ty());
    plain_fields(f, no_fields(), l);
    assert(l == q && top_all(l) == -1);
    let g = fields_of(no_fields(), l)->Some_0;
    arr_facts(field_ty(), l, 4);
    assert(s1.m == -1);
    s_al(c, s1, 8); let s2 = al(c, s1, 8)->Ok_0;
    pad_bound(s1.o, 8);
    span_cat(c, 0, 12, s1.o); span_cat(c, 0, s1.o, s2.o);
    let r = dec(b, f)->Ok_0.1; let m = dec(b, f)->Ok_0.0;
    let body = if let Some((k, t)) = p {
        let x = s_list(c, s2, le, 0, t); list_ok(c, s2, le, 0, t); look_ok_all(f, x, 4); top_min_all(x);
        shift_list(s2.o, 0, le, x);
        span_cat(c, 0, s2.o, r.o);
        x
    } else {
        let x = Seq::<Val>::empty();
        assert(m_list(0, le, x) == Some(Seq::<u8>::empty()) && top_all(x) == -1 && lookup_all(f, x) == x && vals_ok(x, 4)) by { reveal(m_list); reveal(top_all); reveal(lookup_all); reveal(vals_ok); }
        assert(tys_of(x) == Seq::<Ty>::empty()) by { reveal(tys_of); }
        assert(c.b.subrange(0, s2.o) + Seq::<u8>::empty() =~= c.b.subrange(0, s2.o));
        x
    };
    let w = Wire { h, l, body };
    assert(c.b.subrange(0, r.o) =~= b.subrange(0, r.o));
    assert(c.b.subrange(s2.o, r.o).len() == n);
    assert(wire_head(w, n) == Some(c.b.subrange(0, s1.o)));
    if p is None { if g.signature is Some { assert(g.signature->Some_0 =~= tys_of(body)); } }
    assert(vals_ok(l, 4) && of_ty(l, field_ty()));
    assert(g.signature == Some(tys_of(body)) || g.signature is None && body.len() == 0);
    assert(h.f == Fl { signature: None, ..g });
    assert(top_all(body) < f.len());
    assert(vals_ok(body, 4));
    assert(required(h.mt, h.f));
    assert(legal(w, f.len()));
    assert(m == meant(w, f));
    assert(r.m == top_all(w.body));
    assert(wire(w) == Some(b.subrange(0, r.o)));
    w
}
/// C04: every marshalling of a legal message is accepted, whatever follows it, and gives that message
pub proof fn accepts_all(b: Seq<u8>, f: Seq<i32>, w: Wire)
    requires legal(w, f.len()), wire(w) is Some, at(b, 0, wire(w)->Some_0), wire(w)->Some_0.len() <= 134217728
    ensures dec(b, f) == Ok::<_, E>((meant(w, f), St { o: wire(w)->Some_0.len() as int, m: top_all(w.body) }))
{
    hide(d_arr); hide(d_list); hide(al); hide(fields_of); hide(required); hide(d_u32); hide(m_first); hide(m_val); hide(m_list); hide(vals_ok); hide(sig_ok); hide(tys_of); hide(lookup_all); hide(top_all); hide(zs); hide(ty_of); hide(d_le); hide(d_mt); hide(d_fl); hide(d_u8);
    let c = Cx { b: cap(b), f };
    let le = w.h.le;
    let x = m_list(0, le, w.body)->Some_0; let n = x.len() as u32;
    let y = wire_head(w, n)->Some_0; let a = m_val(12, le, Val::Array(field_ty(), w.l))->Some_0;
    let k = pad(y.len() as int, 8);
    let all = wire(w)->Some_0;
    pad_bound(y.len() as int, 8); zs_len(k);
    assert(c.b.subrange(0, all.len() as int) =~= b.subrange(0, all.len() as int));
    assert(at(c.b, 0, all));
    at_cat(c.b, 0, y + zs(k), x); at_cat(c.b, 0, y, zs(k)); at_cat(c.b, 0, m_first(w.h, n), a);
    first_len(w.h, n);
    b_first(c, w.h, n);
    let s6 = St { o: 12, m: -1 };
    plain_fields(f, no_fields(), w.l);
    let v = Val::Array(field_ty(), w.l);
    arr_facts(field_ty(), w.l, 4);
    k_arr(c, s6, le, 0, v, field_ty(), w.l);
    let g = fields_of(no_fields(), w.l)->Some_0;
    let s7 = St { o: y.len() as int, m: -1 };
    assert(d_arr(c, s6, le, 0, field_ty()) == Ok::<_, E>((w.l, s7)));
    assert(n == x.len());
    assert(d_fields(c, s6, le) == Ok::<_, E>(((g.signature, w.h.f), s7)));
    b_al(c, s7, y.len() as int, 8);
    let s8 = St { o: y.len() + k, m: -1 };
    shift_list(s8.o, 0, le, w.body);
    if w.body.len() == 0 {
        assert(w.body =~= Seq::<Val>::empty());
        assert(x.len() == 0 && top_all(w.body) == -1 && lookup_all(f, w.body) == w.body) by { reveal(m_list); reveal(top_all); reveal(lookup_all); }
        assert(tys_of(w.body).len() == 0) by { reveal(tys_of); }
    } else {
        k_list(c, s8, le, 0, w.body);
        list_len(c, s8, le, 0, tys_of(w.body));
        tys_at(w.body);
        top_min_all(w.body);
        assert(x.len() > 0);
    }
}
/// C04, both directions at once
pub proof fn accepts_iff(b: Seq<u8>, f: Seq<i32>, m: Msg, r: St)
    ensures dec(b, f) == Ok::<_, E>((m, r)) <==> exists|w: Wire| #[trigger] legal(w, f.len()) && wire(w) is Some && at(b, 0, wire(w)->Some_0) && r.o == wire(w)->Some_0.len() && r.o <= 134217728 && m == meant(w, f) && r.m == top_all(w.body)
{
    hide(legal); hide(wire); hide(dec); hide(meant); hide(top_all);
    if dec(b, f) == Ok::<_, E>((m, r)) { let w = accepts_only(b, f); assert(at(b, 0, wire(w)->Some_0)); assert(legal(w, f.len())); }
    if exists|w: Wire| #[trigger] legal(w, f.len()) && wire(w) is Some && at(b, 0, wire(w)->Some_0) && r.o == wire(w)->Some_0.len() && r.o <= 134217728 && m == meant(w, f) && r.m == top_all(w.body) {
        let w = choose|w: Wire| #[trigger] legal(w, f.len()) && wire(w) is Some && at(b, 0, wire(w)->Some_0) && r.o == wire(w)->Some_0.len() && r.o <= 134217728 && m == meant(w, f) && r.m == top_all(w.body);
        accepts_all(b, f, w);
    }
}
} // verus!
}
