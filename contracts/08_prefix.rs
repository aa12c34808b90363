// C11: reading does not depend on what follows; cut input is short.
pub mod pf {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
use crate::ms::*;
verus! {
/// p is the beginning of c
pub open spec fn cut(p: Cx, c: Cx) -> bool { p.f == c.f && p.b.len() <= c.b.len() && p.b == c.b.subrange(0, p.b.len() as int) }
/// what reading the beginning says about reading the whole
pub open spec fn agree<T>(p: Cx, rp: Result<(T, St), E>, rc: Result<(T, St), E>) -> bool { if rp is Err && rp->Err_0 is Short { rc is Ok ==> rc->Ok_0.1.o > p.b.len() } else { rc == rp } }
pub open spec fn agree_st(p: Cx, rp: Result<St, E>, rc: Result<St, E>) -> bool { if rp is Err && rp->Err_0 is Short { rc is Ok ==> rc->Ok_0.o > p.b.len() } else { rc == rp } }

pub proof fn c_take(p: Cx, c: Cx, s: St, n: int) requires cut(p, c), s.o >= 0, n >= 0 ensures agree(p, take(p, s, n), take(c, s, n))
{ if s.o + n <= p.b.len() { assert(p.b.subrange(s.o, s.o + n) =~= c.b.subrange(s.o, s.o + n)); } }
pub proof fn c_al(p: Cx, c: Cx, s: St, a: int) requires cut(p, c), s.o >= 0, a > 0 ensures agree_st(p, al(p, s, a), al(c, s, a))
{ pad_bound(s.o, a); c_take(p, c, s, pad(s.o, a)); }
pub proof fn c_num(p: Cx, c: Cx, s: St, n: int) requires cut(p, c), 0 <= s.o <= p.b.len(), n > 0 ensures agree(p, num(p, s, n), num(c, s, n))
{ c_al(p, c, s, n); al_len(p, s, n); al_len(c, s, n); if al(p, s, n) is Ok { c_take(p, c, al(p, s, n)->Ok_0, n); } }
pub proof fn c_u8(p: Cx, c: Cx, s: St) requires cut(p, c), 0 <= s.o ensures agree(p, d_u8(p, s), d_u8(c, s)) { c_take(p, c, s, 1); }
pub proof fn c_u32(p: Cx, c: Cx, s: St, le: bool) requires cut(p, c), 0 <= s.o <= p.b.len() ensures agree(p, d_u32(p, s, le), d_u32(c, s, le)) { hide(num); c_num(p, c, s, 4); }
pub proof fn c_str(p: Cx, c: Cx, s: St, n: int) requires cut(p, c), 0 <= s.o, n >= 0 ensures agree(p, d_str(p, s, n), d_str(c, s, n)) { c_take(p, c, s, n); c_u8(p, c, St { o: s.o + n, m: s.m }); }
pub proof fn c_str32(p: Cx, c: Cx, s: St, le: bool) requires cut(p, c), 0 <= s.o <= p.b.len() ensures agree(p, d_str32(p, s, le), d_str32(c, s, le))
{ hide(d_u32); c_u32(p, c, s, le); str_len(p, s, le); str_len(c, s, le); if d_u32(p, s, le) is Ok { let (n, s2) = d_u32(p, s, le)->Ok_0; c_str(p, c, s2, n as int); } }
pub proof fn c_str8(p: Cx, c: Cx, s: St) requires cut(p, c), 0 <= s.o <= p.b.len() ensures agree(p, d_str8(p, s), d_str8(c, s)), agree(p, d_type(p, s), d_type(c, s)), agree(p, d_sig(p, s), d_sig(c, s))
{ c_u8(p, c, s); if d_u8(p, s) is Ok { let (n, s2) = d_u8(p, s)->Ok_0; c_str(p, c, s2, n as int); } }
pub proof fn c_basic(p: Cx, c: Cx, s: St, le: bool, t: Ty) requires cut(p, c), 0 <= s.o <= p.b.len() ensures agree(p, d_basic(p, s, le, t), d_basic(c, s, le, t))
{
    hide(num); hide(d_u32); hide(d_u8); hide(d_str32); hide(d_sig); hide(path_ok); hide(take);
    match t {
        Ty::Byte => { c_u8(p, c, s); }
        Ty::Int16 | Ty::Uint16 => { c_num(p, c, s, 2); }
        Ty::Int32 | Ty::Uint32 => { c_num(p, c, s, 4); }
        Ty::Int64 | Ty::Uint64 | Ty::Double => { c_num(p, c, s, 8); }
        Ty::Boolean | Ty::UnixFD => { c_u32(p, c, s, le); }
        Ty::String | Ty::ObjectPath => { c_str32(p, c, s, le); }
        Ty::Signature => { c_str8(p, c, s); }
        _ => {}
    }
}
pub proof fn c_val(p: Cx, c: Cx, s: St, le: bool, d: int, t: Ty) requires cut(p, c), 0 <= s.o <= p.b.len(), d <= 4 ensures agree(p, d_val(p, s, le, d, t), d_val(c, s, le, d, t))
    decreases 5 - d, t, 0int
{
    hide(d_basic); hide(al); hide(d_type);
    c_al(p, c, s, 8); al_len(p, s, 8); al_len(c, s, 8); c_str8(p, c, s); str_len(p, s, le); str_len(c, s, le);
    match t {
        Ty::Array(e) => { c_arr(p, c, s, le, d, *e); }
        Ty::Struct(l) => { if al(p, s, 8) is Ok { let s1 = al(p, s, 8)->Ok_0; c_list(p, c, s1, le, d, l); }
            if al(c, s, 8) is Ok { list_len(c, al(c, s, 8)->Ok_0, le, d, l); } }
        Ty::Dict(k, v) => {
            if al(c, s, 8) is Ok { let s1 = al(c, s, 8)->Ok_0; val_len(c, s1, le, d, *k); if d_val(c, s1, le, d, *k) is Ok { val_len(c, d_val(c, s1, le, d, *k)->Ok_0.1, le, d, *v); } }
            if al(p, s, 8) is Ok { let s1 = al(p, s, 8)->Ok_0; c_val(p, c, s1, le, d, *k); val_len(p, s1, le, d, *k); if d_val(p, s1, le, d, *k) is Ok { c_val(p, c, d_val(p, s1, le, d, *k)->Ok_0.1, le, d, *v); } }
        }
        Ty::Variant => {
            if d < 4 && d_type(c, s) is Ok { val_len(c, d_type(c, s)->Ok_0.1, le, d + 1, d_type(c, s)->Ok_0.0); }
            if d < 4 && d_type(p, s) is Ok { c_val(p, c, d_type(p, s)->Ok_0.1, le, d + 1, d_type(p, s)->Ok_0.0); }
        }
        _ => { c_basic(p, c, s, le, t); }
    }
}
pub proof fn c_arr(p: Cx, c: Cx, s: St, le: bool, d: int, e: Ty) requires cut(p, c), 0 <= s.o <= p.b.len(), d <= 4 ensures agree(p, d_arr(p, s, le, d, e), d_arr(c, s, le, d, e))
    decreases 5 - d, e, 0x1000_0000int
{
    hide(d_u32); hide(al);
    let a = align(e) as int;
    c_u32(p, c, s, le); str_len(p, s, le); str_len(c, s, le);
    if d_u32(c, s, le) is Ok { let (n, s1) = d_u32(c, s, le)->Ok_0; al_len(c, s1, a); if al(c, s1, a) is Ok { let s2 = al(c, s1, a)->Ok_0; items_len(c, s2, le, d, e, s2.o + n); } }
    if d_u32(p, s, le) is Ok { let (n, s1) = d_u32(p, s, le)->Ok_0; c_al(p, c, s1, a); al_len(p, s1, a); if n <= 0x400_0000 && al(p, s1, a) is Ok { let s2 = al(p, s1, a)->Ok_0; c_items(p, c, s2, le, d, e, s2.o + n); } }
}
pub proof fn c_items(p: Cx, c: Cx, s: St, le: bool, d: int, e: Ty, end: int) requires cut(p, c), 0 <= s.o <= p.b.len(), d <= 4 ensures agree(p, d_items(p, s, le, d, e, end), d_items(c, s, le, d, e, end))
    decreases 5 - d, e, (if end > s.o { end - s.o } else { 0 }) + 1
{

    if s.o < end {
        c_val(p, c, s, le, d, e); val_len(p, s, le, d, e); val_len(c, s, le, d, e);
        if d_val(c, s, le, d, e) is Ok { items_len(c, d_val(c, s, le, d, e)->Ok_0.1, le, d, e, end); }
        if d_val(p, s, le, d, e) is Ok { c_items(p, c, d_val(p, s, le, d, e)->Ok_0.1, le, d, e, end); }
    }
}
pub proof fn c_list(p: Cx, c: Cx, s: St, le: bool, d: int, l: Seq<Ty>) requires cut(p, c), 0 <= s.o <= p.b.len(), d <= 4 ensures agree(p, d_list(p, s, le, d, l), d_list(c, s, le, d, l))
    decreases 5 - d, l, 0int
{

    if l.len() > 0 {
        c_val(p, c, s, le, d, l[0]); val_len(p, s, le, d, l[0]); val_len(c, s, le, d, l[0]);
        if d_val(c, s, le, d, l[0]) is Ok { list_len(c, d_val(c, s, le, d, l[0])->Ok_0.1, le, d, l.drop_first()); }
        if d_val(p, s, le, d, l[0]) is Ok { c_list(p, c, d_val(p, s, le, d, l[0])->Ok_0.1, le, d, l.drop_first()); }
    }
}
/// a message takes at least sixteen bytes and ends inside the input
pub proof fn head_len(c: Cx, s: St) requires 0 <= s.o <= c.b.len() ensures d_head(c, s) is Ok ==> s.o < d_head(c, s)->Ok_0.1.o <= c.b.len() && s.m <= d_head(c, s)->Ok_0.1.m
{
    hide(d_arr); hide(d_u32); hide(fields_of); hide(required); hide(body_plan);
    if d_le(c, s) is Ok { let (le, s1) = d_le(c, s)->Ok_0; if d_mt(c, s1) is Ok { let s2 = d_mt(c, s1)->Ok_0.1; if d_fl(c, s2) is Ok { let s3 = d_fl(c, s2)->Ok_0.1; if d_u8(c, s3) is Ok { let s4 = d_u8(c, s3)->Ok_0.1;
        str_len(c, s4, le); if d_u32(c, s4, le) is Ok { let s5 = d_u32(c, s4, le)->Ok_0.1; str_len(c, s5, le); if d_u32(c, s5, le) is Ok { let s6 = d_u32(c, s5, le)->Ok_0.1; arr_len(c, s6, le, 0, field_ty()); } } } } } }
}
pub proof fn msg_len(c: Cx, s: St) requires 0 <= s.o <= c.b.len() ensures d_msg(c, s) is Ok ==> s.o < d_msg(c, s)->Ok_0.1.o <= c.b.len() && s.m <= d_msg(c, s)->Ok_0.1.m
{
    hide(d_head); hide(al); hide(d_list);
    head_len(c, s);
    if d_head(c, s) is Ok { let ((h, pl), s1) = d_head(c, s)->Ok_0; al_len(c, s1, 8); if al(c, s1, 8) is Ok { if let Some((n, l)) = pl { list_len(c, al(c, s1, 8)->Ok_0, h.le, 0, l); } } }
}
pub proof fn c_head(p: Cx, c: Cx, s: St) requires cut(p, c), 0 <= s.o <= p.b.len() ensures agree(p, d_head(p, s), d_head(c, s))
{
    hide(d_arr); hide(d_u32); hide(fields_of); hide(required); hide(body_plan); hide(d_u8);
    c_u8(p, c, s); str_len(p, s, true); 
    if d_le(p, s) is Ok { let (le, s1) = d_le(p, s)->Ok_0; u8_len(p, s); c_u8(p, c, s1); if d_mt(p, s1) is Ok { let s2 = d_mt(p, s1)->Ok_0.1; u8_len(p, s1); c_u8(p, c, s2); if d_fl(p, s2) is Ok { let s3 = d_fl(p, s2)->Ok_0.1; u8_len(p, s2); c_u8(p, c, s3); if d_u8(p, s3) is Ok { let s4 = d_u8(p, s3)->Ok_0.1;
        u8_len(p, s3); str_len(p, s4, le); c_u32(p, c, s4, le); if d_u32(p, s4, le) is Ok { let s5 = d_u32(p, s4, le)->Ok_0.1; str_len(p, s5, le); c_u32(p, c, s5, le); if d_u32(p, s5, le) is Ok { let s6 = d_u32(p, s5, le)->Ok_0.1; c_arr(p, c, s6, le, 0, field_ty()); } } } } } }
    up(c, s, p.b.len() as int);
}
pub proof fn u8_len(c: Cx, s: St) requires 0 <= s.o ensures d_u8(c, s) is Ok ==> d_u8(c, s)->Ok_0.1.o == s.o + 1 <= c.b.len() {}
/// offsets grow along the header
pub proof fn up(c: Cx, s: St, n: int) requires 0 <= s.o <= c.b.len()
    ensures d_head(c, s) is Ok ==> ({
        let (le, s1) = d_le(c, s)->Ok_0; let s2 = d_mt(c, s1)->Ok_0.1; let s3 = d_fl(c, s2)->Ok_0.1; let s4 = d_u8(c, s3)->Ok_0.1; let s5 = d_u32(c, s4, le)->Ok_0.1; let s6 = d_u32(c, s5, le)->Ok_0.1;
        s.o < s1.o < s2.o < s3.o < s4.o < s5.o < s6.o < d_head(c, s)->Ok_0.1.o })
{
    hide(d_arr); hide(d_u32); hide(fields_of); hide(required); hide(body_plan);
    if d_le(c, s) is Ok { let (le, s1) = d_le(c, s)->Ok_0; if d_mt(c, s1) is Ok { let s2 = d_mt(c, s1)->Ok_0.1; if d_fl(c, s2) is Ok { let s3 = d_fl(c, s2)->Ok_0.1; if d_u8(c, s3) is Ok { let s4 = d_u8(c, s3)->Ok_0.1;
        str_len(c, s4, le); if d_u32(c, s4, le) is Ok { let s5 = d_u32(c, s4, le)->Ok_0.1; str_len(c, s5, le); if d_u32(c, s5, le) is Ok { let s6 = d_u32(c, s5, le)->Ok_0.1; arr_len(c, s6, le, 0, field_ty()); } } } } } }
}
pub proof fn c_msg(p: Cx, c: Cx, s: St) requires cut(p, c), 0 <= s.o <= p.b.len() ensures agree(p, d_msg(p, s), d_msg(c, s))
{
    hide(d_head); hide(al); hide(d_list);
    c_head(p, c, s); head_len(p, s); head_len(c, s);
    if d_head(c, s) is Ok { let ((h, pl), s1) = d_head(c, s)->Ok_0; al_len(c, s1, 8); if al(c, s1, 8) is Ok { if let Some((n, l)) = pl { list_len(c, al(c, s1, 8)->Ok_0, h.le, 0, l); } } }
    if d_head(p, s) is Ok { let ((h, pl), s1) = d_head(p, s)->Ok_0; c_al(p, c, s1, 8); al_len(p, s1, 8); if al(p, s1, 8) is Ok { if let Some((n, l)) = pl { c_list(p, c, al(p, s1, 8)->Ok_0, h.le, 0, l); } } }
}
/// what `Message::decode_with_fds` does with a buffer and descriptors, by its contract
pub open spec fn dec(b: Seq<u8>, f: Seq<i32>) -> Result<(Msg, St), E> { d_msg(Cx { b: cap(b), f }, start()) }
/// C11: a buffer that continues the consumed bytes in another way gives the same message and the same length
pub proof fn tail_free(b: Seq<u8>, b2: Seq<u8>, f: Seq<i32>)
    requires dec(b, f) is Ok, ({ let n = dec(b, f)->Ok_0.1.o; b2.len() >= n && b2.subrange(0, n) == b.subrange(0, n) })
    ensures dec(b2, f) == dec(b, f), 0 < dec(b, f)->Ok_0.1.o <= b.len()
{
    hide(d_msg);
    let n = dec(b, f)->Ok_0.1.o;
    msg_len(Cx { b: cap(b), f }, start());
    let p = Cx { b: b.subrange(0, n), f };
    assert(p.b =~= cap(b).subrange(0, n));
    assert(p.b =~= cap(b2).subrange(0, n));
    c_msg(p, Cx { b: cap(b), f }, start());
    c_msg(p, Cx { b: cap(b2), f }, start());
}
/// C11: a buffer cut off before that length is rejected because bytes are missing
pub proof fn cut_short(b: Seq<u8>, k: int, f: Seq<i32>)
    requires dec(b, f) is Ok, 0 <= k < dec(b, f)->Ok_0.1.o
    ensures dec(b.subrange(0, k), f) is Err, dec(b.subrange(0, k), f)->Err_0 is Short
{
    hide(d_msg);
    msg_len(Cx { b: cap(b), f }, start());
    let p = Cx { b: b.subrange(0, k), f };
    assert(p.b =~= cap(b).subrange(0, k));
    assert(cap(p.b) == p.b);
    c_msg(p, Cx { b: cap(b), f }, start());
    msg_len(p, start());
}
} // verus!
}
