// C08, C12, C13: what holds of every value and message that is read.
pub mod lm {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
use crate::ms::*;
use crate::pf::*;
verus! {
/// well-typed, with valid contents, at most k variants inside each other
pub open spec fn val_ok(v: Val, k: int) -> bool decreases v { match v {
    Val::String(s) => vstd::utf8::valid_utf8(s),
    Val::ObjectPath(p) => path_ok(p),
    Val::Signature(l) => sig_ok(l),
    Val::Array(t, l) => vals_ok(l, k) && of_ty(l, t),
    Val::Struct(l) => l.len() > 0 && vals_ok(l, k),
    Val::Dict(a, b) => val_ok(*a, k) && val_ok(*b, k),
    Val::Variant(x) => k > 0 && val_ok(*x, k - 1) && ty_ok(ty_of(*x)) && show(ty_of(*x)).len() <= 255,
    _ => true,
} }
pub open spec fn vals_ok(l: Seq<Val>, k: int) -> bool decreases l { l.len() == 0 || (val_ok(l[0], k) && vals_ok(l.drop_first(), k)) }
pub open spec fn of_ty(l: Seq<Val>, t: Ty) -> bool { forall|i: int| 0 <= i < l.len() ==> ty_of(#[trigger] l[i]) == t }

pub proof fn type_ok(c: Cx, s: St) ensures d_type(c, s) is Ok ==> ty_ok(d_type(c, s)->Ok_0.0) && show(d_type(c, s)->Ok_0.0).len() <= 255, d_sig(c, s) is Ok ==> sig_ok(d_sig(c, s)->Ok_0.0)
{
    hide(d_str8);
    if d_str8(c, s) is Ok { let b = d_str8(c, s)->Ok_0.0; rd_sound(b, 0, 0, 0, 0); sig_iff(b); assert(b.subrange(0, b.len() as int) =~= b); }
}
pub proof fn basic_ok(c: Cx, s: St, le: bool, t: Ty, k: int)
    ensures d_basic(c, s, le, t) is Ok ==> val_ok(d_basic(c, s, le, t)->Ok_0.0, k) && ty_of(d_basic(c, s, le, t)->Ok_0.0) == t
{
    hide(num); hide(d_u32); hide(d_u8); hide(d_str32); hide(d_sig); hide(path_ok); hide(sig_ok);
    type_ok(c, s);
}
pub proof fn read_ok(c: Cx, s: St, le: bool, d: int, t: Ty)
    requires d <= 4
    ensures d_val(c, s, le, d, t) is Ok ==> val_ok(d_val(c, s, le, d, t)->Ok_0.0, 4 - d) && ty_of(d_val(c, s, le, d, t)->Ok_0.0) == t
    decreases 5 - d, t, 0int
{
    hide(d_basic); hide(d_type); hide(path_ok); hide(sig_ok); hide(al); hide(ty_ok); hide(show);
    type_ok(c, s);
    match t {
        Ty::Array(e) => { arr_ok(c, s, le, d, *e); }
        Ty::Struct(l) => { if al(c, s, 8) is Ok { list_ok(c, al(c, s, 8)->Ok_0, le, d, l); } }
        Ty::Dict(k, v) => { if al(c, s, 8) is Ok { let s1 = al(c, s, 8)->Ok_0; read_ok(c, s1, le, d, *k); if d_val(c, s1, le, d, *k) is Ok { read_ok(c, d_val(c, s1, le, d, *k)->Ok_0.1, le, d, *v); } } }
        Ty::Variant => { if d < 4 && d_type(c, s) is Ok { let (u, s2) = d_type(c, s)->Ok_0; read_ok(c, s2, le, d + 1, u); } }
        _ => { basic_ok(c, s, le, t, 4 - d); }
    }
}
pub proof fn arr_ok(c: Cx, s: St, le: bool, d: int, e: Ty)
    requires d <= 4
    ensures d_arr(c, s, le, d, e) is Ok ==> vals_ok(d_arr(c, s, le, d, e)->Ok_0.0, 4 - d) && of_ty(d_arr(c, s, le, d, e)->Ok_0.0, e) && d_u32(c, s, le)->Ok_0.0 <= 0x400_0000
    decreases 5 - d, e, 0x1000_0000int
{ hide(d_u32); hide(al); if d_u32(c, s, le) is Ok { let (n, s1) = d_u32(c, s, le)->Ok_0; if n <= 0x400_0000 && al(c, s1, align(e) as int) is Ok { let s2 = al(c, s1, align(e) as int)->Ok_0; items_ok(c, s2, le, d, e, s2.o + n); } } }
pub proof fn items_ok(c: Cx, s: St, le: bool, d: int, e: Ty, end: int)
    requires d <= 4
    ensures d_items(c, s, le, d, e, end) is Ok ==> vals_ok(d_items(c, s, le, d, e, end)->Ok_0.0, 4 - d) && of_ty(d_items(c, s, le, d, e, end)->Ok_0.0, e)
    decreases 5 - d, e, (if end > s.o { end - s.o } else { 0 }) + 1
{
    if s.o < end { read_ok(c, s, le, d, e); if d_val(c, s, le, d, e) is Ok { let (v, s2) = d_val(c, s, le, d, e)->Ok_0; if s2.o > s.o { items_ok(c, s2, le, d, e, end);
        if d_items(c, s2, le, d, e, end) is Ok { let r = d_items(c, s2, le, d, e, end)->Ok_0.0; assert((seq![v] + r).drop_first() =~= r); assert forall|i: int| 0 <= i < (seq![v] + r).len() implies ty_of(#[trigger] (seq![v] + r)[i]) == e by { if i > 0 { assert((seq![v] + r)[i] == r[i - 1]); } } } } } }
}
pub proof fn list_ok(c: Cx, s: St, le: bool, d: int, l: Seq<Ty>)
    requires d <= 4
    ensures d_list(c, s, le, d, l) is Ok ==> vals_ok(d_list(c, s, le, d, l)->Ok_0.0, 4 - d) && tys_of(d_list(c, s, le, d, l)->Ok_0.0) == l
    decreases 5 - d, l, 0int
{
    if l.len() > 0 { read_ok(c, s, le, d, l[0]); if d_val(c, s, le, d, l[0]) is Ok { let (v, s2) = d_val(c, s, le, d, l[0])->Ok_0; list_ok(c, s2, le, d, l.drop_first());
        if d_list(c, s2, le, d, l.drop_first()) is Ok { let r = d_list(c, s2, le, d, l.drop_first())->Ok_0.0; assert((seq![v] + r).drop_first() =~= r); assert(seq![l[0]] + l.drop_first() =~= l); } } }
    else { assert(l =~= Seq::<Ty>::empty()); }
}
/// C08: the fields of a decoded message are those its type requires, each with valid contents; C13: it stays within the limits
pub open spec fn fl_ok(f: Fl) -> bool {
    &&& f.path is Some ==> path_ok(f.path->Some_0)
    &&& f.interface is Some ==> interface_ok(f.interface->Some_0)
    &&& f.member is Some ==> member_ok(f.member->Some_0)
    &&& f.error_name is Some ==> error_ok(f.error_name->Some_0)
    &&& f.destination is Some ==> bus_ok(f.destination->Some_0)
    &&& f.sender is Some ==> bus_ok(f.sender->Some_0)
    &&& f.signature is Some ==> sig_ok(f.signature->Some_0)
}
pub proof fn fields_ok(f: Fl, l: Seq<Val>, k: int) requires fl_ok(f), vals_ok(l, k) ensures fields_of(f, l) is Some ==> fl_ok(fields_of(f, l)->Some_0) decreases l.len()
{
    hide(path_ok); hide(interface_ok); hide(member_ok); hide(error_ok); hide(bus_ok); hide(sig_ok);
    if l.len() > 0 { if let Some((n, v)) = code_value(l[0]) { if let Val::Struct(m) = l[0] { assert(m.drop_first()[0] == m[1]); assert(val_ok(l[0], k)); assert(vals_ok(m, k)); assert(vals_ok(m.drop_first(), k)); assert(val_ok(m[1], k)); assert(val_ok(v, k - 1)); }
        if let Some(g) = field_of(f, n, v) { fields_ok(g, l.drop_first(), k); } } }
}
pub proof fn msg_ok(b: Seq<u8>, f: Seq<i32>)
    ensures dec(b, f) is Ok ==> ({ let (m, s) = dec(b, f)->Ok_0; &&& required(m.h.mt, m.h.f) && fl_ok(m.h.f) && 1 <= m.h.mt <= 4 &&& m.h.f.signature is None &&& vals_ok(m.body, 4) &&& sig_ok(tys_of(m.body)) &&& s.o <= b.len() && s.o <= 134217728 })
{
    hide(d_arr); hide(d_list); hide(al); hide(fields_of); hide(required); hide(d_u32); hide(d_u8); hide(fl_ok); hide(vals_ok); hide(sig_ok); hide(tys_of);
    let c = Cx { b: cap(b), f };
    let s = start();
    msg_len(c, s);
    if d_msg(c, s) is Ok {
        let ((h, p), s1) = d_head(c, s)->Ok_0;
        let (le, a1) = d_le(c, s)->Ok_0; let a2 = d_mt(c, a1)->Ok_0.1; let a3 = d_fl(c, a2)->Ok_0.1; let a4 = d_u8(c, a3)->Ok_0.1; let a5 = d_u32(c, a4, le)->Ok_0.1; let a6 = d_u32(c, a5, le)->Ok_0.1;
        arr_ok(c, a6, le, 0, field_ty());
        let l = d_arr(c, a6, le, 0, field_ty())->Ok_0.0;
        assert(fl_ok(no_fields())) by { reveal(fl_ok); }
        fields_ok(no_fields(), l, 4);
        assert(fl_ok(h.f)) by { reveal(fl_ok); }
        let s2 = al(c, s1, 8)->Ok_0;
        if let Some((n, t)) = p { list_ok(c, s2, h.le, 0, t); assert(sig_ok(t)) by { reveal(fl_ok); } }
        else { assert(vals_ok(Seq::empty(), 4)) by { reveal(vals_ok); } assert(tys_of(Seq::empty()) == Seq::<Ty>::empty() && sig_ok(Seq::empty())) by { reveal(tys_of); reveal(sig_ok); } }
    }
}
} // verus!
}
