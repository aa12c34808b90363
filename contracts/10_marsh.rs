// The D-Bus marshalling of values, fields and messages: what the encoder has to write.
pub mod mw {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
use crate::ms::*;
verus! {
pub open spec fn zs(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// x at the next multiple of n
pub open spec fn fix(p: int, n: int, x: Seq<u8>) -> Seq<u8> { zs(pad(p, n)) + x }
/// a text with its length and its NUL
pub open spec fn m_str(p: int, le: bool, b: Seq<u8>) -> Seq<u8> { fix(p, 4, wr_u32(b.len() as u32, le) + b + seq![0u8]) }
pub open spec fn m_sig(l: Seq<Ty>) -> Seq<u8> { seq![show_all(l).len() as u8] + show_all(l) + seq![0u8] }
/// the values without components, at position p
pub open spec fn m_basic(p: int, le: bool, v: Val) -> Option<Seq<u8>> {
    match v {
        Val::Byte(b) => Some(seq![b]),
        Val::Boolean(b) => Some(fix(p, 4, wr_u32(if b { 1u32 } else { 0u32 }, le))),
        Val::Int16(i) => Some(fix(p, 2, wr_i16(i, le))),
        Val::Uint16(i) => Some(fix(p, 2, wr_u16(i, le))),
        Val::Int32(i) => Some(fix(p, 4, wr_i32(i, le))),
        Val::Uint32(i) => Some(fix(p, 4, wr_u32(i, le))),
        Val::Int64(i) => Some(fix(p, 8, wr_i64(i, le))),
        Val::Uint64(i) => Some(fix(p, 8, wr_u64(i, le))),
        Val::Double(i) => Some(fix(p, 8, wr_u64(i, le))),
        Val::String(b) => Some(m_str(p, le, b)),
        Val::ObjectPath(b) => Some(m_str(p, le, b)),
        Val::Signature(l) => if sig_ok(l) { Some(m_sig(l)) } else { None },
        Val::UnixFD(i) => Some(fix(p, 4, wr_u32(i as u32, le))),
        _ => None,
    }
}
/// a value at position p of the message; descriptors are already replaced by their indices. None: it has no marshalling.
pub open spec fn m_val(p: int, le: bool, v: Val) -> Option<Seq<u8>> decreases v {
    match v {
        Val::Array(t, l) => { let q = p + pad(p, 4) + 4; let a = pad(q, align(t) as int); match m_list(q + a, le, l) {
            Some(x) => if x.len() <= 0x400_0000 { Some(zs(pad(p, 4)) + wr_u32(x.len() as u32, le) + zs(a) + x) } else { None }, None => None } },
        Val::Struct(l) => match m_list(p + pad(p, 8), le, l) { Some(x) => Some(zs(pad(p, 8)) + x), None => None },
        Val::Dict(k, x) => { let q = p + pad(p, 8); match m_val(q, le, *k) { Some(a) => match m_val(q + a.len(), le, *x) { Some(b) => Some(zs(pad(p, 8)) + a + b), None => None }, None => None } },
        Val::Variant(x) => { let t = seq![ty_of(*x)]; if sig_ok(t) { match m_val(p + m_sig(t).len(), le, *x) { Some(b) => Some(m_sig(t) + b), None => None } } else { None } },
        _ => m_basic(p, le, v),
    }
}
pub open spec fn m_list(p: int, le: bool, l: Seq<Val>) -> Option<Seq<u8>> decreases l {
    if l.len() == 0 { Some(Seq::empty()) }
    else { match m_val(p, le, l[0]) { Some(a) => match m_list(p + a.len(), le, l.drop_first()) { Some(b) => Some(a + b), None => None }, None => None } }
}
// ---------------------------------------------------------------- descriptors become indices
pub open spec fn find(f: Seq<i32>, d: i32) -> int decreases f.len() { if f.len() == 0 { 0 } else if f[0] == d { 0 } else { 1 + find(f.drop_first(), d) } }
/// the index of d in the list, which is extended when d is new
pub open spec fn index_of(f: Seq<i32>, d: i32) -> (int, Seq<i32>) { let i = find(f, d); if i < f.len() { (i, f) } else { (f.len() as int, f.push(d)) } }
/// v with every descriptor replaced by its index in the list, which grows from f
pub open spec fn ix_val(f: Seq<i32>, v: Val) -> (Val, Seq<i32>) decreases v {
    match v {
        Val::UnixFD(d) => { let (i, g) = index_of(f, d); (Val::UnixFD(i as i32), g) },
        Val::Array(t, l) => { let (m, g) = ix_list(f, l); (Val::Array(t, m), g) },
        Val::Struct(l) => { let (m, g) = ix_list(f, l); (Val::Struct(m), g) },
        Val::Dict(k, x) => { let (a, g) = ix_val(f, *k); let (b, h) = ix_val(g, *x); (Val::Dict(Box::new(a), Box::new(b)), h) },
        Val::Variant(x) => { let (a, g) = ix_val(f, *x); (Val::Variant(Box::new(a)), g) },
        _ => (v, f),
    }
}
pub open spec fn ix_list(f: Seq<i32>, l: Seq<Val>) -> (Seq<Val>, Seq<i32>) decreases l {
    if l.len() == 0 { (Seq::empty(), f) } else { let (a, g) = ix_val(f, l[0]); let (b, h) = ix_list(g, l.drop_first()); (seq![a] + b, h) }
}
// ---------------------------------------------------------------- messages
pub open spec fn fv(n: u8, v: Val) -> Val { Val::Struct(seq![Val::Byte(n), Val::Variant(Box::new(v))]) }
/// the header fields as the elements of an a(yv)
pub open spec fn field_vals(f: Fl) -> Seq<Val> {
    let l = Seq::<Val>::empty();
    let l = match f.path { Some(x) => l.push(fv(1, Val::ObjectPath(x))), None => l };
    let l = match f.interface { Some(x) => l.push(fv(2, Val::String(x))), None => l };
    let l = match f.member { Some(x) => l.push(fv(3, Val::String(x))), None => l };
    let l = match f.error_name { Some(x) => l.push(fv(4, Val::String(x))), None => l };
    let l = match f.reply_serial { Some(x) => l.push(fv(5, Val::Uint32(x))), None => l };
    let l = match f.destination { Some(x) => l.push(fv(6, Val::String(x))), None => l };
    let l = match f.sender { Some(x) => l.push(fv(7, Val::String(x))), None => l };
    let l = match f.signature { Some(x) => l.push(fv(8, Val::Signature(x))), None => l };
    let l = match f.unix_fds { Some(x) => l.push(fv(9, Val::Uint32(x))), None => l };
    l
}
/// the fields as they are sent: the signature is the body's, the descriptor count that of the list when there are any
pub open spec fn sent(f: Fl, sig: Option<Seq<Ty>>, k: nat) -> Fl { Fl { signature: sig, unix_fds: if k > 0 { Some(k as u32) } else { f.unix_fds }, ..f } }
/// the first twelve bytes
pub open spec fn m_first(h: Hd, n: u32) -> Seq<u8> { seq![if h.le { 0x6cu8 } else { 0x42u8 }, h.mt, h.fl, h.ver] + wr_u32(n, h.le) + wr_u32(h.serial, h.le) }
/// the header before its final padding
pub open spec fn m_head(h: Hd, k: nat, body: Option<(u32, Seq<Ty>)>) -> Option<Seq<u8>> {
    let n = match body { Some((n, _)) => n, None => 0 };
    let sig = match body { Some((_, l)) => Some(l), None => None };
    match m_val(12, h.le, Val::Array(field_ty(), field_vals(sent(h.f, sig, k)))) { Some(a) => Some(m_first(h, n) + a), None => None }
}
/// a message and its descriptor list
pub open spec fn m_msg(m: Msg) -> Option<(Seq<u8>, Seq<i32>)> {
    let (w, g) = ix_list(Seq::empty(), m.body);
    match m_list(0, m.h.le, w) {
        None => None,
        Some(x) => {
            let n = x.len() as u32;
            let t = tys_of(m.body);
            if n == 0 && t.len() > 0 || n != 0 && !sig_ok(t) { None }
            else { match m_head(m.h, g.len(), if n == 0 { None } else { Some((n, t)) }) { Some(y) => Some((y + zs(pad(y.len() as int, 8)) + x, g)), None => None } }
        },
    }
}
// ---------------------------------------------------------------- lemmas
pub broadcast proof fn cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn zs_nil() ensures #[trigger] zs(0) == Seq::<u8>::empty() { assert(zs(0) =~= Seq::<u8>::empty()); }
pub proof fn tys_at(l: Seq<Val>) ensures tys_of(l).len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] tys_of(l)[i] == ty_of(l[i]) decreases l.len()
{ if l.len() > 0 { tys_at(l.drop_first()); assert forall|i: int| 0 <= i < l.len() implies #[trigger] tys_of(l)[i] == ty_of(l[i]) by { if i > 0 { assert(tys_of(l)[i] == tys_of(l.drop_first())[i - 1]); assert(l.drop_first()[i - 1] == l[i]); } } } }
pub proof fn tys_take(l: Seq<Val>, i: int) requires 0 <= i < l.len()
    ensures tys_of(l.take(i + 1)) == tys_of(l.take(i)).push(ty_of(l[i])), tys_of(l).take(i) == tys_of(l.take(i)), tys_of(l)[i] == ty_of(l[i])
{ tys_at(l); tys_at(l.take(i)); tys_at(l.take(i + 1)); assert(tys_of(l.take(i + 1)) =~= tys_of(l.take(i)).push(ty_of(l[i]))); assert(tys_of(l).take(i) =~= tys_of(l.take(i))); }
/// find is the first index, or the length
pub proof fn find_first(f: Seq<i32>, d: i32, i: int)
    requires 0 <= i <= f.len(), forall|j: int| 0 <= j < i ==> #[trigger] f[j] != d, i < f.len() ==> f[i] == d
    ensures find(f, d) == i
    decreases f.len()
{ if f.len() > 0 && i > 0 { assert(f[0] != d); assert forall|j: int| 0 <= j < i - 1 implies #[trigger] f.drop_first()[j] != d by { assert(f[j + 1] != d); } find_first(f.drop_first(), d, i - 1); } }
pub proof fn find_prop(f: Seq<i32>, d: i32)
    ensures 0 <= find(f, d) <= f.len(), find(f, d) < f.len() ==> f[find(f, d)] == d, forall|j: int| 0 <= j < find(f, d) ==> #[trigger] f[j] != d
    decreases f.len()
{ if f.len() > 0 && f[0] != d { let g = f.drop_first(); find_prop(g, d); assert forall|j: int| 0 <= j < find(f, d) implies #[trigger] f[j] != d by { if j > 0 { assert(g[j - 1] == f[j]); } } } }
/// replacing descriptors keeps the types
pub proof fn ix_ty(f: Seq<i32>, v: Val) ensures ty_of(ix_val(f, v).0) == ty_of(v) decreases v
{
    match v {
        Val::Struct(l) => { ix_tys(f, l); }
        Val::Dict(k, x) => { ix_ty(f, *k); ix_ty(ix_val(f, *k).1, *x); }
        _ => {}
    }
}
pub proof fn ix_tys(f: Seq<i32>, l: Seq<Val>) ensures tys_of(ix_list(f, l).0) == tys_of(l), ix_list(f, l).0.len() == l.len() decreases l
{
    if l.len() > 0 {
        let (a, g) = ix_val(f, l[0]); let (b, h) = ix_list(g, l.drop_first());
        ix_ty(f, l[0]); ix_tys(g, l.drop_first());
        assert((seq![a] + b).drop_first() =~= b);
    }
}
/// one step along a list
pub proof fn list_step(p: int, le: bool, f: Seq<i32>, l: Seq<Val>, i: int) requires 0 <= i < l.len()
    ensures ({ let (w, g) = ix_val(f, l[i]); let r = ix_list(g, l.skip(i + 1));
        &&& ix_list(f, l.skip(i)) == (seq![w] + r.0, r.1)
        &&& m_list(p, le, ix_list(f, l.skip(i)).0) == match m_val(p, le, w) { Some(a) => match m_list(p + a.len(), le, r.0) { Some(b) => Some(a + b), None => None }, None => None } })
{
    assert(l.skip(i)[0] == l[i]); assert(l.skip(i).drop_first() =~= l.skip(i + 1));
    let (w, g) = ix_val(f, l[i]); let r = ix_list(g, l.skip(i + 1));
    assert((seq![w] + r.0).drop_first() =~= r.0);
}
/// the state of a loop that writes the elements of l one by one: at position q + acc.len(), list f, elements i.. still to come
pub open spec fn going(q: int, le: bool, f0: Seq<i32>, l: Seq<Val>, acc: Seq<u8>, f: Seq<i32>, i: int) -> bool {
    let r = ix_list(f, l.skip(i));
    &&& ix_list(f0, l).1 == r.1
    &&& m_list(q, le, ix_list(f0, l).0) == match m_list(q + acc.len(), le, r.0) { Some(x) => Some(acc + x), None => None }
}
pub proof fn going_start(q: int, le: bool, f0: Seq<i32>, l: Seq<Val>) ensures going(q, le, f0, l, Seq::empty(), f0, 0)
{ assert(l.skip(0) =~= l); let r = m_list(q, le, ix_list(f0, l).0); if r is Some { assert(Seq::<u8>::empty() + r->Some_0 =~= r->Some_0); } }
pub proof fn going_step(q: int, le: bool, f0: Seq<i32>, l: Seq<Val>, acc: Seq<u8>, f: Seq<i32>, i: int)
    requires going(q, le, f0, l, acc, f, i), 0 <= i < l.len()
    ensures match m_val(q + acc.len(), le, ix_val(f, l[i]).0) { Some(a) => going(q, le, f0, l, acc + a, ix_val(f, l[i]).1, i + 1), None => m_list(q, le, ix_list(f0, l).0) is None }
{
    list_step(q + acc.len(), le, f, l, i);
    let (w, g) = ix_val(f, l[i]); let r = ix_list(g, l.skip(i + 1));
    if let Some(a) = m_val(q + acc.len(), le, w) {
        let b = m_list(q + acc.len() + a.len(), le, r.0);
        if b is Some { assert(acc + (a + b->Some_0) =~= (acc + a) + b->Some_0); }
        assert(q + acc.len() + a.len() == q + (acc + a).len());
    }
}
pub proof fn going_end(q: int, le: bool, f0: Seq<i32>, l: Seq<Val>, acc: Seq<u8>, f: Seq<i32>)
    requires going(q, le, f0, l, acc, f, l.len() as int)
    ensures m_list(q, le, ix_list(f0, l).0) == Some(acc), ix_list(f0, l).1 == f
{ assert(l.skip(l.len() as int) =~= Seq::empty()); assert(acc + Seq::<u8>::empty() =~= acc); }
/// the buffer after an array: b0, padding, the length w written over the placeholder, padding, the elements
pub proof fn array_tail(b0: Seq<u8>, x: Seq<u8>, b2: Seq<u8>, y: Seq<u8>, acc: Seq<u8>, w: Seq<u8>, at: int)
    requires 0 <= at, at + 4 <= b2.len(), b2.subrange(0, at) == b0 + x, b2.subrange(at + 4, b2.len() as int) == y
    ensures (b2 + acc).subrange(0, at) + w + (b2 + acc).subrange(at + 4, (b2 + acc).len() as int) == b0 + (x + w + y + acc)
{
    let full = b2 + acc;
    assert(full.subrange(0, at) =~= b2.subrange(0, at));
    assert(full.subrange(at + 4, full.len() as int) =~= y + acc) by {
        assert forall|i: int| 0 <= i < y.len() + acc.len() implies full[at + 4 + i] == (y + acc)[i] by { if i < y.len() { assert(y[i] == b2.subrange(at + 4, b2.len() as int)[i]); } }
    }
    assert(full.subrange(0, at) + w + full.subrange(at + 4, full.len() as int) =~= b0 + (x + w + y + acc));
}
/// what a signature printer that walks over a value checks on its way
pub open spec fn sigd(v: Val, a: int, s: int, d: int) -> bool decreases v {
    a <= 32 && s <= 32 && d <= 32 && match v {
        Val::Array(t, _) => wf(t) && deep(t, a + 1, s, d),
        Val::Struct(l) => sigd_all(l, a, s + 1, d),
        Val::Dict(k, x) => sigd(*k, a, s, d + 1) && sigd(*x, a, s, d + 1),
        _ => true,
    }
}
pub open spec fn sigd_all(l: Seq<Val>, a: int, s: int, d: int) -> bool decreases l { l.len() == 0 || (sigd(l[0], a, s, d) && sigd_all(l.drop_first(), a, s, d)) }
pub proof fn sigd_of(v: Val, a: int, s: int, d: int) requires wf(ty_of(v)), deep(ty_of(v), a, s, d) ensures sigd(v, a, s, d) decreases v
{ match v { Val::Struct(l) => { sigd_of_all(l, a, s + 1, d); } Val::Dict(k, x) => { sigd_of(*k, a, s, d + 1); sigd_of(*x, a, s, d + 1); } _ => {} } }
pub proof fn sigd_of_all(l: Seq<Val>, a: int, s: int, d: int) requires wf_all(tys_of(l)), deep_all(tys_of(l), a, s, d) ensures sigd_all(l, a, s, d) decreases l
{ if l.len() > 0 { assert(tys_of(l).drop_first() =~= tys_of(l.drop_first())); sigd_of(l[0], a, s, d); sigd_of_all(l.drop_first(), a, s, d); } }
pub proof fn sigd_push(l: Seq<Val>, i: int, a: int, s: int, d: int) requires 0 <= i < l.len()
    ensures sigd_all(l.take(i + 1), a, s, d) == (sigd_all(l.take(i), a, s, d) && sigd(l[i], a, s, d)), sigd_all(l, a, s, d) ==> sigd(l[i], a, s, d) decreases l
{
    if i == 0 { assert(l.take(1).drop_first() =~= Seq::empty()); assert(l.take(0) =~= Seq::empty()); assert(l.take(1)[0] == l[0]); assert(sigd_all(Seq::empty(), a, s, d)); assert(sigd_all(l.take(1).drop_first(), a, s, d)); }
    else { sigd_push(l.drop_first(), i - 1, a, s, d); assert(l.take(i + 1).drop_first() =~= l.drop_first().take(i)); assert(l.take(i).drop_first() =~= l.drop_first().take(i - 1)); assert(l.take(i)[0] == l[0] && l.take(i + 1)[0] == l[0]); assert(l.drop_first()[i - 1] == l[i]); }
}
/// the type of a value can be told: no level of the value itself (outside its arrays) is too deep
pub open spec fn typed(v: Val, a: int, s: int, d: int) -> bool decreases v {
    a <= 32 && s <= 32 && d <= 32 && match v {
        Val::Struct(l) => typed_all(l, a, s + 1, d),
        Val::Dict(k, x) => typed(*k, a, s, d + 1) && typed(*x, a, s, d + 1),
        _ => true,
    }
}
pub open spec fn typed_all(l: Seq<Val>, a: int, s: int, d: int) -> bool decreases l { l.len() == 0 || (typed(l[0], a, s, d) && typed_all(l.drop_first(), a, s, d)) }
pub proof fn typed_of(v: Val, a: int, s: int, d: int) requires deep(ty_of(v), a, s, d) ensures typed(v, a, s, d) decreases v
{ match v { Val::Struct(l) => { typed_of_all(l, a, s + 1, d); } Val::Dict(k, x) => { typed_of(*k, a, s, d + 1); typed_of(*x, a, s, d + 1); } _ => {} } }
pub proof fn typed_of_all(l: Seq<Val>, a: int, s: int, d: int) requires deep_all(tys_of(l), a, s, d) ensures typed_all(l, a, s, d) decreases l
{ if l.len() > 0 { assert(tys_of(l).drop_first() =~= tys_of(l.drop_first())); typed_of(l[0], a, s, d); typed_of_all(l.drop_first(), a, s, d); } }
pub proof fn typed_push(l: Seq<Val>, i: int, a: int, s: int, d: int) requires 0 <= i < l.len()
    ensures typed_all(l.take(i + 1), a, s, d) == (typed_all(l.take(i), a, s, d) && typed(l[i], a, s, d)), typed_all(l, a, s, d) ==> typed(l[i], a, s, d) decreases l
{
    if i == 0 { assert(l.take(1).drop_first() =~= Seq::empty()); assert(l.take(0) =~= Seq::empty()); assert(l.take(1)[0] == l[0]); assert(typed_all(Seq::empty(), a, s, d)); assert(typed_all(l.take(1).drop_first(), a, s, d)); }
    else { typed_push(l.drop_first(), i - 1, a, s, d); assert(l.take(i + 1).drop_first() =~= l.drop_first().take(i)); assert(l.take(i).drop_first() =~= l.drop_first().take(i - 1)); assert(l.take(i)[0] == l[0] && l.take(i + 1)[0] == l[0]); assert(l.drop_first()[i - 1] == l[i]); }
}
pub proof fn one_sig(t: Ty) ensures sig_ok(seq![t]) == (ty_ok(t) && show(t).len() <= 255), show_all(seq![t]) == show(t)
{ assert(seq![t].drop_first() =~= Seq::empty()); assert(show_all(Seq::<Ty>::empty()).len() == 0); assert(wf_all(Seq::<Ty>::empty()) && deep_all(Seq::<Ty>::empty(), 0, 0, 0)); assert(show_all(seq![t]) =~= show(t)); }
/// values without descriptors stay as they are
pub proof fn ix_same(f: Seq<i32>, l: Seq<Val>) requires forall|i: int| 0 <= i < l.len() ==> ix_val(f, #[trigger] l[i]) == (l[i], f) ensures ix_list(f, l) == (l, f) decreases l.len()
{
    if l.len() > 0 { let r = l.drop_first(); assert forall|i: int| 0 <= i < r.len() implies ix_val(f, #[trigger] r[i]) == (r[i], f) by { assert(r[i] == l[i + 1]); } ix_same(f, r); assert(ix_val(f, l[0]) == (l[0], f)); assert(seq![l[0]] + r =~= l); }
    else { assert(l =~= Seq::empty()); }
}
pub proof fn fv_ix(f: Seq<i32>, n: u8, v: Val) requires v is ObjectPath || v is String || v is Uint32 || v is Signature ensures ix_val(f, fv(n, v)) == (fv(n, v), f)
{
    assert(ix_val(f, v) == (v, f));
    let l = seq![Val::Byte(n), Val::Variant(Box::new(v))];
    assert(ix_val(f, l[0]) == (l[0], f)); assert(ix_val(f, l[1]) == (l[1], f));
    assert forall|i: int| 0 <= i < l.len() implies ix_val(f, #[trigger] l[i]) == (l[i], f) by { if i == 0 {} else { assert(i == 1); } }
    ix_same(f, l);
}
pub proof fn ix_fields(f: Seq<i32>, x: Fl) ensures ix_list(f, field_vals(x)) == (field_vals(x), f)
{
    hide(fv); hide(ix_val);
    let l = field_vals(x);
    if let Some(y) = x.path { fv_ix(f, 1, Val::ObjectPath(y)); }
    if let Some(y) = x.interface { fv_ix(f, 2, Val::String(y)); }
    if let Some(y) = x.member { fv_ix(f, 3, Val::String(y)); }
    if let Some(y) = x.error_name { fv_ix(f, 4, Val::String(y)); }
    if let Some(y) = x.reply_serial { fv_ix(f, 5, Val::Uint32(y)); }
    if let Some(y) = x.destination { fv_ix(f, 6, Val::String(y)); }
    if let Some(y) = x.sender { fv_ix(f, 7, Val::String(y)); }
    if let Some(y) = x.signature { fv_ix(f, 8, Val::Signature(y)); }
    if let Some(y) = x.unix_fds { fv_ix(f, 9, Val::Uint32(y)); }
    assert forall|i: int| 0 <= i < l.len() implies ix_val(f, #[trigger] l[i]) == (l[i], f) by {}
    ix_same(f, l);
}
pub proof fn ix_arr(f: Seq<i32>, x: Fl) ensures ix_val(f, Val::Array(field_ty(), field_vals(x))) == (Val::Array(field_ty(), field_vals(x)), f) { hide(field_vals); ix_fields(f, x); }
// ---- reading back a printed type, well-formed or not
pub proof fn rd_total(s: Seq<u8>, i: int, e: Ty, a: int, t: int, d: int)
    requires at(s, i, show(e))
    ensures rd(s, i, a, t, d) == if wf(e) && deep(e, a, t, d) { Some((e, i + show(e).len())) } else { None }
    decreases e
{
    if a <= 32 && t <= 32 && d <= 32 { match e {
        Ty::Array(x) => { at_cat(s, i, seq![97u8], show(*x)); at_one(s, i, 97); rd_total(s, i + 1, *x, a + 1, t, d); },
        Ty::Struct(l) => {
            at_cat(s, i, seq![40u8] + show_all(l), seq![41u8]); at_cat(s, i, seq![40u8], show_all(l)); at_one(s, i, 40);
            let n = i + 1 + show_all(l).len();
            at_one(s, n as int, 41);
            if l.len() == 0 { assert(show_all(l).len() == 0); assert(s[i + 1] == 41); assert(rd(s, i + 1, a, t + 1, d) is None); } else {
                assert(show_all(l) == show(l[0]) + show_all(l.drop_first()));
                at_cat(s, i + 1, show(l[0]), show_all(l.drop_first()));
                rd_total(s, i + 1, l[0], a, t + 1, d);
                let r = l.drop_first();
                assert(wf_all(l) == (wf(l[0]) && wf_all(r)));
                assert(deep_all(l, a, t + 1, d) == (deep(l[0], a, t + 1, d) && deep_all(r, a, t + 1, d)));
                show_len(l[0]);
                rd_struct_total(s, i + 1 + show(l[0]).len(), r, a, t + 1, d);
                assert(seq![l[0]] + r =~= l);
            }
        },
        Ty::Dict(k, v) => {
            at_cat(s, i, seq![123u8] + show(*k) + show(*v), seq![125u8]); at_cat(s, i, seq![123u8] + show(*k), show(*v)); at_cat(s, i, seq![123u8], show(*k)); at_one(s, i, 123);
            show_len(*k);
            rd_total(s, i + 1, *k, a, t, d + 1);
            rd_total(s, i + 1 + show(*k).len(), *v, a, t, d + 1);
            at_one(s, i + 1 + show(*k).len() + show(*v).len(), 125);
        },
        _ => { at_one(s, i, code(e)); }
    } }
}
pub proof fn rd_struct_total(s: Seq<u8>, i: int, l: Seq<Ty>, a: int, t: int, d: int)
    requires at(s, i, show_all(l)), i + show_all(l).len() < s.len(), s[i + show_all(l).len()] == 41
    ensures rd_struct(s, i, a, t, d) == if wf_all(l) && deep_all(l, a, t, d) { Some((l, i + show_all(l).len() + 1)) } else { None }
    decreases l
{
    if l.len() == 0 { assert(l =~= Seq::empty()); } else {
        let r = l.drop_first();
        at_cat(s, i, show(l[0]), show_all(r));
        show_len(l[0]);
        assert(s.subrange(i, i + show(l[0]).len())[0] == s[i]);
        rd_total(s, i, l[0], a, t, d);
        rd_struct_total(s, i + show(l[0]).len(), r, a, t, d);
        assert(seq![l[0]] + r =~= l);
    }
}
pub proof fn rd_all_total(s: Seq<u8>, i: int, l: Seq<Ty>)
    requires at(s, i, show_all(l)), i + show_all(l).len() == s.len()
    ensures rd_all(s, i) == if all_ok(l) { Some(l) } else { None }
    decreases l
{
    if l.len() == 0 { assert(l =~= Seq::empty()); } else {
        let r = l.drop_first();
        at_cat(s, i, show(l[0]), show_all(r));
        show_len(l[0]);
        rd_total(s, i, l[0], 0, 0, 0);
        rd_all_total(s, i + show(l[0]).len(), r);
        assert(seq![l[0]] + r =~= l);
    }
}
pub proof fn sig_total(l: Seq<Ty>) ensures rd_all(show_all(l), 0) == if all_ok(l) { Some(l) } else { None }
{ let s = show_all(l); assert(s.subrange(0, s.len() as int) =~= s); rd_all_total(s, 0, l); }
/// one more value in the body's signature
pub proof fn sig_step(l: Seq<Val>, i: int) requires 0 <= i < l.len()
    ensures show_all(tys_of(l).take(i + 1)) == show_all(tys_of(l).take(i)) + show(ty_of(l[i])),
        !(sigd(l[i], 0, 0, 0) && show_all(tys_of(l).take(i)).len() + show(ty_of(l[i])).len() <= 255) ==> !sig_ok(tys_of(l))
{
    tys_at(l); all_at(tys_of(l), i, 0, 0, 0); all_push(tys_of(l).take(i), tys_of(l)[i], 0, 0, 0);
    if sig_ok(tys_of(l)) { sigd_of_all(l, 0, 0, 0); sigd_push(l, i, 0, 0, 0); }
}
pub proof fn sig_start(l: Seq<Val>) ensures show_all(tys_of(l).take(0)) == Seq::<u8>::empty() { assert(tys_of(l).take(0) =~= Seq::empty()); assert(show_all(Seq::<Ty>::empty()) =~= Seq::empty()); }
pub proof fn no_body(f: Seq<i32>, p: int, le: bool, l: Seq<Val>) requires l.len() == 0 ensures ix_list(f, l) == (l, f), m_list(p, le, l) == Some(Seq::<u8>::empty()) { assert(l =~= Seq::empty()); }
pub proof fn sig_end(l: Seq<Val>) ensures tys_of(l).take(l.len() as int) == tys_of(l), (show_all(tys_of(l)).len() == 0) == (tys_of(l).len() == 0), tys_of(l).len() == l.len()
{ tys_at(l); assert(tys_of(l).take(l.len() as int) =~= tys_of(l)); if l.len() > 0 { show_len(tys_of(l)[0]); } }
pub proof fn sig_same(l: Seq<Ty>, k: Seq<Ty>) requires sig_ok(k), show_all(k) == show_all(l) ensures k == l { sig_total(l); sig_total(k); }
} // verus!
}
