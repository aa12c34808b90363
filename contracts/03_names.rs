// The D-Bus grammars of names and object paths, as predicates on bytes.
pub mod nm {
use vstd::prelude::*;
use crate::th::*;
verus! {
pub open spec fn DOT() -> u8 { 46 }
/// byte j of a dotted name: allowed character, no empty element, no element with a leading digit
/// (hy: '-' allowed, ds: a digit may start an element)
pub open spec fn dchar(s: Seq<u8>, j: int, hy: bool, ds: bool) -> bool {
    &&& (alnum(s[j]) || s[j] == 95 || (hy && s[j] == 45) || s[j] == 46)
    &&& (s[j] == 46 ==> j > 0 && s[j - 1] != 46)
    &&& (digit(s[j]) && !ds ==> j > 0 && s[j - 1] != 46)
}
pub open spec fn dprefix(s: Seq<u8>, n: int, hy: bool, ds: bool) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] dchar(s, j, hy, ds) }
pub open spec fn has_dot(s: Seq<u8>, n: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == 46 }
/// two or more non-empty elements separated by '.', at most 255 bytes
pub open spec fn dotted(s: Seq<u8>, hy: bool, ds: bool) -> bool {
    0 < s.len() <= 255 && dprefix(s, s.len() as int, hy, ds) && has_dot(s, s.len() as int) && s.last() != 46
}
pub open spec fn well_known_ok(s: Seq<u8>) -> bool { dotted(s, true, false) }
pub open spec fn interface_ok(s: Seq<u8>) -> bool { dotted(s, false, false) }
pub open spec fn error_ok(s: Seq<u8>) -> bool { dotted(s, false, false) }
/// ':' followed by two or more non-empty elements of [A-Za-z0-9_-]
pub open spec fn uchar(s: Seq<u8>, j: int) -> bool {
    if j == 0 { s[0] == 58 } else {
        &&& (alnum(s[j]) || s[j] == 95 || s[j] == 45 || s[j] == 46)
        &&& (s[j] == 46 ==> j > 1 && s[j - 1] != 46)
    }
}
pub open spec fn uprefix(s: Seq<u8>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] uchar(s, j) }
pub open spec fn unique_ok(s: Seq<u8>) -> bool {
    1 < s.len() <= 255 && uprefix(s, s.len() as int) && has_dot(s, s.len() as int) && s.last() != 46
}
pub open spec fn bus_ok(s: Seq<u8>) -> bool { if s.len() > 0 && s[0] == 58 { unique_ok(s) } else { well_known_ok(s) } }
pub open spec fn mchar(s: Seq<u8>, j: int) -> bool { (alpha(s[j]) || s[j] == 95) || (digit(s[j]) && j > 0) }
pub open spec fn mprefix(s: Seq<u8>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] mchar(s, j) }
pub open spec fn member_ok(s: Seq<u8>) -> bool { 0 < s.len() <= 255 && mprefix(s, s.len() as int) }
/// object path: "/" or '/'-separated non-empty elements of [A-Za-z0-9_]
pub open spec fn pchar(s: Seq<u8>, j: int) -> bool {
    &&& (alnum(s[j]) || s[j] == 95 || s[j] == 47)
    &&& (j == 0 ==> s[j] == 47)
    &&& (j > 0 && s[j] == 47 ==> s[j - 1] != 47)
}
pub open spec fn pprefix(s: Seq<u8>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] pchar(s, j) }
pub open spec fn path_ok(s: Seq<u8>) -> bool { 0 < s.len() && pprefix(s, s.len() as int) && (s.len() > 1 ==> s.last() != 47) }

pub proof fn dotted_ascii(s: Seq<u8>, hy: bool, ds: bool) requires dotted(s, hy, ds) ensures vstd::utf8::valid_utf8(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by { assert(dchar(s, i, hy, ds)); } ascii_valid(s); }
pub proof fn unique_ascii(s: Seq<u8>) requires unique_ok(s) ensures vstd::utf8::valid_utf8(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by { assert(uchar(s, i)); } ascii_valid(s); }
pub proof fn member_ascii(s: Seq<u8>) requires member_ok(s) ensures vstd::utf8::valid_utf8(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by { assert(mchar(s, i)); } ascii_valid(s); }
pub proof fn path_ascii(s: Seq<u8>) requires path_ok(s) ensures vstd::utf8::valid_utf8(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by { assert(pchar(s, i)); } ascii_valid(s); }

// ---- object paths as lists of elements
pub open spec fn elems(p: Seq<u8>) -> Seq<Seq<u8>> { if p.len() == 1 { Seq::empty() } else { pieces(p.subrange(1, p.len() as int), 47) } }
pub open spec fn word(e: Seq<u8>) -> bool { e.len() > 0 && forall|j: int| 0 <= j < e.len() ==> alnum(#[trigger] e[j]) || e[j] == 95 }
/// strictly below b in the tree of elements
pub open spec fn below(p: Seq<u8>, b: Seq<u8>) -> bool { elems(b).len() < elems(p).len() && elems(p).subrange(0, elems(b).len() as int) == elems(b) }
pub proof fn pieces_join(a: Seq<u8>, c: u8, e: Seq<u8>)
    requires !e.contains(c)
    ensures pieces(a + seq![c] + e, c) == pieces(a, c).push(e)
    decreases a.len()
{
    let s = a + seq![c] + e;
    first_sep_prop(s, c, 0); first_sep_prop(a, c, 0); first_sep_prop(e, c, 0);
    let i = first_sep(s, c, 0); let k = first_sep(a, c, 0);
    assert(s[a.len() as int] == c);
    if k < a.len() {
        assert(s[k] == c);
        if i < k { assert(s[i] == a[i]); }
        assert(i == k);
        let a2 = a.subrange(k + 1, a.len() as int);
        pieces_join(a2, c, e);
        assert(s.subrange(i + 1, s.len() as int) =~= a2 + seq![c] + e);
        assert(s.subrange(0, i) =~= a.subrange(0, k));
        assert(pieces(s, c) =~= pieces(a, c).push(e));
    } else {
        if i < a.len() { assert(s[i] == a[i]); }
        assert(i == a.len());
        assert(s.subrange(i + 1, s.len() as int) =~= e);
        if first_sep(e, c, 0) < e.len() { assert(e.contains(c)); }
        assert(pieces(e, c) =~= seq![e]);
        assert(s.subrange(0, i) =~= a);
        assert(pieces(s, c) =~= pieces(a, c).push(e));
    }
}
pub proof fn word_nosep(e: Seq<u8>) requires word(e) ensures !e.contains(47), !e.contains(46)
{ if e.contains(47) { let i = choose|i: int| 0 <= i < e.len() && e[i] == 47; assert(false); } if e.contains(46) { let i = choose|i: int| 0 <= i < e.len() && e[i] == 46; assert(false); } }
/// a path is split into an empty piece and its elements
pub proof fn path_pieces(p: Seq<u8>)
    requires path_ok(p)
    ensures p.len() > 1 ==> pieces(p, 47) == seq![Seq::<u8>::empty()] + elems(p) && elems(p).len() > 0 && elems(p)[0].len() > 0,
        p.len() == 1 ==> pieces(p, 47) == seq![Seq::<u8>::empty(), Seq::<u8>::empty()]
{
    assert(pchar(p, 0));
    assert(first_sep(p, 47, 0) == 0);
    assert(p.subrange(0, 0) =~= Seq::<u8>::empty());
    if p.len() > 1 {
        let r = p.subrange(1, p.len() as int);
        assert(pchar(p, 1));
        assert(r[0] == p[1]);
        first_sep_prop(r, 47, 0);
        assert(pieces(p, 47) =~= seq![Seq::<u8>::empty()] + elems(p));
    } else {
        let r = p.subrange(1, 1);
        assert(r =~= Seq::<u8>::empty());
        assert(pieces(r, 47) =~= seq![r]);
        assert(pieces(p, 47) =~= seq![Seq::<u8>::empty(), Seq::<u8>::empty()]);
    }
}
/// appending one word adds one element and keeps the path valid
pub proof fn path_append(p: Seq<u8>, e: Seq<u8>)
    requires path_ok(p), word(e)
    ensures p.len() == 1 ==> path_ok(p + e) && elems(p + e) == elems(p).push(e),
        p.len() > 1 ==> path_ok(p + seq![47u8] + e) && elems(p + seq![47u8] + e) == elems(p).push(e)
{
    word_nosep(e);
    assert(pchar(p, 0));
    let q = if p.len() == 1 { p + e } else { p + seq![47u8] + e };
    let k = q.len() - e.len();
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] pchar(q, j) by {
        if j < p.len() { assert(pchar(p, j)); if j > 0 { assert(q[j - 1] == p[j - 1]); } assert(q[j] == p[j]); }
        else if j >= k { assert(q[j] == e[j - k]); }
        else { assert(p.last() == p[p.len() - 1]); }
    }
    assert(q.last() == e[e.len() - 1]);
    assert(path_ok(q));
    if p.len() == 1 {
        assert(q.subrange(1, q.len() as int) =~= e);
        first_sep_prop(e, 47, 0);
        assert(first_sep(e, 47, 0) == e.len()) by { if first_sep(e, 47, 0) < e.len() { assert(e.contains(47)); } }
        assert(elems(q) =~= elems(p).push(e));
    } else {
        let r = p.subrange(1, p.len() as int);
        assert(q.subrange(1, q.len() as int) =~= r + seq![47u8] + e);
        pieces_join(r, 47, e);
    }
}
/// comparing the raw pieces decides `below`
pub proof fn below_pieces(p: Seq<u8>, b: Seq<u8>)
    requires path_ok(p), path_ok(b)
    ensures p.len() == 1 ==> p == seq![47u8], b.len() == 1 ==> b == seq![47u8],
        p.len() > 1 && b.len() == 1 ==> below(p, b) && elems(p) == pieces(p, 47).subrange(1, pieces(p, 47).len() as int) && elems(b).len() == 0 && pieces(p, 47).len() > 0,
        !(p.len() > 1 && b.len() == 1) ==> below(p, b) == (pieces(b, 47).len() < pieces(p, 47).len() && forall|j: int| 0 <= j < pieces(b, 47).len() ==> #[trigger] pieces(p, 47)[j] == pieces(b, 47)[j]),
        !(p.len() > 1 && b.len() == 1) && below(p, b) ==> elems(p).subrange(elems(b).len() as int, elems(p).len() as int) == pieces(p, 47).subrange(pieces(b, 47).len() as int, pieces(p, 47).len() as int),
{
    path_pieces(p); path_pieces(b);
    assert(pchar(p, 0)); assert(pchar(b, 0));
    if p.len() == 1 { assert(p =~= seq![47u8]); }
    if b.len() == 1 { assert(b =~= seq![47u8]); }
    let ps = pieces(p, 47); let pb = pieces(b, 47);
    if p.len() > 1 && b.len() == 1 {
        assert(elems(p).subrange(0, 0) =~= elems(b));
        assert(elems(p) =~= ps.subrange(1, ps.len() as int));
    } else if p.len() > 1 {
        if pb.len() < ps.len() && forall|j: int| 0 <= j < pb.len() ==> #[trigger] ps[j] == pb[j] {
            assert forall|j: int| 0 <= j < elems(b).len() implies elems(p).subrange(0, elems(b).len() as int)[j] == elems(b)[j] by { assert(ps[j + 1] == pb[j + 1]); }
            assert(elems(p).subrange(0, elems(b).len() as int) =~= elems(b));
        }
        if below(p, b) {
            assert forall|j: int| 0 <= j < pb.len() implies #[trigger] ps[j] == pb[j] by { if j > 0 { assert(elems(p).subrange(0, elems(b).len() as int)[j - 1] == elems(b)[j - 1]); } }
            assert(elems(p).subrange(elems(b).len() as int, elems(p).len() as int) =~= ps.subrange(pb.len() as int, ps.len() as int));
        }
    }
}
} // verus!
}
