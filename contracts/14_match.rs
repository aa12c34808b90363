// Match rules: what they select (C15), their text (C14, C16).
pub mod mr {
use vstd::prelude::*;
use crate::th::*;
use crate::ty::*;
use crate::nm::*;
use crate::vl::*;
use crate::ms::*;
use crate::vfmt::*;
verus! {
pub enum Mr {
    Type(u8), Sender(Seq<u8>), Interface(Seq<u8>), Member(Seq<u8>), Path(Seq<u8>), PathNamespace(Seq<u8>), Destination(Seq<u8>),
    Arg(int, Seq<char>), ArgPath(int, Seq<u8>), Arg0Namespace(Seq<u8>), Eavesdrop(bool),
}
/// every rule that can be built holds valid names
pub open spec fn mr_ok(m: Mr) -> bool {
    match m {
        Mr::Type(t) => 1 <= t <= 4,
        Mr::Sender(s) => bus_ok(s),
        Mr::Interface(s) => interface_ok(s),
        Mr::Member(s) => member_ok(s),
        Mr::Path(p) => path_ok(p),
        Mr::PathNamespace(p) => path_ok(p),
        Mr::Destination(s) => unique_ok(s),
        Mr::Arg(n, s) => 0 <= n < 64,
        Mr::ArgPath(n, p) => 0 <= n <= usize::MAX && path_ok(p),
        Mr::Arg0Namespace(s) => interface_ok(s),
        Mr::Eavesdrop(b) => true,
    }
}
// ---- C15: what a rule selects
/// v equals ns, or continues it with a separator, or ns is the root
pub open spec fn at_or_below(ns: Seq<u8>, v: Seq<u8>, sep: u8) -> bool { pre(ns, v) && (v.len() == ns.len() || v[ns.len() as int] == sep || (ns.len() > 0 && ns.last() == sep)) }
pub open spec fn text_of(v: Val) -> Option<Seq<u8>> { match v { Val::String(s) => Some(s), Val::ObjectPath(p) => Some(p), _ => None } }
pub open spec fn hit(m: Mr, x: Msg) -> bool {
    match m {
        Mr::Type(t) => x.h.mt == t,
        Mr::Sender(s) => x.h.f.sender == Some(s),
        Mr::Interface(s) => x.h.f.interface == Some(s),
        Mr::Member(s) => x.h.f.member == Some(s),
        Mr::Path(p) => x.h.f.path == Some(p),
        Mr::PathNamespace(p) => x.h.f.path is Some && at_or_below(p, x.h.f.path->Some_0, 47),
        // a destination rule names a unique connection; the well-known names never start with ':'
        Mr::Destination(s) => x.h.f.destination == Some(s),
        Mr::Arg(n, s) => 0 <= n < x.body.len() && x.body[n] == Val::String(sb(s)),
        Mr::ArgPath(n, p) => 0 <= n < x.body.len() && text_of(x.body[n]) is Some && at_or_below(p, text_of(x.body[n])->Some_0, 47),
        Mr::Arg0Namespace(s) => 0 < x.body.len() && x.body[0] is String && at_or_below(s, x.body[0]->String_0, 46),
        Mr::Eavesdrop(b) => true,
    }
}
pub open spec fn hits(l: Seq<Mr>, x: Msg) -> bool { forall|i: int| 0 <= i < l.len() ==> hit(#[trigger] l[i], x) }
/// a text below another in whole pieces
pub proof fn pieces_below(ns: Seq<u8>, v: Seq<u8>, sep: u8)
    ensures ns.len() == 0 || ns.last() != sep ==> at_or_below(ns, v, sep) == (pieces(ns, sep).len() <= pieces(v, sep).len() && pieces(v, sep).subrange(0, pieces(ns, sep).len() as int) == pieces(ns, sep)) || ns.len() == 0
{
    if ns.len() > 0 && ns.last() != sep { pieces_below1(ns, v, sep); }
}
pub proof fn no_sep(s: Seq<u8>, c: u8) requires first_sep(s, c, 0) == s.len() ensures pieces(s, c) == seq![s], !s.contains(c)
{ first_sep_prop(s, c, 0); if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s[i] != c); } }
pub proof fn pieces_pos(s: Seq<u8>, c: u8) ensures pieces(s, c).len() > 0, first_sep(s, c, 0) < s.len() ==> pieces(s, c)[0] == s.subrange(0, first_sep(s, c, 0)) && pieces(s, c).subrange(1, pieces(s, c).len() as int) == pieces(s.subrange(first_sep(s, c, 0) + 1, s.len() as int), c)
{ first_sep_prop(s, c, 0); let i = first_sep(s, c, 0); if i < s.len() { let r = pieces(s.subrange(i + 1, s.len() as int), c); assert(pieces(s, c) =~= seq![s.subrange(0, i)] + r); assert((seq![s.subrange(0, i)] + r).subrange(1, r.len() as int + 1) =~= r); } }
pub open spec fn starts(p: Seq<Seq<u8>>, q: Seq<Seq<u8>>) -> bool { q.len() <= p.len() && p.subrange(0, q.len() as int) == q }
pub proof fn starts_head(p: Seq<Seq<u8>>, q: Seq<Seq<u8>>) requires q.len() > 0, p.len() > 0 ensures starts(p, q) == (p[0] == q[0] && starts(p.subrange(1, p.len() as int), q.subrange(1, q.len() as int)))
{
    let p1 = p.subrange(1, p.len() as int); let q1 = q.subrange(1, q.len() as int);
    if starts(p, q) { assert(p.subrange(0, q.len() as int)[0] == q[0]); assert(p1.subrange(0, q1.len() as int) =~= q1) by { assert forall|j: int| 0 <= j < q1.len() implies p1[j] == q1[j] by { assert(p.subrange(0, q.len() as int)[j + 1] == q[j + 1]); } } }
    if p[0] == q[0] && starts(p1, q1) { assert(p.subrange(0, q.len() as int) =~= q) by { assert forall|j: int| 0 <= j < q.len() implies p[j] == q[j] by { if j > 0 { assert(p1.subrange(0, q1.len() as int)[j - 1] == q1[j - 1]); } } } }
}
pub proof fn pieces_below1(ns: Seq<u8>, v: Seq<u8>, sep: u8)
    requires ns.len() > 0, ns.last() != sep
    ensures at_or_below(ns, v, sep) == starts(pieces(v, sep), pieces(ns, sep))
    decreases ns.len()
{
    first_sep_prop(ns, sep, 0); first_sep_prop(v, sep, 0);
    let i = first_sep(ns, sep, 0); let k = first_sep(v, sep, 0);
    pieces_pos(ns, sep); pieces_pos(v, sep);
    let pv = pieces(v, sep); let pn = pieces(ns, sep);
    if i < ns.len() {
        let n2 = ns.subrange(i + 1, ns.len() as int);
        starts_head(pv, pn);
        if k < v.len() {
            let v2 = v.subrange(k + 1, v.len() as int);
            assert(n2.last() == ns.last());
            pieces_below1(n2, v2, sep);
            assert(n2.len() > 0);
            assert(at_or_below(ns, v, sep) == (ns.subrange(0, i) == v.subrange(0, k) && at_or_below(n2, v2, sep))) by {
                if pre(ns, v) {
                    assert(v[i] == ns[i]);
                    if k < i { assert(ns[k] == v[k]); }
                    assert(i == k);
                    assert(ns.subrange(0, i) =~= v.subrange(0, k));
                    assert forall|j: int| 0 <= j < n2.len() implies n2[j] == v2[j] by { assert(ns[j + i + 1] == v[j + i + 1]); }
                    assert(pre(n2, v2));
                }
                if ns.subrange(0, i) == v.subrange(0, k) && pre(n2, v2) {
                    assert(ns.subrange(0, i).len() == i && v.subrange(0, k).len() == k);
                    assert forall|j: int| 0 <= j < ns.len() implies ns[j] == v[j] by { if j < i { assert(ns.subrange(0, i)[j] == v.subrange(0, k)[j]); } else if j > i { assert(n2[j - i - 1] == v2[j - i - 1]); } }
                }
            }
        } else {
            no_sep(v, sep);
            if pre(ns, v) { assert(v[i] == ns[i]); assert(v.contains(sep)); }
        }
    } else {
        no_sep(ns, sep);
        if k < v.len() {
            if pre(ns, v) { if k < ns.len() { assert(ns[k] == v[k]); } if v[ns.len() as int] == sep { assert(k == ns.len()); assert(v.subrange(0, k) =~= ns); } }
            if pv[0] == ns { assert(v.subrange(0, k).len() == k); assert forall|j: int| 0 <= j < ns.len() implies ns[j] == v[j] by { assert(v.subrange(0, k)[j] == ns[j]); } }
            assert(at_or_below(ns, v, sep) == (pv[0] == ns));
        } else {
            no_sep(v, sep);
            if pre(ns, v) && v.len() > ns.len() && v[ns.len() as int] == sep { assert(v.contains(sep)); }
            if at_or_below(ns, v, sep) { assert(v =~= ns); }
            assert(at_or_below(ns, v, sep) == (v == ns));
        }
        starts_head(pv, pn);
        assert(pn.subrange(1, 1) =~= Seq::empty());
        assert(pv.subrange(1, pv.len() as int).subrange(0, 0) =~= Seq::empty());
    }
}
/// C15: for valid object paths a namespace is the path itself or a path above it, element by element
pub proof fn paths_below(ns: Seq<u8>, p: Seq<u8>)
    requires path_ok(ns), path_ok(p)
    ensures at_or_below(ns, p, 47) == (p == ns || below(p, ns))
{
    below_pieces(p, ns);
    assert(pchar(p, 0) && pchar(ns, 0));
    if ns.len() == 1 {
        assert(p[0] == 47u8);
        assert(pre(ns, p));
        if p.len() == 1 { assert(p =~= ns); }
    } else {
        pieces_below1(ns, p, 47);
        path_pieces(ns); path_pieces(p);
        let a = pieces(p, 47); let b = pieces(ns, 47);
        if p == ns { assert(a.subrange(0, b.len() as int) =~= b); }
        if starts(a, b) {
            assert forall|j: int| 0 <= j < b.len() implies a[j] == b[j] by { assert(a.subrange(0, b.len() as int)[j] == b[j]); }
            if a.len() == b.len() { assert(a =~= b); pieces_same(p, ns, 47); }
        }
        if p.len() == 1 { if starts(a, b) { assert(a[1] == b[1]); assert(b[1] == elems(ns)[0]); assert(a[1] == Seq::<u8>::empty()); assert(false); } }
        else if below(p, ns) { assert forall|j: int| 0 <= j < b.len() implies a.subrange(0, b.len() as int)[j] == b[j] by { assert(a[j] == b[j]); } assert(a.subrange(0, b.len() as int) =~= b); }
    }
}
pub proof fn pieces_same(a: Seq<u8>, b: Seq<u8>, c: u8) requires pieces(a, c) == pieces(b, c) ensures a == b decreases a.len()
{
    first_sep_prop(a, c, 0); first_sep_prop(b, c, 0); pieces_pos(a, c); pieces_pos(b, c);
    let i = first_sep(a, c, 0); let k = first_sep(b, c, 0);
    if i < a.len() && k < b.len() {
        let a2 = a.subrange(i + 1, a.len() as int); let b2 = b.subrange(k + 1, b.len() as int);
        pieces_same(a2, b2, c);
        assert(a.subrange(0, i).len() == i && b.subrange(0, k).len() == k);
        assert(a =~= a.subrange(0, i) + seq![c] + a2); assert(b =~= b.subrange(0, k) + seq![c] + b2);
    } else if i == a.len() && k == b.len() { no_sep(a, c); no_sep(b, c); assert(pieces(a, c)[0] == a); assert(pieces(b, c)[0] == b); }
    else if i == a.len() { no_sep(a, c); pieces_pos(b.subrange(k + 1, b.len() as int), c); assert(pieces(b, c).len() > 1); }
    else { no_sep(b, c); pieces_pos(a.subrange(i + 1, a.len() as int), c); assert(pieces(a, c).len() > 1); }
}

// ---- C16: the text of rules
pub open spec fn cons(c: char, o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(r) => Some(seq![c] + r), None => None } }
pub open spec fn app(a: Seq<char>, o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(r) => Some(a + r), None => None } }
/// the value of a quoted text (q: a quote is open)
pub open spec fn unq(s: Seq<char>, q: bool) -> Option<Seq<char>> decreases s.len()
{
    if s.len() == 0 { if q { None } else { Some(Seq::empty()) } }
    else if s[0] == '\'' { unq(s.skip(1), !q) }
    else if !q && s[0] == '\\' && s.len() > 1 && s[1] == '\'' { cons('\'', unq(s.skip(2), false)) }
    else { cons(s[0], unq(s.skip(1), q)) }
}
pub open spec fn more(n: nat, o: Option<nat>) -> Option<nat> { match o { Some(k) => Some(n + k), None => None } }
/// the number of characters before the first comma outside quotes
pub open spec fn vlen(s: Seq<char>, q: bool) -> Option<nat> decreases s.len()
{
    if s.len() == 0 { if q { None } else { Some(0) } }
    else if s[0] == '\'' { more(1, vlen(s.skip(1), !q)) }
    else if !q && s[0] == ',' { Some(0) }
    else if !q && s[0] == '\\' && s.len() > 1 && s[1] == '\'' { more(2, vlen(s.skip(2), false)) }
    else { more(1, vlen(s.skip(1), q)) }
}
pub open spec fn keychar(c: char) -> bool { calnum(c) || c == '_' }
/// the rest of a key, '=' and a value
pub open spec fn krest(s: Seq<char>) -> Option<nat> decreases s.len()
{
    if s.len() == 0 { None } else if keychar(s[0]) { more(1, krest(s.skip(1))) } else if s[0] == '=' { more(1, vlen(s.skip(1), false)) } else { None }
}
/// the number of characters of the first rule
pub open spec fn rule_len(s: Seq<char>) -> Option<nat> { if s.len() > 0 && keychar(s[0]) { more(1, krest(s.skip(1))) } else { None } }
pub open spec fn after(s: Seq<char>, n: nat) -> Seq<char> { if n < s.len() { s.skip(n as int + 1) } else { Seq::empty() } }
pub open spec fn mt_name(t: u8) -> Seq<char> { if t == 1 { "method_call"@ } else if t == 2 { "method_return"@ } else if t == 3 { "error"@ } else { "signal"@ } }
pub open spec fn mt_of(s: Seq<char>) -> Option<u8> { if s == "method_call"@ { Some(1) } else if s == "method_return"@ { Some(2) } else if s == "error"@ { Some(3) } else if s == "signal"@ { Some(4) } else { None } }
pub open spec fn pos_of(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + pos_of(s.skip(1), c) } }
pub open spec fn ends(s: Seq<char>, e: Seq<char>) -> bool { s.len() >= e.len() && s.skip(s.len() - e.len()) == e }
pub open spec fn begins(s: Seq<char>, e: Seq<char>) -> bool { s.len() >= e.len() && s.take(e.len() as int) == e }
/// the rule with key k and (unquoted) value w
pub open spec fn rule_kv(k: Seq<char>, w: Seq<char>) -> Option<Mr> {
    let b = sb(w);
    if k == "type"@ { match mt_of(w) { Some(t) => Some(Mr::Type(t)), None => None } }
    else if k == "sender"@ { if bus_ok(b) { Some(Mr::Sender(b)) } else { None } }
    else if k == "interface"@ { if interface_ok(b) { Some(Mr::Interface(b)) } else { None } }
    else if k == "member"@ { if member_ok(b) { Some(Mr::Member(b)) } else { None } }
    else if k == "path"@ { if path_ok(b) { Some(Mr::Path(b)) } else { None } }
    else if k == "path_namespace"@ { if path_ok(b) { Some(Mr::PathNamespace(b)) } else { None } }
    else if k == "destination"@ { if unique_ok(b) { Some(Mr::Destination(b)) } else { None } }
    else if begins(k, "arg"@) { rule_arg(k.skip(3), w) }
    else if k == "eavesdrop"@ { if w == "true"@ { Some(Mr::Eavesdrop(true)) } else if w == "false"@ { Some(Mr::Eavesdrop(false)) } else { None } }
    else { None }
}
pub open spec fn rule_arg(a: Seq<char>, w: Seq<char>) -> Option<Mr> {
    let b = sb(w);
    if ends(a, "path"@) { match usize_of(a.take(a.len() - 4)) { Some(n) => if path_ok(b) { Some(Mr::ArgPath(n, b)) } else { None }, None => None } }
    else if a == "0namespace"@ { if interface_ok(b) { Some(Mr::Arg0Namespace(b)) } else { None } }
    else { match usize_of(a) { Some(n) => if n < 64 { Some(Mr::Arg(n, w)) } else { None }, None => None } }
}
pub open spec fn rule_of(s: Seq<char>) -> Option<Mr> {
    let k = pos_of(s, '=');
    if k < s.len() { match unq(s.skip(k + 1), false) { Some(w) => rule_kv(s.take(k), w), None => None } } else { None }
}
pub open spec fn rules_of(s: Seq<char>) -> Option<Seq<Mr>> decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        match rule_len(s) { None => None, Some(n) => match rule_of(s.take(n as int)) { None => None, Some(m) => match rules_of(after(s, n)) { None => None, Some(r) => Some(seq![m] + r) } } }
    }
}
pub proof fn pos_prop(s: Seq<char>, c: char) ensures 0 <= pos_of(s, c) <= s.len(), pos_of(s, c) < s.len() ==> s[pos_of(s, c)] == c, forall|i: int| 0 <= i < pos_of(s, c) ==> #[trigger] s[i] != c decreases s.len()
{ if s.len() > 0 && s[0] != c { pos_prop(s.skip(1), c); assert forall|i: int| 0 <= i < pos_of(s, c) implies #[trigger] s[i] != c by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } } } }
pub proof fn pos_is(s: Seq<char>, c: char, a: Seq<char>, b: Seq<char>) requires s == a.push(c) + b, !a.contains(c) ensures pos_of(s, c) == a.len(), s.take(a.len() as int) == a, s.skip(a.len() as int + 1) == b
{
    pos_prop(s, c); let k = pos_of(s, c);
    assert(s[a.len() as int] == c);
    if k < a.len() { assert(s[k] == a[k]); assert(a.contains(c)); }
    assert(s.take(a.len() as int) =~= a); assert(s.skip(a.len() as int + 1) =~= b);
}
pub proof fn pos_none(s: Seq<char>, c: char) requires !s.contains(c) ensures pos_of(s, c) == s.len() { pos_prop(s, c); }
pub proof fn vlen_bound(s: Seq<char>, q: bool) ensures vlen(s, q) is Some ==> vlen(s, q)->Some_0 <= s.len() && (vlen(s, q)->Some_0 < s.len() ==> s[vlen(s, q)->Some_0 as int] == ',') decreases s.len()
{
    if s.len() == 0 {}
    else if s[0] == '\'' { vlen_bound(s.skip(1), !q); }
    else if !q && s[0] == ',' {}
    else if !q && s[0] == '\\' && s.len() > 1 && s[1] == '\'' { vlen_bound(s.skip(2), false); }
    else { vlen_bound(s.skip(1), q); }
}
pub proof fn krest_bound(s: Seq<char>) ensures krest(s) is Some ==> 0 < krest(s)->Some_0 <= s.len() && (krest(s)->Some_0 < s.len() ==> s[krest(s)->Some_0 as int] == ',') decreases s.len()
{ if s.len() > 0 { if keychar(s[0]) { krest_bound(s.skip(1)); } else if s[0] == '=' { vlen_bound(s.skip(1), false); } } }
pub proof fn rule_bound(s: Seq<char>) ensures rule_len(s) is Some ==> 0 < rule_len(s)->Some_0 <= s.len() && (rule_len(s)->Some_0 < s.len() ==> s[rule_len(s)->Some_0 as int] == ',')
{ if s.len() > 0 { krest_bound(s.skip(1)); } }
// ---- C14: printing
pub open spec fn cb(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
pub open spec fn esc1(c: char) -> Seq<char> { if c == '\'' { "\\'"@ } else if c == ',' { "','"@ } else if c == '\\' { "'\\'"@ } else { seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) } }
pub open spec fn head(m: Mr) -> Seq<char> {
    match m {
        Mr::Type(_) => "type="@, Mr::Sender(_) => "sender="@, Mr::Interface(_) => "interface="@, Mr::Member(_) => "member="@, Mr::Path(_) => "path="@, Mr::PathNamespace(_) => "path_namespace="@,
        Mr::Destination(_) => "destination="@, Mr::Arg(n, _) => "arg"@ + cb(dec(n as nat)) + "="@, Mr::ArgPath(n, _) => "arg"@ + cb(dec(n as nat)) + "path"@ + "="@,
        Mr::Arg0Namespace(_) => "arg0namespace="@, Mr::Eavesdrop(_) => "eavesdrop="@,
    }
}
pub open spec fn value(m: Mr) -> Seq<char> {
    match m {
        Mr::Type(t) => mt_name(t), Mr::Sender(s) => cb(s), Mr::Interface(s) => cb(s), Mr::Member(s) => cb(s), Mr::Path(s) => cb(s), Mr::PathNamespace(s) => cb(s), Mr::Destination(s) => cb(s),
        Mr::Arg(_, s) => esc(s), Mr::ArgPath(_, p) => cb(p), Mr::Arg0Namespace(s) => cb(s), Mr::Eavesdrop(b) => if b { "true"@ } else { "false"@ },
    }
}
pub open spec fn text(m: Mr) -> Seq<char> { head(m) + value(m) }
pub open spec fn joined(l: Seq<Mr>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else if l.len() == 1 { text(l[0]) } else { text(l[0]) + seq![','] + joined(l.skip(1)) } }
/// the same in bytes (numbers and names are printed as bytes)
pub open spec fn bhead(m: Mr) -> Seq<u8> {
    match m {
        Mr::Type(_) => sb("type="@), Mr::Sender(_) => sb("sender="@), Mr::Interface(_) => sb("interface="@), Mr::Member(_) => sb("member="@), Mr::Path(_) => sb("path="@), Mr::PathNamespace(_) => sb("path_namespace="@),
        Mr::Destination(_) => sb("destination="@), Mr::Arg(n, _) => sb("arg"@) + dec(n as nat) + sb("="@), Mr::ArgPath(n, _) => sb("arg"@) + dec(n as nat) + sb("path"@) + sb("="@),
        Mr::Arg0Namespace(_) => sb("arg0namespace="@), Mr::Eavesdrop(_) => sb("eavesdrop="@),
    }
}
pub open spec fn bvalue(m: Mr) -> Seq<u8> {
    match m {
        Mr::Type(t) => sb(mt_name(t)), Mr::Sender(s) => s, Mr::Interface(s) => s, Mr::Member(s) => s, Mr::Path(s) => s, Mr::PathNamespace(s) => s, Mr::Destination(s) => s,
        Mr::Arg(_, s) => sb(esc(s)), Mr::ArgPath(_, p) => p, Mr::Arg0Namespace(s) => s, Mr::Eavesdrop(b) => if b { sb("true"@) } else { sb("false"@) },
    }
}
pub open spec fn btext(m: Mr) -> Seq<u8> { bhead(m) + bvalue(m) }
/// the printed list without its first element's leading comma
pub open spec fn btail(l: Seq<Mr>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { btail(l.drop_last()) + sb(","@) + btext(l.last()) } }
pub open spec fn bjoined(l: Seq<Mr>) -> Seq<u8> { if l.len() == 0 { Seq::empty() } else { btext(l[0]) + btail(l.skip(1)) } }
/// one more element of a printed list
pub proof fn joined_step(s: Seq<char>, z: Seq<char>, a: Seq<u8>, b: Seq<u8>, x: Seq<u8>)
    requires sb(z) == a + b, exists|y: Seq<char>| s == #[trigger] (z.push(',') + y) && sb(y) == x
    ensures sb(s) == a + (b + sb(","@) + x)
{
    let y = choose|y: Seq<char>| s == #[trigger] (z.push(',') + y) && sb(y) == x;
    reveal_strlit(","); sb1(','); assert(","@ =~= seq![',']); sb_push(z, ','); sb_cat(z.push(','), y);
    assert(sb(s) =~= a + (b + sb(","@) + x));
}
/// prefixes and suffixes of texts are prefixes and suffixes of their bytes
pub proof fn pre_text(p: Seq<char>)
    ensures forall|k: Seq<char>, x: Seq<char>| #[trigger] sb(k) == #[trigger] (sb(p) + sb(x)) ==> begins(k, p) && x == k.skip(p.len() as int),
        forall|k: Seq<char>| !#[trigger] pre(sb(p), sb(k)) ==> !begins(k, p),
{
    assert forall|k: Seq<char>, x: Seq<char>| #[trigger] sb(k) == #[trigger] (sb(p) + sb(x)) implies begins(k, p) && x == k.skip(p.len() as int) by { sb_cat(p, x); sb_inj(k, p + x); assert((p + x).take(p.len() as int) =~= p); assert((p + x).skip(p.len() as int) =~= x); }
    assert forall|k: Seq<char>| !#[trigger] pre(sb(p), sb(k)) implies !begins(k, p) by { if begins(k, p) { let x = k.skip(p.len() as int); assert(k =~= p + x); sb_cat(p, x); } }
}
pub proof fn suf_text(p: Seq<char>)
    ensures forall|k: Seq<char>, x: Seq<char>| #[trigger] sb(k) == #[trigger] (sb(x) + sb(p)) ==> ends(k, p) && x == k.take(k.len() - p.len()),
        forall|k: Seq<char>| !#[trigger] suf(sb(p), sb(k)) ==> !ends(k, p),
{
    assert forall|k: Seq<char>, x: Seq<char>| #[trigger] sb(k) == #[trigger] (sb(x) + sb(p)) implies ends(k, p) && x == k.take(k.len() - p.len()) by { sb_cat(x, p); sb_inj(k, x + p); assert((x + p).skip(x.len() as int) =~= p); assert((x + p).take(x.len() as int) =~= x); }
    assert forall|k: Seq<char>| !#[trigger] suf(sb(p), sb(k)) implies !ends(k, p) by { if ends(k, p) { let x = k.take(k.len() - p.len()); assert(k =~= x + p); sb_cat(x, p); } }
}
} // verus!
}
