// C14: a printed list of match rules is read back as that list.
pub mod mp {
use vstd::prelude::*;
use crate::th::*;
use crate::nm::*;
use crate::vfmt::*;
use crate::mr::*;
verus! {
/// a character that quoting leaves alone
pub open spec fn pch(c: char) -> bool { (c as u32) < 128 && c != '\'' && c != ',' && c != '\\' }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> pch(#[trigger] s[i]) }
/// nothing, or a comma and more
pub open spec fn tl(r: Seq<char>) -> bool { r.len() > 0 ==> r[0] == ',' }
pub proof fn plain_read(s: Seq<char>, r: Seq<char>) requires plain(s), tl(r) ensures vlen(s + r, false) == Some(s.len()), unq(s, false) == Some(s) decreases s.len()
{
    if s.len() == 0 { assert(s + r =~= r); assert(s =~= Seq::empty()); }
    else {
        plain_read(s.skip(1), r);
        assert(pch(s[0])); assert((s + r).skip(1) =~= s.skip(1) + r); assert((s + r)[0] == s[0]);
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
pub proof fn esc_front(s: Seq<char>) requires s.len() > 0 ensures esc(s) == esc1(s[0]) + esc(s.skip(1)) decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(esc(s.drop_last()) =~= Seq::empty()); assert(esc(s.skip(1)) =~= Seq::empty()); assert(esc(s) =~= esc1(s[0]) + esc(s.skip(1))); }
    else {
        esc_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(esc(s) =~= esc1(s[0]) + esc(s.skip(1)));
    }
}
/// reading one escaped character
pub proof fn esc1_read(c: char, x: Seq<char>)
    ensures vlen(esc1(c) + x, false) == more(esc1(c).len(), vlen(x, false)), unq(esc1(c) + x, false) == cons(c, unq(x, false))
{
    reveal_strlit("\\'"); reveal_strlit("','"); reveal_strlit("'\\'");
    let e = esc1(c); let s = e + x;
    if c == '\'' {
        assert(e =~= seq!['\\', '\'']); assert(s.skip(2) =~= x); assert(s[0] == '\\' && s[1] == '\'');
    } else if c == ',' || c == '\\' {
        assert(e =~= seq!['\'', c, '\'']); assert(s[0] == '\'');
        let s1 = s.skip(1); let s2 = s1.skip(1);
        assert(s1[0] == c && s2[0] == '\'' && s2.skip(1) =~= x);
        assert(vlen(s2, true) == more(1, vlen(x, false))); assert(vlen(s1, true) == more(1, vlen(s2, true)));
        assert(unq(s2, true) == unq(x, false)); assert(unq(s1, true) == cons(c, unq(s2, true)));
    } else {
        assert(e =~= seq![c]); assert(s.skip(1) =~= x); assert(s[0] == c);
    }
}
pub proof fn esc_read(s: Seq<char>, r: Seq<char>) requires tl(r) ensures vlen(esc(s) + r, false) == Some(esc(s).len()), unq(esc(s), false) == Some(s) decreases s.len()
{
    if s.len() == 0 { assert(esc(s) + r =~= r); assert(s =~= Seq::empty()); }
    else {
        esc_front(s); esc_read(s.skip(1), r);
        let e = esc1(s[0]); let x = esc(s.skip(1));
        esc1_read(s[0], x + r); esc1_read(s[0], x);
        assert(esc(s) + r =~= e + (x + r));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
/// a key
pub open spec fn keyish(k: Seq<char>) -> bool { forall|i: int| 0 <= i < k.len() ==> keychar(#[trigger] k[i]) }
pub proof fn key_read(k: Seq<char>, v: Seq<char>) requires keyish(k) ensures krest(k.push('=') + v) == more(k.len() + 1, vlen(v, false)) decreases k.len()
{
    let s = k.push('=') + v;
    if k.len() == 0 { assert(s[0] == '='); assert(s.skip(1) =~= v); }
    else { assert(keychar(k[0])); assert(s[0] == k[0]); assert(s.skip(1) =~= k.skip(1).push('=') + v);
        assert forall|i: int| 0 <= i < k.skip(1).len() implies keychar(#[trigger] k.skip(1)[i]) by { assert(keychar(k[i + 1])); }
        key_read(k.skip(1), v); }
}
pub proof fn no_eq(k: Seq<char>) requires keyish(k) ensures !k.contains('=') { assert forall|i: int| 0 <= i < k.len() implies k[i] != '=' by { assert(keychar(k[i])); } }
/// a rule in front of a list
pub proof fn rule_read(k: Seq<char>, v: Seq<char>, w: Seq<char>, r: Seq<char>)
    requires keyish(k), k.len() > 0, vlen(v + r, false) == Some(v.len()), unq(v, false) == Some(w)
    ensures ({ let t = k.push('=') + v; rule_len(t + r) == Some(t.len()) && rule_of(t) == rule_kv(k, w) && (t + r).take(t.len() as int) == t && after(t + r, t.len()) == (if r.len() > 0 { r.skip(1) } else { r }) && t.len() > 0 })
{
    let t = k.push('=') + v; let s = t + r;
    assert(keychar(k[0])); assert(s[0] == k[0]);
    let k1 = k.skip(1);
    assert forall|i: int| 0 <= i < k1.len() implies keychar(#[trigger] k1[i]) by { assert(keychar(k[i + 1])); }
    assert(s.skip(1) =~= k1.push('=') + (v + r)); key_read(k1, v + r);
    assert(s.take(t.len() as int) =~= t);
    if r.len() > 0 { assert(s.skip(t.len() as int + 1) =~= r.skip(1)); } else { assert(s =~= t); assert(r =~= Seq::empty()); }
    no_eq(k); pos_is(t, '=', k, v);
    assert(t[k.len() as int] == '=');
}
// ---- numbers
pub proof fn dec_read(n: nat) ensures numeral(cb(dec(n))), num_val(cb(dec(n))) == n, dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> digit(#[trigger] dec(n)[i]) decreases n
{
    let d = dec(n); let c = cb(d);
    if n < 10 { assert(d == seq![(48 + n) as u8]); assert(c.len() == 1); assert(cdigit(c[0])); assert(c.drop_last() =~= Seq::empty()); assert(num_val(c.drop_last()) == 0); assert(c.last() as int == 48 + n); }
    else {
        dec_read(n / 10); let e = dec(n / 10);
        assert(d == e.push((48 + n % 10) as u8));
        assert(c.drop_last() =~= cb(e)); assert(c.last() as int == 48 + n % 10);
        assert forall|i: int| 0 <= i < d.len() implies digit(#[trigger] d[i]) by { if i < e.len() { assert(d[i] == e[i]); } }
        assert forall|i: int| 0 <= i < c.len() implies cdigit(#[trigger] c[i]) by { assert(digit(d[i])); }
        assert(n == 10 * (n / 10) + n % 10);
    }
}
pub proof fn usize_read(n: int) requires 0 <= n <= usize::MAX ensures usize_of(cb(dec(n as nat))) == Some(n)
{ dec_read(n as nat); let c = cb(dec(n as nat)); assert(cdigit(c[0])); assert(c[0] != '+'); }
// ---- names
pub proof fn cb_sb(b: Seq<u8>) requires ascii(b) ensures sb(cb(b)) == b decreases b.len()
{
    broadcast use sb_nil;
    if b.len() == 0 { assert(cb(b) =~= Seq::empty()); assert(b =~= Seq::empty()); }
    else { cb_sb(b.drop_last()); assert(b.last() < 128); assert(cb(b) =~= cb(b.drop_last()).push(b.last() as char)); sb_push(cb(b.drop_last()), b.last() as char); assert((b.last() as char) as u8 == b.last()); assert(b.drop_last().push(b.last()) =~= b); }
}
pub open spec fn npch(b: u8) -> bool { b < 128 && b != 39 && b != 44 && b != 92 }
pub proof fn name_plain(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> npch(#[trigger] b[i]) ensures plain(cb(b)), sb(cb(b)) == b
{ assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < 128 by { assert(npch(b[i])); } cb_sb(b); assert forall|i: int| 0 <= i < b.len() implies pch(#[trigger] cb(b)[i]) by { assert(npch(b[i])); assert(cb(b)[i] == b[i] as char); } }
pub proof fn dotted_plain(s: Seq<u8>, hy: bool, ds: bool) requires dotted(s, hy, ds) ensures plain(cb(s)), sb(cb(s)) == s { assert forall|i: int| 0 <= i < s.len() implies npch(#[trigger] s[i]) by { assert(dchar(s, i, hy, ds)); } name_plain(s); }
pub proof fn unique_plain(s: Seq<u8>) requires unique_ok(s) ensures plain(cb(s)), sb(cb(s)) == s { assert forall|i: int| 0 <= i < s.len() implies npch(#[trigger] s[i]) by { assert(uchar(s, i)); } name_plain(s); }
pub proof fn member_plain(s: Seq<u8>) requires member_ok(s) ensures plain(cb(s)), sb(cb(s)) == s { assert forall|i: int| 0 <= i < s.len() implies npch(#[trigger] s[i]) by { assert(mchar(s, i)); } name_plain(s); }
pub proof fn path_plain(s: Seq<u8>) requires path_ok(s) ensures plain(cb(s)), sb(cb(s)) == s { assert forall|i: int| 0 <= i < s.len() implies npch(#[trigger] s[i]) by { assert(pchar(s, i)); } name_plain(s); }
// ---- the words of rules
pub proof fn klits() ensures "type"@ == seq!['t', 'y', 'p', 'e'], "sender"@ == seq!['s', 'e', 'n', 'd', 'e', 'r'], "interface"@ == seq!['i', 'n', 't', 'e', 'r', 'f', 'a', 'c', 'e'], "member"@ == seq!['m', 'e', 'm', 'b', 'e', 'r'], "path"@ == seq!['p', 'a', 't', 'h'], "path_namespace"@ == seq!['p', 'a', 't', 'h', '_', 'n', 'a', 'm', 'e', 's', 'p', 'a', 'c', 'e'], "destination"@ == seq!['d', 'e', 's', 't', 'i', 'n', 'a', 't', 'i', 'o', 'n'], "arg"@ == seq!['a', 'r', 'g'], "arg0namespace"@ == seq!['a', 'r', 'g', '0', 'n', 'a', 'm', 'e', 's', 'p', 'a', 'c', 'e'], "eavesdrop"@ == seq!['e', 'a', 'v', 'e', 's', 'd', 'r', 'o', 'p'], "0namespace"@ == seq!['0', 'n', 'a', 'm', 'e', 's', 'p', 'a', 'c', 'e']
{ reveal_strlit("type"); assert("type"@ =~= seq!['t', 'y', 'p', 'e']); reveal_strlit("sender"); assert("sender"@ =~= seq!['s', 'e', 'n', 'd', 'e', 'r']); reveal_strlit("interface"); assert("interface"@ =~= seq!['i', 'n', 't', 'e', 'r', 'f', 'a', 'c', 'e']); reveal_strlit("member"); assert("member"@ =~= seq!['m', 'e', 'm', 'b', 'e', 'r']); reveal_strlit("path"); assert("path"@ =~= seq!['p', 'a', 't', 'h']); reveal_strlit("path_namespace"); assert("path_namespace"@ =~= seq!['p', 'a', 't', 'h', '_', 'n', 'a', 'm', 'e', 's', 'p', 'a', 'c', 'e']); reveal_strlit("destination"); assert("destination"@ =~= seq!['d', 'e', 's', 't', 'i', 'n', 'a', 't', 'i', 'o', 'n']); reveal_strlit("arg"); assert("arg"@ =~= seq!['a', 'r', 'g']); reveal_strlit("arg0namespace"); assert("arg0namespace"@ =~= seq!['a', 'r', 'g', '0', 'n', 'a', 'm', 'e', 's', 'p', 'a', 'c', 'e']); reveal_strlit("eavesdrop"); assert("eavesdrop"@ =~= seq!['e', 'a', 'v', 'e', 's', 'd', 'r', 'o', 'p']); reveal_strlit("0namespace"); assert("0namespace"@ =~= seq!['0', 'n', 'a', 'm', 'e', 's', 'p', 'a', 'c', 'e']); }
pub proof fn vlits() ensures "method_call"@ == seq!['m', 'e', 't', 'h', 'o', 'd', '_', 'c', 'a', 'l', 'l'], "method_return"@ == seq!['m', 'e', 't', 'h', 'o', 'd', '_', 'r', 'e', 't', 'u', 'r', 'n'], "error"@ == seq!['e', 'r', 'r', 'o', 'r'], "signal"@ == seq!['s', 'i', 'g', 'n', 'a', 'l'], "true"@ == seq!['t', 'r', 'u', 'e'], "false"@ == seq!['f', 'a', 'l', 's', 'e']
{ reveal_strlit("method_call"); assert("method_call"@ =~= seq!['m', 'e', 't', 'h', 'o', 'd', '_', 'c', 'a', 'l', 'l']); reveal_strlit("method_return"); assert("method_return"@ =~= seq!['m', 'e', 't', 'h', 'o', 'd', '_', 'r', 'e', 't', 'u', 'r', 'n']); reveal_strlit("error"); assert("error"@ =~= seq!['e', 'r', 'r', 'o', 'r']); reveal_strlit("signal"); assert("signal"@ =~= seq!['s', 'i', 'g', 'n', 'a', 'l']); reveal_strlit("true"); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); reveal_strlit("false"); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']); }
pub proof fn elits() ensures "type="@ == "type"@.push('='), "sender="@ == "sender"@.push('='), "interface="@ == "interface"@.push('='), "member="@ == "member"@.push('='), "path="@ == "path"@.push('='), "path_namespace="@ == "path_namespace"@.push('='), "destination="@ == "destination"@.push('='), "arg0namespace="@ == "arg0namespace"@.push('='), "eavesdrop="@ == "eavesdrop"@.push('='), "="@ == seq!['=']
{ reveal_strlit("type="); reveal_strlit("type"); assert("type="@ =~= "type"@.push('=')); reveal_strlit("sender="); reveal_strlit("sender"); assert("sender="@ =~= "sender"@.push('=')); reveal_strlit("interface="); reveal_strlit("interface"); assert("interface="@ =~= "interface"@.push('=')); reveal_strlit("member="); reveal_strlit("member"); assert("member="@ =~= "member"@.push('=')); reveal_strlit("path="); reveal_strlit("path"); assert("path="@ =~= "path"@.push('=')); reveal_strlit("path_namespace="); reveal_strlit("path_namespace"); assert("path_namespace="@ =~= "path_namespace"@.push('=')); reveal_strlit("destination="); reveal_strlit("destination"); assert("destination="@ =~= "destination"@.push('=')); reveal_strlit("arg0namespace="); reveal_strlit("arg0namespace"); assert("arg0namespace="@ =~= "arg0namespace"@.push('=')); reveal_strlit("eavesdrop="); reveal_strlit("eavesdrop"); assert("eavesdrop="@ =~= "eavesdrop"@.push('=')); reveal_strlit("="); assert("="@ =~= seq!['=']); }
pub open spec fn key(m: Mr) -> Seq<char> {
    match m {
        Mr::Type(_) => "type"@, Mr::Sender(_) => "sender"@, Mr::Interface(_) => "interface"@, Mr::Member(_) => "member"@, Mr::Path(_) => "path"@, Mr::PathNamespace(_) => "path_namespace"@,
        Mr::Destination(_) => "destination"@, Mr::Arg(n, _) => "arg"@ + cb(dec(n as nat)), Mr::ArgPath(n, _) => "arg"@ + cb(dec(n as nat)) + "path"@,
        Mr::Arg0Namespace(_) => "arg0namespace"@, Mr::Eavesdrop(_) => "eavesdrop"@,
    }
}
pub open spec fn unesc(m: Mr) -> Seq<char> { match m { Mr::Arg(_, s) => s, _ => value(m) } }
pub proof fn text_parts(m: Mr) ensures text(m) =~= key(m).push('=') + value(m)
{ elits(); assert(head(m) =~= key(m).push('=')); }
pub proof fn value_read(m: Mr, r: Seq<char>) requires mr_ok(m), tl(r) ensures vlen(value(m) + r, false) == Some(value(m).len()), unq(value(m), false) == Some(unesc(m)), m is Arg || plain(value(m))
{
    match m {
        Mr::Type(t) => { vlits(); plain_read(value(m), r); }
        Mr::Sender(s) => { if s.len() > 0 && s[0] == 58 { unique_plain(s); } else { dotted_plain(s, true, false); } plain_read(value(m), r); }
        Mr::Interface(s) => { dotted_plain(s, false, false); plain_read(value(m), r); }
        Mr::Arg0Namespace(s) => { dotted_plain(s, false, false); plain_read(value(m), r); }
        Mr::Member(s) => { member_plain(s); plain_read(value(m), r); }
        Mr::Path(s) => { path_plain(s); plain_read(value(m), r); }
        Mr::PathNamespace(s) => { path_plain(s); plain_read(value(m), r); }
        Mr::ArgPath(_, s) => { path_plain(s); plain_read(value(m), r); }
        Mr::Destination(s) => { unique_plain(s); plain_read(value(m), r); }
        Mr::Arg(_, s) => { esc_read(s, r); }
        Mr::Eavesdrop(b) => { vlits(); plain_read(value(m), r); }
    }
}
/// names print as themselves
pub proof fn sb_text(m: Mr) requires mr_ok(m) ensures sb(text(m)) == btext(m)
{
    sb_cat(head(m), value(m));
    match m {
        Mr::Sender(s) => { if s.len() > 0 && s[0] == 58 { unique_plain(s); } else { dotted_plain(s, true, false); } }
        Mr::Interface(s) => { dotted_plain(s, false, false); }
        Mr::Arg0Namespace(s) => { dotted_plain(s, false, false); }
        Mr::Member(s) => { member_plain(s); }
        Mr::Path(s) => { path_plain(s); }
        Mr::PathNamespace(s) => { path_plain(s); }
        Mr::Destination(s) => { unique_plain(s); }
        Mr::ArgPath(n, s) => { path_plain(s); num_sb(n as nat); sb_cat("arg"@, cb(dec(n as nat))); sb_cat("arg"@ + cb(dec(n as nat)), "path"@); sb_cat("arg"@ + cb(dec(n as nat)) + "path"@, "="@); }
        Mr::Arg(n, s) => { num_sb(n as nat); sb_cat("arg"@, cb(dec(n as nat))); sb_cat("arg"@ + cb(dec(n as nat)), "="@); }
        _ => {}
    }
}
pub proof fn num_sb(n: nat) ensures sb(cb(dec(n))) == dec(n) { dec_read(n); assert forall|i: int| 0 <= i < dec(n).len() implies #[trigger] dec(n)[i] < 128 by { assert(digit(dec(n)[i])); } cb_sb(dec(n)); }
pub proof fn arg_key(n: int) requires 0 <= n <= usize::MAX ensures ({ let d = cb(dec(n as nat)); let a = "arg"@ + d; let p = a + "path"@;
    &&& keyish(a) && a.len() > 0 && begins(a, "arg"@) && a.skip(3) == d && !ends(d, "path"@) && d != "0namespace"@ && usize_of(d) == Some(n) && a[0] == 'a' && a.len() > 0
    &&& keyish(p) && p.len() > 0 && begins(p, "arg"@) && p.skip(3) == d + "path"@ && ends(d + "path"@, "path"@) && (d + "path"@).take((d + "path"@).len() - 4) == d && p[0] == 'a' && p.len() > 0 })
{
    klits(); dec_read(n as nat); usize_read(n);
    let b = dec(n as nat); let d = cb(b); let a = "arg"@ + d; let p = a + "path"@;
    assert forall|i: int| 0 <= i < p.len() implies keychar(#[trigger] p[i]) by { if 3 <= i < 3 + d.len() { assert(digit(b[i - 3])); assert(p[i] == b[i - 3] as char); } }
    assert forall|i: int| 0 <= i < a.len() implies keychar(#[trigger] a[i]) by { assert(p[i] == a[i]); }
    assert(a.take(3) =~= "arg"@); assert(p.take(3) =~= "arg"@); assert(a.skip(3) =~= d); assert(p.skip(3) =~= d + "path"@);
    let q = d + "path"@;
    assert(q.skip(q.len() - 4) =~= "path"@); assert(q.take(q.len() - 4) =~= d);
    assert(digit(b[b.len() - 1]));
    assert(d[d.len() - 1] == b[b.len() - 1] as char);
    if ends(d, "path"@) { assert(d.skip(d.len() - 4)[3] == 'h'); }
    if d == "0namespace"@ { assert(d[9] == 'e'); }
}
pub open spec fn fixed(k: Seq<char>, n: int, c: char) -> bool { k.len() == n && n > 0 && keyish(k) && k[0] == c }
pub proof fn kshape() ensures fixed("type"@, 4, 't'), fixed("sender"@, 6, 's'), fixed("interface"@, 9, 'i'), fixed("member"@, 6, 'm'), fixed("path"@, 4, 'p'), fixed("path_namespace"@, 14, 'p'), fixed("destination"@, 11, 'd'), fixed("arg0namespace"@, 13, 'a'), fixed("eavesdrop"@, 9, 'e'), "arg"@.len() == 3, "arg"@[0] == 'a'
{
    { reveal_strlit("type"); let k = "type"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 't'); } else if i == 1 { assert(k[1] == 'y'); } else if i == 2 { assert(k[2] == 'p'); } else if i == 3 { assert(k[3] == 'e'); } } }
    { reveal_strlit("sender"); let k = "sender"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 's'); } else if i == 1 { assert(k[1] == 'e'); } else if i == 2 { assert(k[2] == 'n'); } else if i == 3 { assert(k[3] == 'd'); } else if i == 4 { assert(k[4] == 'e'); } else if i == 5 { assert(k[5] == 'r'); } } }
    { reveal_strlit("interface"); let k = "interface"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 'i'); } else if i == 1 { assert(k[1] == 'n'); } else if i == 2 { assert(k[2] == 't'); } else if i == 3 { assert(k[3] == 'e'); } else if i == 4 { assert(k[4] == 'r'); } else if i == 5 { assert(k[5] == 'f'); } else if i == 6 { assert(k[6] == 'a'); } else if i == 7 { assert(k[7] == 'c'); } else if i == 8 { assert(k[8] == 'e'); } } }
    { reveal_strlit("member"); let k = "member"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 'm'); } else if i == 1 { assert(k[1] == 'e'); } else if i == 2 { assert(k[2] == 'm'); } else if i == 3 { assert(k[3] == 'b'); } else if i == 4 { assert(k[4] == 'e'); } else if i == 5 { assert(k[5] == 'r'); } } }
    { reveal_strlit("path"); let k = "path"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 'p'); } else if i == 1 { assert(k[1] == 'a'); } else if i == 2 { assert(k[2] == 't'); } else if i == 3 { assert(k[3] == 'h'); } } }
    { reveal_strlit("path_namespace"); let k = "path_namespace"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 'p'); } else if i == 1 { assert(k[1] == 'a'); } else if i == 2 { assert(k[2] == 't'); } else if i == 3 { assert(k[3] == 'h'); } else if i == 4 { assert(k[4] == '_'); } else if i == 5 { assert(k[5] == 'n'); } else if i == 6 { assert(k[6] == 'a'); } else if i == 7 { assert(k[7] == 'm'); } else if i == 8 { assert(k[8] == 'e'); } else if i == 9 { assert(k[9] == 's'); } else if i == 10 { assert(k[10] == 'p'); } else if i == 11 { assert(k[11] == 'a'); } else if i == 12 { assert(k[12] == 'c'); } else if i == 13 { assert(k[13] == 'e'); } } }
    { reveal_strlit("destination"); let k = "destination"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 'd'); } else if i == 1 { assert(k[1] == 'e'); } else if i == 2 { assert(k[2] == 's'); } else if i == 3 { assert(k[3] == 't'); } else if i == 4 { assert(k[4] == 'i'); } else if i == 5 { assert(k[5] == 'n'); } else if i == 6 { assert(k[6] == 'a'); } else if i == 7 { assert(k[7] == 't'); } else if i == 8 { assert(k[8] == 'i'); } else if i == 9 { assert(k[9] == 'o'); } else if i == 10 { assert(k[10] == 'n'); } } }
    { reveal_strlit("arg0namespace"); let k = "arg0namespace"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 'a'); } else if i == 1 { assert(k[1] == 'r'); } else if i == 2 { assert(k[2] == 'g'); } else if i == 3 { assert(k[3] == '0'); } else if i == 4 { assert(k[4] == 'n'); } else if i == 5 { assert(k[5] == 'a'); } else if i == 6 { assert(k[6] == 'm'); } else if i == 7 { assert(k[7] == 'e'); } else if i == 8 { assert(k[8] == 's'); } else if i == 9 { assert(k[9] == 'p'); } else if i == 10 { assert(k[10] == 'a'); } else if i == 11 { assert(k[11] == 'c'); } else if i == 12 { assert(k[12] == 'e'); } } }
    { reveal_strlit("eavesdrop"); let k = "eavesdrop"@; assert forall|i: int| 0 <= i < k.len() implies keychar(#[trigger] k[i]) by { if i == 0 { assert(k[0] == 'e'); } else if i == 1 { assert(k[1] == 'a'); } else if i == 2 { assert(k[2] == 'v'); } else if i == 3 { assert(k[3] == 'e'); } else if i == 4 { assert(k[4] == 's'); } else if i == 5 { assert(k[5] == 'd'); } else if i == 6 { assert(k[6] == 'r'); } else if i == 7 { assert(k[7] == 'o'); } else if i == 8 { assert(k[8] == 'p'); } } }
    reveal_strlit("arg");
}
pub proof fn not_arg(k: Seq<char>) requires k.len() > 0, k[0] != 'a' ensures !begins(k, "arg"@) { kshape(); if begins(k, "arg"@) { assert(k.take(3)[0] == k[0]); } }
pub proof fn kv_ns(s: Seq<u8>) requires interface_ok(s) ensures rule_kv("arg0namespace"@, cb(s)) == Some(Mr::Arg0Namespace(s))
{
    kshape(); dotted_plain(s, false, false); klits();
    assert("arg0namespace"@.take(3) =~= "arg"@); assert("arg0namespace"@.skip(3) =~= "0namespace"@); if ends("0namespace"@, "path"@) { assert("0namespace"@.skip(6)[2] == 'c'); }
}
pub proof fn kv_arg(n: int, s: Seq<char>) requires 0 <= n < 64 ensures rule_kv(key(Mr::Arg(n, s)), s) == Some(Mr::Arg(n, s))
{ hide(begins); hide(ends); hide(usize_of); hide(keyish); hide(dec); hide(cb); kshape(); arg_key(n); }
pub proof fn kv_argpath(n: int, s: Seq<u8>) requires 0 <= n <= usize::MAX, path_ok(s) ensures rule_kv(key(Mr::ArgPath(n, s)), cb(s)) == Some(Mr::ArgPath(n, s))
{ hide(begins); hide(ends); hide(usize_of); hide(keyish); hide(path_ok); hide(dec); hide(cb); kshape(); arg_key(n); path_plain(s); }
pub proof fn kv_type(t: u8) requires 1 <= t <= 4 ensures rule_kv("type"@, mt_name(t)) == Some(Mr::Type(t))
{ hide(rule_arg); hide(begins); hide(keyish); kshape(); vlits(); }
pub proof fn kv_eaves(b: bool) ensures rule_kv("eavesdrop"@, if b { "true"@ } else { "false"@ }) == Some(Mr::Eavesdrop(b))
{ hide(rule_arg); hide(begins); hide(keyish); kshape(); vlits(); not_arg("eavesdrop"@); }
proof fn kv_sender(s: Seq<u8>) requires bus_ok(s) ensures rule_kv("sender"@, cb(s)) == Some(Mr::Sender(s))
{ hide(rule_arg); hide(begins); hide(ends); hide(usize_of); hide(keyish); hide(bus_ok); hide(dotted); hide(unique_ok); hide(member_ok); hide(path_ok); hide(cb); hide(dec); kshape(); bus_plain(s); }
proof fn kv_interface(s: Seq<u8>) requires interface_ok(s) ensures rule_kv("interface"@, cb(s)) == Some(Mr::Interface(s))
{ hide(rule_arg); hide(begins); hide(ends); hide(usize_of); hide(keyish); hide(bus_ok); hide(dotted); hide(unique_ok); hide(member_ok); hide(path_ok); hide(cb); hide(dec); kshape(); dotted_plain(s, false, false); }
proof fn kv_member(s: Seq<u8>) requires member_ok(s) ensures rule_kv("member"@, cb(s)) == Some(Mr::Member(s))
{ hide(rule_arg); hide(begins); hide(ends); hide(usize_of); hide(keyish); hide(bus_ok); hide(dotted); hide(unique_ok); hide(member_ok); hide(path_ok); hide(cb); hide(dec); kshape(); member_plain(s); }
proof fn kv_path(s: Seq<u8>) requires path_ok(s) ensures rule_kv("path"@, cb(s)) == Some(Mr::Path(s))
{ hide(rule_arg); hide(begins); hide(ends); hide(usize_of); hide(keyish); hide(bus_ok); hide(dotted); hide(unique_ok); hide(member_ok); hide(path_ok); hide(cb); hide(dec); kshape(); path_plain(s); }
proof fn kv_pathns(s: Seq<u8>) requires path_ok(s) ensures rule_kv("path_namespace"@, cb(s)) == Some(Mr::PathNamespace(s))
{ hide(rule_arg); hide(begins); hide(ends); hide(usize_of); hide(keyish); hide(bus_ok); hide(dotted); hide(unique_ok); hide(member_ok); hide(path_ok); hide(cb); hide(dec); kshape(); path_plain(s); }
proof fn kv_dest(s: Seq<u8>) requires unique_ok(s) ensures rule_kv("destination"@, cb(s)) == Some(Mr::Destination(s))
{ hide(rule_arg); hide(begins); hide(ends); hide(usize_of); hide(keyish); hide(bus_ok); hide(dotted); hide(unique_ok); hide(member_ok); hide(path_ok); hide(cb); hide(dec); kshape(); unique_plain(s); }
pub proof fn bus_plain(s: Seq<u8>) requires bus_ok(s) ensures plain(cb(s)), sb(cb(s)) == s { if s.len() > 0 && s[0] == 58 { unique_plain(s); } else { dotted_plain(s, true, false); } }
pub proof fn key_ok(m: Mr) requires mr_ok(m) ensures keyish(key(m)), key(m).len() > 0
{ hide(keyish); kshape(); match m { Mr::Arg(n, s) => { arg_key(n); } Mr::ArgPath(n, s) => { arg_key(n); } _ => {} } }
pub proof fn kv_read(m: Mr) requires mr_ok(m) ensures keyish(key(m)), key(m).len() > 0, rule_kv(key(m), unesc(m)) == Some(m)
{
    hide(rule_kv); hide(keyish); hide(mt_name); hide(dotted); hide(unique_ok); hide(member_ok); hide(path_ok);
    key_ok(m);
    match m {
        Mr::Arg(n, s) => { kv_arg(n, s); }
        Mr::ArgPath(n, s) => { kv_argpath(n, s); }
        Mr::Arg0Namespace(s) => { kv_ns(s); }
        Mr::Type(t) => { kv_type(t); }
        Mr::Eavesdrop(b) => { kv_eaves(b); }
        Mr::Sender(s) => { kv_sender(s); }
        Mr::Interface(s) => { kv_interface(s); }
        Mr::Member(s) => { kv_member(s); }
        Mr::Path(s) => { kv_path(s); }
        Mr::PathNamespace(s) => { kv_pathns(s); }
        Mr::Destination(s) => { kv_dest(s); }
    }
}
// ---- lists
pub open spec fn all_ok(l: Seq<Mr>) -> bool { forall|i: int| 0 <= i < l.len() ==> mr_ok(#[trigger] l[i]) }
pub open spec fn ctail(l: Seq<Mr>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else { seq![','] + text(l[0]) + ctail(l.skip(1)) } }
pub open spec fn printed(l: Seq<Mr>) -> Seq<char> { if l.len() == 0 { Seq::empty() } else { text(l[0]) + ctail(l.skip(1)) } }
pub proof fn ctail_push(l: Seq<Mr>) requires l.len() > 0 ensures ctail(l) == ctail(l.drop_last()) + seq![','] + text(l.last()) decreases l.len()
{
    hide(text);
    if l.len() == 1 { assert(l.skip(1) =~= Seq::empty()); assert(l.drop_last() =~= Seq::empty()); assert(ctail(l.skip(1)) =~= Seq::empty()); assert(ctail(l.drop_last()) =~= Seq::empty()); assert(ctail(l) =~= ctail(l.drop_last()) + seq![','] + text(l.last())); }
    else { ctail_push(l.skip(1)); assert(l.skip(1).drop_last() =~= l.drop_last().skip(1)); assert(l.drop_last()[0] == l[0]); assert(l.skip(1).last() == l.last()); assert(ctail(l) =~= ctail(l.drop_last()) + seq![','] + text(l.last())); }
}
pub proof fn sb_tail(l: Seq<Mr>) requires all_ok(l) ensures sb(ctail(l)) == btail(l) decreases l.len()
{
    hide(text); hide(btext);
    broadcast use sb_nil;
    if l.len() > 0 {
        assert forall|i: int| 0 <= i < l.drop_last().len() implies mr_ok(#[trigger] l.drop_last()[i]) by { assert(mr_ok(l[i])); }
        sb_tail(l.drop_last()); ctail_push(l); assert(mr_ok(l[l.len() - 1])); sb_text(l.last());
        let a = ctail(l.drop_last());
        sb_cat(a, seq![',']); sb_cat(a + seq![','], text(l.last()));
        reveal_strlit(","); assert(","@ =~= seq![',']);
    }
}
pub proof fn sb_printed(l: Seq<Mr>) requires all_ok(l) ensures sb(printed(l)) == bjoined(l)
{
    hide(text); hide(btext);
    broadcast use sb_nil;
    if l.len() > 0 {
        assert(mr_ok(l[0])); sb_text(l[0]);
        assert forall|i: int| 0 <= i < l.skip(1).len() implies mr_ok(#[trigger] l.skip(1)[i]) by { assert(mr_ok(l[i + 1])); }
        sb_tail(l.skip(1)); sb_cat(text(l[0]), ctail(l.skip(1)));
    }
}
pub proof fn printed_read(l: Seq<Mr>) requires all_ok(l) ensures rules_of(printed(l)) == Some(l) decreases l.len()
{
    hide(text); hide(key); hide(value); hide(rule_kv); hide(rule_of); hide(rule_len);
    if l.len() == 0 { assert(l =~= Seq::empty()); }
    else {
        let m = l[0]; let l1 = l.skip(1); let r = ctail(l1); let t = text(m); let s = t + r;
        assert(mr_ok(l[0]));
        assert forall|i: int| 0 <= i < l1.len() implies mr_ok(#[trigger] l1[i]) by { assert(mr_ok(l[i + 1])); }
        printed_read(l1);
        assert(tl(r)); 
        text_parts(m); value_read(m, r); kv_read(m);
        rule_read(key(m), value(m), unesc(m), r);
        assert(rule_of(t) == Some(m));
        if l1.len() > 0 { assert(r.skip(1) =~= printed(l1)); } else { assert(r =~= Seq::empty()); assert(printed(l1) =~= Seq::empty()); }
        assert(after(s, t.len()) == printed(l1));
        assert(seq![m] + l1 =~= l);
    }
}
/// C14: a list of rules is read back from its text
pub proof fn round_trip(l: Seq<Mr>, t: Seq<char>) requires all_ok(l), sb(t) == bjoined(l) ensures rules_of(t) == Some(l)
{ sb_printed(l); sb_inj(t, printed(l)); printed_read(l); }
} // verus!
}
