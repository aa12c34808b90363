// Shared theory: character classes and assumed contracts of std functions.
pub mod th {
use vstd::prelude::*;
use vstd::string::StringSliceAdditionalSpecFns;
verus! {
global size_of usize == 8; // 64-bit targets only
/// the size of an f64 (vstd knows the integers only)
#[verifier::external_body] pub broadcast proof fn f64_size() ensures #[trigger] vstd::layout::size_of::<f64>() == 8 {}
pub open spec fn alpha(c: u8) -> bool { (65 <= c && c <= 90) || (97 <= c && c <= 122) }
pub open spec fn digit(c: u8) -> bool { 48 <= c && c <= 57 }
pub open spec fn alnum(c: u8) -> bool { alpha(c) || digit(c) }
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
pub proof fn ascii_valid(s: Seq<u8>) requires ascii(s) ensures vstd::utf8::valid_utf8(s) decreases s.len()
{
    if s.len() > 0 {
        ascii_valid(s.drop_first());
        assert(s.drop_first() =~= s.subrange(1, s.len() as int));
    }
}
pub open spec fn sb(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
/// encoding is injective, and the identity on ASCII
pub proof fn sb_inj(a: Seq<char>, b: Seq<char>) requires sb(a) == sb(b) ensures a == b
{ vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); }
pub broadcast proof fn sb_eq(a: Seq<char>, b: Seq<char>) ensures (#[trigger] sb(a) == #[trigger] sb(b)) == (a == b)
{ if sb(a) == sb(b) { sb_inj(a, b); } }
pub proof fn sb1(c: char) requires (c as u32) < 128 ensures sb(seq![c]) == seq![c as u8]
{
    vstd::utf8::is_ascii_chars_encode_utf8(seq![c]);
    assert(sb(seq![c]) =~= seq![c as u8]);
}

pub assume_specification[ u8::is_ascii_alphabetic ](c: &u8) -> (r: bool) ensures r == alpha(*c);
pub assume_specification[ u8::is_ascii_alphanumeric ](c: &u8) -> (r: bool) ensures r == alnum(*c);
pub assume_specification[ u8::is_ascii_digit ](c: &u8) -> (r: bool) ensures r == digit(*c);
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8]) ensures r@ == sb(s@);
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>) ensures r@ == s@; // used at T = u8 only
pub assume_specification [std::string::String::from_utf8_unchecked] (v: std::vec::Vec<u8>) -> (r: std::string::String)
    requires vstd::utf8::valid_utf8(v@)
    ensures sb(r@) == v@;

#[verifier::external_type_specification] #[verifier::external_body] pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(std::num::ParseIntError);
/// a str never has more than isize::MAX bytes
#[verifier::external_body] pub broadcast proof fn axiom_str_len(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX {}
pub assume_specification [std::str::from_utf8] (b: &[u8]) -> (r: std::result::Result<&str, std::str::Utf8Error>) ensures match r { Ok(s) => sb(s@) == b@, Err(_) => !vstd::utf8::valid_utf8(b@) };
/// `Option::as_deref` at `Vec`
pub fn as_deref<T>(o: &Option<Vec<T>>) -> (r: Option<&[T]>) ensures match r { Some(x) => *o is Some && x@ == o->Some_0@, None => *o is None } { match o { Some(v) => Some(v.as_slice()), None => None } }
pub assume_specification<T, A: std::alloc::Allocator> [<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref] (v: &std::vec::Vec<T, A>) -> (r: &[T]) ensures r@ == v@;
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String) ensures r@ == Seq::<char>::empty();
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize) ensures r == sb(s@).len();
/// appending an ASCII character appends its byte
pub broadcast proof fn sb_push(s: Seq<char>, c: char) requires (c as u32) < 128 ensures #[trigger] sb(s.push(c)) == sb(s).push(c as u8), sb(s).push(c as u8) == sb(s) + seq![c as u8]
{
    sb1(c);
    vstd::utf8::encode_utf8_concat(s, seq![c]);
    assert(s.push(c) =~= s + seq![c]);
    assert(sb(s) + seq![c as u8] =~= sb(s).push(c as u8));
}
pub broadcast proof fn sb_cat(a: Seq<char>, b: Seq<char>) ensures #[trigger] sb(a + b) == sb(a) + sb(b) { vstd::utf8::encode_utf8_concat(a, b); }
pub broadcast proof fn sb_valid(s: Seq<char>) ensures vstd::utf8::valid_utf8(#[trigger] sb(s)) { vstd::utf8::encode_utf8_valid_utf8(s); }
pub broadcast proof fn sb_nil() ensures #[trigger] sb(Seq::<char>::empty()) == Seq::<u8>::empty() { assert(sb(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }
pub broadcast proof fn sb_none(s: Seq<char>) ensures (#[trigger] sb(s).len() == 0) == (s.len() == 0)
{ broadcast use sb_nil; if sb(s).len() == 0 { assert(sb(s) =~= sb(Seq::<char>::empty())); sb_inj(s, Seq::empty()); } if s.len() == 0 { assert(s =~= Seq::empty()); } }
/// stand-in for std::str::Split<'a, char>: the pieces still to be yielded
#[verifier::external_body] #[verifier::reject_recursive_types(P)] pub struct Split<'a, P> { x: &'a str, p: P }
impl<'a, P> View for Split<'a, P> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl<'a, P> Clone for Split<'a, P> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<'a, P> Split<'a, P> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(x) => old(self)@.len() > 0 && sb(x@) == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
// equality between String and str compares the texts (vstd covers str only)
#[verifier::external_body] pub broadcast proof fn eq1<'a>() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'a str>>::obeys_eq_spec() {}
#[verifier::external_body] pub broadcast proof fn eq1b<'a>(s: String, o: &'a str) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'a str>>::eq_spec(&s, &o) == (s@ == o@) {}
#[verifier::external_body] pub broadcast proof fn eq2() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec() {}
#[verifier::external_body] pub broadcast proof fn eq2b<'a>(s: String, o: &'a str) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&s, o) == (s@ == o@) {}
#[verifier::external_body] pub broadcast proof fn eq3() ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec() {}
#[verifier::external_body] pub broadcast proof fn eq3b<'a>(s: String, o: &'a str) ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(o, &s) == (s@ == o@) {}
#[verifier::external_body] pub broadcast proof fn eq4() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec() {}
#[verifier::external_body] pub broadcast proof fn eq4b<'a>(s: String, o: String) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(&o, &s) == (s@ == o@) {}
pub broadcast group group_texts { sb_eq, sb_push, sb_cat, sb_nil, sb_none, pre1, suf1 }
pub broadcast group group_str_eq { eq1, eq1b, eq2, eq2b, eq3, eq3b, eq4, eq4b }

/// the pieces of s between separators c
pub open spec fn first_sep(s: Seq<u8>, c: u8, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { s.len() as int } else if s[i] == c { i } else { first_sep(s, c, i + 1) } }
pub open spec fn pieces(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len()
{ let i = first_sep(s, c, 0); if 0 <= i < s.len() { seq![s.subrange(0, i)] + pieces(s.subrange(i + 1, s.len() as int), c) } else { seq![s] } }
pub proof fn first_sep_prop(s: Seq<u8>, c: u8, i: int)
    requires 0 <= i <= s.len()
    ensures i <= first_sep(s, c, i) <= s.len(), first_sep(s, c, i) < s.len() ==> s[first_sep(s, c, i)] == c, forall|j: int| i <= j < first_sep(s, c, i) ==> #[trigger] s[j] != c
    decreases s.len() - i
{ if i < s.len() && s[i] != c { first_sep_prop(s, c, i + 1); } }
/// str::split with an ASCII character (calls are renamed to split_p)
pub trait SplitP { fn split_p<'a>(&'a self, c: char) -> Split<'a, char>; }
impl SplitP for str { #[verifier::external_body] fn split_p<'a>(&'a self, c: char) -> (r: Split<'a, char>) ensures (c as u32) < 128 ==> r@ == pieces(sb(self@), c as u8) { unimplemented!() } }
impl SplitP for std::string::String { #[verifier::external_body] fn split_p<'a>(&'a self, c: char) -> (r: Split<'a, char>) ensures (c as u32) < 128 ==> r@ == pieces(sb(self@), c as u8) { unimplemented!() } }

/// `starts_with` of str and slices (calls are renamed to `starts_with_p`)
pub open spec fn pre(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && forall|i: int| #![trigger p[i]] #![trigger s[i]] 0 <= i < p.len() ==> p[i] == s[i] }
pub open spec fn suf(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == s[s.len() - p.len() + i] }
#[verifier::external_body] pub fn one_byte(b: u8) -> (r: &'static [u8]) ensures r@ == seq![b] { unimplemented!() } // `&[b][..]`
pub trait StartsWith<P> { fn starts_with_p(&self, p: P) -> bool; }
impl StartsWith<char> for str { #[verifier::external_body] fn starts_with_p(&self, p: char) -> (r: bool) ensures (p as u32) < 128 ==> r == (sb(self@).len() > 0 && sb(self@)[0] == p as u8) { unimplemented!() } }
impl StartsWith<char> for std::string::String { #[verifier::external_body] fn starts_with_p(&self, p: char) -> (r: bool) ensures (p as u32) < 128 ==> r == (sb(self@).len() > 0 && sb(self@)[0] == p as u8) { unimplemented!() } }
impl<'a> StartsWith<&'a str> for str { #[verifier::external_body] fn starts_with_p(&self, p: &'a str) -> (r: bool) ensures r == pre(sb(p@), sb(self@)) { unimplemented!() } }
impl<'a> StartsWith<&'a str> for std::string::String { #[verifier::external_body] fn starts_with_p(&self, p: &'a str) -> (r: bool) ensures r == pre(sb(p@), sb(self@)) { unimplemented!() } }
impl<'a> StartsWith<&'a [u8]> for [u8] { #[verifier::external_body] fn starts_with_p(&self, p: &'a [u8]) -> (r: bool) ensures r == pre(p@, self@) { unimplemented!() } }

// ---- further str functions; patterns are a char or a str, the contracts speak about the bytes
pub trait Pat { spec fn pb(&self) -> Seq<u8>; }
impl Pat for char { open spec fn pb(&self) -> Seq<u8> { sb(seq![*self]) } }
impl<'a> Pat for &'a str { open spec fn pb(&self) -> Seq<u8> { sb(self@) } }
impl<'a> Pat for &'a std::string::String { open spec fn pb(&self) -> Seq<u8> { sb(self@) } }
// two strings with the same characters are the same string
#[verifier::external_body]
pub broadcast proof fn str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
pub trait StrP {
    spec fn bs(&self) -> Seq<u8>;
    spec fn cs(&self) -> Seq<char>;
    fn strip_prefix_p<'a, P: Pat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { Some(x) => self.bs() == p.pb() + sb(x@), None => !pre(p.pb(), self.bs()) };
    fn strip_suffix_p<'a, P: Pat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { Some(x) => self.bs() == sb(x@) + p.pb(), None => !suf(p.pb(), self.bs()) };
    fn ends_with_p<P: Pat>(&self, p: P) -> (r: bool) ensures r == suf(p.pb(), self.bs());
    fn split_at_p<'a>(&'a self, n: usize) -> (r: (&'a str, &'a str))
        requires exists|i: int| 0 <= i <= self.cs().len() && #[trigger] sb(self.cs().take(i)).len() == n
        ensures forall|i: int| 0 <= i <= self.cs().len() && #[trigger] sb(self.cs().take(i)).len() == n ==> r.0@ == self.cs().take(i) && r.1@ == self.cs().skip(i);
    fn split_once_p<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>)
        ensures match r { Some((a, b)) => self.cs() == a@.push(c) + b@ && !a@.contains(c), None => !self.cs().contains(c) };
    fn parse_usize_p(&self) -> (r: Result<usize, std::num::ParseIntError>) ensures match r { Ok(n) => usize_of(self.cs()) == Some(n as int), Err(_) => usize_of(self.cs()) is None };
    fn char_indices_p(&self) -> (r: Vec<(usize, char)>)
        ensures r@.len() == self.cs().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == self.cs()[i] && r@[i].0 == sb(self.cs().take(i)).len() && r@[i].0 < sb(self.cs()).len() <= isize::MAX;
}
impl StrP for str {
    open spec fn bs(&self) -> Seq<u8> { sb(self@) }
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn strip_prefix_p<'a, P: Pat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn strip_suffix_p<'a, P: Pat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn ends_with_p<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn split_at_p<'a>(&'a self, n: usize) -> (r: (&'a str, &'a str)) { unimplemented!() }
    #[verifier::external_body] fn split_once_p<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn parse_usize_p(&self) -> (r: Result<usize, std::num::ParseIntError>) { unimplemented!() }
    #[verifier::external_body] fn char_indices_p(&self) -> (r: Vec<(usize, char)>) { unimplemented!() }
}
/// str::len (vstd specifies it for ASCII only)
#[verifier::external_body] pub fn text_len(s: &str) -> (r: usize) ensures r == sb(s@).len(), r <= isize::MAX { unimplemented!() }
pub broadcast proof fn suf1(c: u8, s: Seq<u8>) ensures #[trigger] suf(seq![c], s) == (s.len() > 0 && s.last() == c) { if suf(seq![c], s) { assert(seq![c][0] == s[s.len() - 1]); } }
pub broadcast proof fn pre1(c: u8, s: Seq<u8>) ensures #[trigger] pre(seq![c], s) == (s.len() > 0 && s[0] == c) { if pre(seq![c], s) { assert(seq![c][0] == s[0]); } }
/// decimal numbers: `str::parse::<usize>`
pub open spec fn cdigit(c: char) -> bool { (c as u32) < 128 && digit(c as u8) }
pub open spec fn numeral(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> cdigit(#[trigger] s[i]) }
pub open spec fn num_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * num_val(s.drop_last()) + (s.last() as int - 48) } }
pub open spec fn usize_of(s: Seq<char>) -> Option<int> { let t = if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s }; if numeral(t) && num_val(t) <= usize::MAX { Some(num_val(t)) } else { None } }
pub open spec fn calnum(c: char) -> bool { (c as u32) < 128 && alnum(c as u8) }
pub assume_specification [<char>::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == calnum(*c);

pub uninterp spec fn f64_bits(f: f64) -> u64;
// little/big endian byte sequences of an unsigned number
pub open spec fn le_bytes(v: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le_bytes(v / 256, (n - 1) as nat) } }
pub open spec fn rd_u16(s: Seq<u8>, le: bool) -> u16 { if le { (s[0] as int + 256 * s[1]) as u16 } else { (s[1] as int + 256 * s[0]) as u16 } }
pub open spec fn rd_u32(s: Seq<u8>, le: bool) -> u32 { if le { (s[0] as int + 0x100 * s[1] + 0x10000 * s[2] + 0x1000000 * s[3]) as u32 } else { (s[3] as int + 0x100 * s[2] + 0x10000 * s[1] + 0x1000000 * s[0]) as u32 } }
pub open spec fn rd_u64(s: Seq<u8>, le: bool) -> u64 { if le { (rd_u32(s, true) as int + 0x1_0000_0000 * rd_u32(s.subrange(4, 8), true)) as u64 } else { (rd_u32(s.subrange(4, 8), false) as int + 0x1_0000_0000 * rd_u32(s, false)) as u64 } }
pub open spec fn rd_i16(s: Seq<u8>, le: bool) -> i16 { rd_u16(s, le) as i16 }
pub open spec fn rd_i32(s: Seq<u8>, le: bool) -> i32 { rd_u32(s, le) as i32 }
pub open spec fn rd_i64(s: Seq<u8>, le: bool) -> i64 { rd_u64(s, le) as i64 }
pub open spec fn wr_u16(v: u16, le: bool) -> Seq<u8> { if le { seq![(v % 256) as u8, (v / 256) as u8] } else { seq![(v / 256) as u8, (v % 256) as u8] } }
pub open spec fn wr_u32(v: u32, le: bool) -> Seq<u8> { if le { seq![(v % 256) as u8, (v / 0x100 % 256) as u8, (v / 0x10000 % 256) as u8, (v / 0x1000000) as u8] } else { seq![(v / 0x1000000) as u8, (v / 0x10000 % 256) as u8, (v / 0x100 % 256) as u8, (v % 256) as u8] } }
pub open spec fn wr_u64(v: u64, le: bool) -> Seq<u8> { let lo = (v % 0x1_0000_0000) as u32; let hi = (v / 0x1_0000_0000) as u32; if le { wr_u32(lo, true) + wr_u32(hi, true) } else { wr_u32(hi, false) + wr_u32(lo, false) } }
pub open spec fn wr_i16(v: i16, le: bool) -> Seq<u8> { wr_u16(v as u16, le) }
pub open spec fn wr_i32(v: i32, le: bool) -> Seq<u8> { wr_u32(v as u32, le) }
pub open spec fn wr_i64(v: i64, le: bool) -> Seq<u8> { wr_u64(v as u64, le) }
pub assume_specification<T> [std::slice::from_ref] (x: &T) -> (r: &[T]) ensures r@ == seq![*x];
/// u32::to_le_bytes, u32::to_be_bytes
#[verifier::external_body] pub fn to_le(u: u32) -> (r: [u8; 4]) ensures r@ == wr_u32(u, true) { unimplemented!() }
#[verifier::external_body] pub fn to_be(u: u32) -> (r: [u8; 4]) ensures r@ == wr_u32(u, false) { unimplemented!() }
/// v.iter().position(|i| *i == d)
#[verifier::external_body] pub fn position(v: &Vec<i32>, d: i32) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && v@[i as int] == d && (forall|j: int| 0 <= j < i ==> #[trigger] v@[j] != d), None => forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j] != d } { unimplemented!() }
} // verus!
}
/// stand-in for std::fmt: `{}` formatting into a String (a String never refuses text). write! and format! are
/// expanded by the extractor into write_str / fmt calls on it, piece by piece.
pub mod vfmt {
use vstd::prelude::*;
use crate::th::*;
verus! {
pub struct FmtError;
pub type FmtResult = core::result::Result<(), FmtError>;
#[verifier::external_body] pub struct Formatter<'a> { x: &'a () }
/// the bytes written so far
impl<'a> View for Formatter<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a> Formatter<'a> {
    #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: FmtResult) ensures r is Ok, final(self)@ == old(self)@ + sb(s@) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn into_string(self) -> (r: String) ensures sb(r@) == self@ { unimplemented!() }
}
pub trait Display {
    /// the text `{}` prints
    spec fn disp(&self) -> Seq<u8>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) ensures r is Ok, final(f)@ == old(f)@ + self.disp();
}
impl Display for String { open spec fn disp(&self) -> Seq<u8> { sb(self@) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl Display for str { open spec fn disp(&self) -> Seq<u8> { sb(self@) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
/// decimal digits without leading zeros
pub open spec fn dec(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
impl Display for u8 { open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl Display for usize { open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl<T: Display> Display for &T { open spec fn disp(&self) -> Seq<u8> { (*self).disp() } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
/// std's blanket ToString
pub trait ToStringP { fn to_string_p(&self) -> String; }
impl<T: Display> ToStringP for T { #[verifier::external_body] fn to_string_p(&self) -> (r: String) ensures sb(r@) == self.disp() { unimplemented!() } }
impl ToStringP for str { #[verifier::external_body] fn to_string_p(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
} // verus!
}
