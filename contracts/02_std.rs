// Assumed contracts of further std functions. The code of today uses few of them: they are here so that an edited
// function that does is still within the verifier's reach. All are tested against std in harness/src/assume.rs.
pub mod th2 {
use vstd::prelude::*;
use crate::th::*;
use vstd::std_specs::core::IndexSpec;
verus! {
pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None });
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => d });
/// at types whose `==` is the equality of their contents
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x);
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>) ensures match r { Some((a, b)) => s@.len() > 0 && *a == s@.last() && b@ == s@.drop_last(), None => s@.len() == 0 };
pub assume_specification<T> [std::mem::replace::<T>] (a: &mut T, v: T) -> (r: T) ensures r == *old(a), *final(a) == v;

pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification [usize::is_power_of_two] (a: usize) -> (r: bool) ensures r == (a != 0 && a & sub(a, 1) == 0);
pub assume_specification [usize::next_multiple_of] (a: usize, b: usize) -> (r: usize) requires b > 0, (a as int + b - 1) / (b as int) * (b as int) <= usize::MAX ensures r == (a as int + b - 1) / (b as int) * (b as int);
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [usize::rem_euclid] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == a % b;
pub assume_specification [u32::next_multiple_of] (a: u32, b: u32) -> (r: u32) requires b > 0, (a as int + b - 1) / (b as int) * (b as int) <= u32::MAX ensures r == (a as int + b - 1) / (b as int) * (b as int);
pub assume_specification [u32::rem_euclid] (a: u32, b: u32) -> (r: u32) requires b > 0 ensures r == a % b;

pub open spec fn rev4(v: u32) -> u32 { rd_u32(wr_u32(v, true), false) }
pub assume_specification [u32::swap_bytes] (a: u32) -> (r: u32) ensures r == rev4(a);
#[verifier::external_body] pub fn u32_from_le_bytes(a: [u8; 4]) -> (r: u32) ensures r == rd_u32(a@, true) { unimplemented!() }
#[verifier::external_body] pub fn u32_from_be_bytes(a: [u8; 4]) -> (r: u32) ensures r == rd_u32(a@, false) { unimplemented!() }
#[verifier::external_body] pub fn u16_from_le_bytes(a: [u8; 2]) -> (r: u16) ensures r == rd_u16(a@, true) { unimplemented!() }
#[verifier::external_body] pub fn u16_from_be_bytes(a: [u8; 2]) -> (r: u16) ensures r == rd_u16(a@, false) { unimplemented!() }
#[verifier::external_body] pub fn u64_from_le_bytes(a: [u8; 8]) -> (r: u64) ensures r == rd_u64(a@, true) { unimplemented!() }
#[verifier::external_body] pub fn u64_from_be_bytes(a: [u8; 8]) -> (r: u64) ensures r == rd_u64(a@, false) { unimplemented!() }
pub trait ToBytes { type B; spec fn le(&self) -> Seq<u8>; spec fn be(&self) -> Seq<u8>; spec fn sq(b: Self::B) -> Seq<u8>;
    fn to_le_bytes_p(&self) -> (r: Self::B) ensures Self::sq(r) == self.le();
    fn to_be_bytes_p(&self) -> (r: Self::B) ensures Self::sq(r) == self.be(); }
impl ToBytes for u16 { type B = [u8; 2]; open spec fn le(&self) -> Seq<u8> { wr_u16(*self, true) } open spec fn be(&self) -> Seq<u8> { wr_u16(*self, false) } open spec fn sq(b: [u8; 2]) -> Seq<u8> { b@ }
    #[verifier::external_body] fn to_le_bytes_p(&self) -> (r: [u8; 2]) { unimplemented!() } #[verifier::external_body] fn to_be_bytes_p(&self) -> (r: [u8; 2]) { unimplemented!() } }
impl ToBytes for u32 { type B = [u8; 4]; open spec fn le(&self) -> Seq<u8> { wr_u32(*self, true) } open spec fn be(&self) -> Seq<u8> { wr_u32(*self, false) } open spec fn sq(b: [u8; 4]) -> Seq<u8> { b@ }
    #[verifier::external_body] fn to_le_bytes_p(&self) -> (r: [u8; 4]) { unimplemented!() } #[verifier::external_body] fn to_be_bytes_p(&self) -> (r: [u8; 4]) { unimplemented!() } }
impl ToBytes for u64 { type B = [u8; 8]; open spec fn le(&self) -> Seq<u8> { wr_u64(*self, true) } open spec fn be(&self) -> Seq<u8> { wr_u64(*self, false) } open spec fn sq(b: [u8; 8]) -> Seq<u8> { b@ }
    #[verifier::external_body] fn to_le_bytes_p(&self) -> (r: [u8; 8]) { unimplemented!() } #[verifier::external_body] fn to_be_bytes_p(&self) -> (r: [u8; 8]) { unimplemented!() } }
pub assume_specification [f64::to_bits] (a: f64) -> (r: u64) ensures r == f64_bits(a);

pub open spec fn upper(c: u8) -> bool { 65 <= c && c <= 90 }
pub open spec fn lower(c: u8) -> bool { 97 <= c && c <= 122 }
pub assume_specification [u8::is_ascii_uppercase] (c: &u8) -> (r: bool) ensures r == upper(*c);
pub assume_specification [u8::is_ascii_lowercase] (c: &u8) -> (r: bool) ensures r == lower(*c);
pub assume_specification [u8::is_ascii_punctuation] (c: &u8) -> (r: bool) ensures r == (33 <= *c && *c <= 126 && !alnum(*c));
pub assume_specification [<char>::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification [<char>::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification [<char>::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z'));

/// `std::cmp::max` and `min` (calls are routed here)
pub trait MaxMin: Sized {
    spec fn mx(a: Self, b: Self) -> Self;
    spec fn mn(a: Self, b: Self) -> Self;
    fn max_p(a: Self, b: Self) -> (r: Self) ensures r == Self::mx(a, b);
    fn min_p(a: Self, b: Self) -> (r: Self) ensures r == Self::mn(a, b);
}
impl MaxMin for usize { open spec fn mx(a: usize, b: usize) -> usize { if a > b { a } else { b } } open spec fn mn(a: usize, b: usize) -> usize { if a > b { b } else { a } } fn max_p(a: usize, b: usize) -> (r: usize) { if a > b { a } else { b } } fn min_p(a: usize, b: usize) -> (r: usize) { if a > b { b } else { a } } }
impl MaxMin for u32 { open spec fn mx(a: u32, b: u32) -> u32 { if a > b { a } else { b } } open spec fn mn(a: u32, b: u32) -> u32 { if a > b { b } else { a } } fn max_p(a: u32, b: u32) -> (r: u32) { if a > b { a } else { b } } fn min_p(a: u32, b: u32) -> (r: u32) { if a > b { b } else { a } } }
impl MaxMin for u8 { open spec fn mx(a: u8, b: u8) -> u8 { if a > b { a } else { b } } open spec fn mn(a: u8, b: u8) -> u8 { if a > b { b } else { a } } fn max_p(a: u8, b: u8) -> (r: u8) { if a > b { a } else { b } } fn min_p(a: u8, b: u8) -> (r: u8) { if a > b { b } else { a } } }
/// None is the smallest
impl MaxMin for Option<usize> {
    open spec fn mx(a: Option<usize>, b: Option<usize>) -> Option<usize> { match (a, b) { (None, _) => b, (_, None) => a, (Some(x), Some(y)) => if x > y { a } else { b } } }
    open spec fn mn(a: Option<usize>, b: Option<usize>) -> Option<usize> { match (a, b) { (None, _) => a, (_, None) => b, (Some(x), Some(y)) => if x > y { b } else { a } } }
    fn max_p(a: Option<usize>, b: Option<usize>) -> (r: Option<usize>) { match (a, b) { (None, _) => b, (_, None) => a, (Some(x), Some(y)) => if x > y { a } else { b } } }
    fn min_p(a: Option<usize>, b: Option<usize>) -> (r: Option<usize>) { match (a, b) { (None, _) => a, (_, None) => b, (Some(x), Some(y)) => if x > y { b } else { a } } }
}

/// `std::mem::discriminant(a) == std::mem::discriminant(b)` (implemented for every enum of the crate)
pub trait SameVariant { spec fn sv(&self, o: &Self) -> bool; fn same_variant(&self, o: &Self) -> (r: bool) ensures r == self.sv(o); }
pub fn same_variant<T: SameVariant>(a: &T, b: &T) -> (r: bool) ensures r == a.sv(b) { a.same_variant(b) }

/// p starts at byte i of s
pub open spec fn here(p: Seq<u8>, s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && pre(p, s.skip(i)) }
/// without the leading occurrences of p
pub open spec fn ltrim(p: Seq<u8>, s: Seq<u8>) -> Seq<u8> decreases s.len() { if p.len() > 0 && pre(p, s) { ltrim(p, s.skip(p.len() as int)) } else { s } }
pub open spec fn rtrim(p: Seq<u8>, s: Seq<u8>) -> Seq<u8> decreases s.len() { if p.len() > 0 && suf(p, s) { rtrim(p, s.take(s.len() - p.len())) } else { s } }
/// slices of a text: byte n is a character boundary exactly when the bytes before it are valid UTF-8
pub open spec fn edge(s: Seq<char>, n: int) -> bool { 0 <= n <= sb(s).len() && vstd::utf8::valid_utf8(sb(s).take(n)) }
pub uninterp spec fn str_slice<I: core::slice::SliceIndex<str>>(s: &str, i: I, o: &I::Output) -> bool;
pub assume_specification<I: core::slice::SliceIndex<str>>[<str as core::ops::Index<I>>::index](s: &str, r: I) -> (o: &I::Output) ensures str_slice(s, r, o);
pub broadcast axiom fn slice_from_ok(s: &str, r: core::ops::RangeFrom<usize>) ensures #[trigger] s.index_req(&r) == edge(s@, r.start as int);
pub broadcast axiom fn slice_to_ok(s: &str, r: core::ops::RangeTo<usize>) ensures #[trigger] s.index_req(&r) == edge(s@, r.end as int);
pub broadcast axiom fn slice_ok(s: &str, r: core::ops::Range<usize>) ensures #[trigger] s.index_req(&r) == (r.start <= r.end && edge(s@, r.start as int) && edge(s@, r.end as int));
pub broadcast axiom fn slice_from_is(s: &str, r: core::ops::RangeFrom<usize>, o: &str) ensures #[trigger] str_slice(s, r, o) == (sb(o@) == sb(s@).skip(r.start as int));
pub broadcast axiom fn slice_to_is(s: &str, r: core::ops::RangeTo<usize>, o: &str) ensures #[trigger] str_slice(s, r, o) == (sb(o@) == sb(s@).take(r.end as int));
pub broadcast axiom fn slice_is(s: &str, r: core::ops::Range<usize>, o: &str) ensures #[trigger] str_slice(s, r, o) == (sb(o@) == sb(s@).subrange(r.start as int, r.end as int));
pub broadcast proof fn edge_pre(p: Seq<char>, s: Seq<char>) requires #[trigger] pre(sb(p), sb(s)) ensures edge(s, sb(p).len() as int) { assert(sb(s).take(sb(p).len() as int) =~= sb(p)); sb_valid(p); }
pub broadcast proof fn edge_0(s: Seq<char>) ensures #[trigger] edge(s, 0) { assert(sb(s).take(0) =~= sb(Seq::<char>::empty())); assert(sb(Seq::<char>::empty()) =~= Seq::<u8>::empty()); sb_valid(Seq::<char>::empty()); }
pub broadcast group group_slices { slice_from_ok, slice_to_ok, slice_ok, slice_from_is, slice_to_is, slice_is, edge_pre, edge_0 }

/// str functions that take a pattern (calls with a literal are routed here)
pub trait StrQ {
    spec fn qs(&self) -> Seq<u8>;
    fn contains_p<P: Pat>(&self, p: P) -> (r: bool) ensures r == (exists|i: int| #[trigger] here(p.pb(), self.qs(), i));
    fn find_p<P: Pat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(i) => here(p.pb(), self.qs(), i as int) && (forall|j: int| 0 <= j < i ==> !#[trigger] here(p.pb(), self.qs(), j)), None => forall|j: int| !#[trigger] here(p.pb(), self.qs(), j) };
    fn trim_start_matches_p<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) ensures sb(r@) == ltrim(p.pb(), self.qs());
    fn trim_end_matches_p<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) ensures sb(r@) == rtrim(p.pb(), self.qs());
}
impl StrQ for str {
    open spec fn qs(&self) -> Seq<u8> { sb(self@) }
    #[verifier::external_body] fn contains_p<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn find_p<P: Pat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn trim_start_matches_p<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn trim_end_matches_p<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
}
impl StrQ for std::string::String {
    open spec fn qs(&self) -> Seq<u8> { sb(self@) }
    #[verifier::external_body] fn contains_p<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn find_p<P: Pat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn trim_start_matches_p<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn trim_end_matches_p<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
}
} // verus!
}
