// Stand-in for the parts of the `bytes` crate (1.1.0) that the repository uses.
// Every function body here is absent: the contracts are ASSUMED (and exercised
// against the real crate by harness/src/assume.rs on every run).
pub mod bytes {
use vstd::prelude::*;
use crate::th::*;
verus! {

#[verifier::external_body]
pub struct Bytes { x: () }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

#[verifier::external_body]
pub struct BytesMut { x: () }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

/// ranges accepted by Bytes::slice
pub trait SliceRange { spec fn lo(&self) -> nat; spec fn hi(&self, len: nat) -> nat; }
impl SliceRange for core::ops::Range<usize> { open spec fn lo(&self) -> nat { self.start as nat } open spec fn hi(&self, len: nat) -> nat { self.end as nat } }
impl SliceRange for core::ops::RangeTo<usize> { open spec fn lo(&self) -> nat { 0 } open spec fn hi(&self, len: nat) -> nat { self.end as nat } }
impl SliceRange for core::ops::RangeFrom<usize> { open spec fn lo(&self) -> nat { self.start as nat } open spec fn hi(&self, len: nat) -> nat { len } }

impl Bytes {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    /// panics unless lo <= hi <= len
    #[verifier::external_body]
    pub fn slice<R: SliceRange>(&self, range: R) -> (r: Bytes)
        requires range.lo() <= range.hi(self@.len()) <= self@.len(),
        ensures r@ == self@.subrange(range.lo() as int, range.hi(self@.len()) as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&u8>) ensures match r { Some(b) => self@.len() > 0 && *b == self@[0], None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&u8>) ensures match r { Some(b) => self@.len() > 0 && *b == self@.last(), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&u8>) ensures match r { Some(b) => i < self@.len() && *b == self@[i as int], None => i >= self@.len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u16_le(&mut self) -> (r: u16) requires old(self)@.len() >= 2 ensures r == rd_u16(old(self)@, true), final(self)@ == old(self)@.subrange(2, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u16(&mut self) -> (r: u16) requires old(self)@.len() >= 2 ensures r == rd_u16(old(self)@, false), final(self)@ == old(self)@.subrange(2, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i16_le(&mut self) -> (r: i16) requires old(self)@.len() >= 2 ensures r == rd_i16(old(self)@, true), final(self)@ == old(self)@.subrange(2, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i16(&mut self) -> (r: i16) requires old(self)@.len() >= 2 ensures r == rd_i16(old(self)@, false), final(self)@ == old(self)@.subrange(2, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u32_le(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures r == rd_u32(old(self)@, true), final(self)@ == old(self)@.subrange(4, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u32(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures r == rd_u32(old(self)@, false), final(self)@ == old(self)@.subrange(4, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i32_le(&mut self) -> (r: i32) requires old(self)@.len() >= 4 ensures r == rd_i32(old(self)@, true), final(self)@ == old(self)@.subrange(4, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i32(&mut self) -> (r: i32) requires old(self)@.len() >= 4 ensures r == rd_i32(old(self)@, false), final(self)@ == old(self)@.subrange(4, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u64_le(&mut self) -> (r: u64) requires old(self)@.len() >= 8 ensures r == rd_u64(old(self)@, true), final(self)@ == old(self)@.subrange(8, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u64(&mut self) -> (r: u64) requires old(self)@.len() >= 8 ensures r == rd_u64(old(self)@, false), final(self)@ == old(self)@.subrange(8, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i64_le(&mut self) -> (r: i64) requires old(self)@.len() >= 8 ensures r == rd_i64(old(self)@, true), final(self)@ == old(self)@.subrange(8, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i64(&mut self) -> (r: i64) requires old(self)@.len() >= 8 ensures r == rd_i64(old(self)@, false), final(self)@ == old(self)@.subrange(8, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_f64_le(&mut self) -> (r: f64) requires old(self)@.len() >= 8 ensures f64_bits(r) == rd_u64(old(self)@, true), final(self)@ == old(self)@.subrange(8, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_f64(&mut self) -> (r: f64) requires old(self)@.len() >= 8 ensures f64_bits(r) == rd_u64(old(self)@, false), final(self)@ == old(self)@.subrange(8, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn index(&self, i: usize) -> (r: u8) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}

/// a buffer never has more than isize::MAX bytes
#[verifier::external_body] pub broadcast proof fn axiom_buf_len(b: BytesMut) ensures #[trigger] b@.len() <= isize::MAX {}
/// what can be appended to a buffer
pub trait ByteSeq { spec fn bseq(&self) -> Seq<u8>; }
impl ByteSeq for BytesMut { open spec fn bseq(&self) -> Seq<u8> { self@ } }
impl ByteSeq for Bytes { open spec fn bseq(&self) -> Seq<u8> { self@ } }
impl<'a> ByteSeq for &'a [u8] { open spec fn bseq(&self) -> Seq<u8> { self@ } }
impl BytesMut {
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, v: u8) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put<V: ByteSeq>(&mut self, v: V) ensures final(self)@ == old(self)@ + v.bseq() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<V: ByteSeq>(&mut self, v: V) ensures final(self)@ == old(self)@ + v.bseq() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, v: &[u8]) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, v: &[u8]) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: usize, v: u8) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u16_le(&mut self, v: u16) ensures final(self)@ == old(self)@ + wr_u16(v, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u16(&mut self, v: u16) ensures final(self)@ == old(self)@ + wr_u16(v, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i16_le(&mut self, v: i16) ensures final(self)@ == old(self)@ + wr_i16(v, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i16(&mut self, v: i16) ensures final(self)@ == old(self)@ + wr_i16(v, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u32_le(&mut self, v: u32) ensures final(self)@ == old(self)@ + wr_u32(v, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u32(&mut self, v: u32) ensures final(self)@ == old(self)@ + wr_u32(v, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i32_le(&mut self, v: i32) ensures final(self)@ == old(self)@ + wr_i32(v, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i32(&mut self, v: i32) ensures final(self)@ == old(self)@ + wr_i32(v, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u64_le(&mut self, v: u64) ensures final(self)@ == old(self)@ + wr_u64(v, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u64(&mut self, v: u64) ensures final(self)@ == old(self)@ + wr_u64(v, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i64_le(&mut self, v: i64) ensures final(self)@ == old(self)@ + wr_i64(v, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i64(&mut self, v: i64) ensures final(self)@ == old(self)@ + wr_i64(v, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_f64_le(&mut self, v: f64) ensures final(self)@ == old(self)@ + wr_u64(f64_bits(v), true) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_f64(&mut self, v: f64) ensures final(self)@ == old(self)@ + wr_u64(f64_bits(v), false) { unimplemented!() }
}
/// `for b in bytes`
impl IntoIterator for Bytes { type Item = u8; type IntoIter = std::vec::IntoIter<u8>;
    #[verifier::external_body] fn into_iter(self) -> (r: std::vec::IntoIter<u8>)
        ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self@, vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some, vstd::std_specs::vec::into_iter_elts(r) == self@
    { unimplemented!() } }
pub trait Buf {}
pub trait BufMut {}
} // verus!
}
