// ---- filter hashes and headers (dependency), and what an unbroken chain of them is ----
#[verifier::external_body]
pub struct FilterHash { x: [u8; 32] }
impl Clone for FilterHash { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for FilterHash {}
#[verifier::external_body]
pub struct FilterHeader { x: [u8; 32] }
impl Clone for FilterHeader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for FilterHeader {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for FilterHeader {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &FilterHeader) -> bool { *self == *o }
}
impl PartialEq for FilterHeader { #[verifier::external_body] fn eq(&self, o: &FilterHeader) -> bool { unimplemented!() } }
/// the header committing to a filter and to the headers before it
pub uninterp spec fn fheader(h: FilterHash, prev: FilterHeader) -> FilterHeader;
pub uninterp spec fn zero() -> FilterHeader;
impl FilterHash {
    #[verifier::external_body]
    pub fn filter_header(&self, prev: &FilterHeader) -> (r: FilterHeader) ensures r == fheader(*self, *prev) { unimplemented!() }
}
impl FilterHeader {
    #[verifier::external_body]
    pub fn all_zeros() -> (r: FilterHeader) ensures r == zero() { unimplemented!() }
}
pub type FS = Seq<(FilterHash, FilterHeader)>;
pub open spec fn prev_of(s: FS, i: int) -> FilterHeader { if i == 0 { zero() } else { s[i - 1].1 } }
/// an unbroken hash chain from genesis
pub open spec fn linked(s: FS) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == fheader(s[i].0, prev_of(s, i)) }
/// the headers that continue `prev` with filters of these hashes
pub open spec fn heads(hs: Seq<FilterHash>, prev: FilterHeader) -> FS decreases hs.len() {
    if hs.len() == 0 { Seq::empty() } else {
        let p = heads(hs.drop_last(), prev);
        p.push((hs.last(), fheader(hs.last(), if p.len() == 0 { prev } else { p.last().1 })))
    }
}
pub proof fn lemma_heads_len(hs: Seq<FilterHash>, prev: FilterHeader) ensures heads(hs, prev).len() == hs.len() decreases hs.len()
{ if hs.len() > 0 { lemma_heads_len(hs.drop_last(), prev); } }
pub proof fn lemma_heads_linked(s: FS, hs: Seq<FilterHash>) requires linked(s), s.len() >= 1 ensures linked(s + heads(hs, s.last().1)) decreases hs.len()
{
    if hs.len() == 0 { assert(s + heads(hs, s.last().1) =~= s); }
    else {
        let prev = s.last().1;
        let p = heads(hs.drop_last(), prev);
        lemma_heads_linked(s, hs.drop_last());
        let t = s + heads(hs, prev);
        let u = s + p;
        assert(t =~= u.push(heads(hs, prev).last()));
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).1 == fheader(t[i].0, prev_of(t, i)) by {
            if i < u.len() { assert(t[i] == u[i]); assert(prev_of(t, i) == prev_of(u, i)); }
            else { assert(t[i - 1] == u[i - 1]); if p.len() == 0 { assert(u =~= s); } else { assert(u.last() == p.last()); } }
        }
    }
}
/// A Vec never holds more than isize::MAX bytes; a filter header takes 64.
pub axiom fn axiom_fs_mem(n: nat) ensures n <= 0x200_0000_0000_0000;
/// an inclusive range of heights (std RangeInclusive)
#[derive(Copy)]
pub struct RangeI { pub a: u64, pub b: u64 }
impl Clone for RangeI { fn clone(&self) -> (r: RangeI) ensures r == *self { RangeI { a: self.a, b: self.b } } }
impl RangeI {
    pub fn new(a: u64, b: u64) -> (r: RangeI) ensures r.a == a, r.b == b { RangeI { a, b } }
    pub fn start(&self) -> (r: &u64) ensures *r == self.a { &self.a }
    pub fn end(&self) -> (r: &u64) ensures *r == self.b { &self.b }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.a > self.b) { self.a > self.b }
}
pub mod filter { pub struct Error {} }
/// The filter header chain, as its users see it.
pub trait Filters: Sized {
    spec fn fs(&self) -> FS;
    /// what is in memory is what is persisted
    spec fn ok(&self) -> bool;
    /// the storage underneath does not fail
    spec fn reliable(&self) -> bool;
    proof fn lemma_ok(&self) requires self.ok() ensures 1 <= self.fs().len() <= 0x200_0000_0000_0000;
    fn get_headers(&self, range: RangeI) -> (r: Vec<(FilterHash, FilterHeader)>)
        requires self.ok(), range.a <= range.b, range.b - range.a < u64::MAX
        ensures range.b < self.fs().len() ==> r@ == self.fs().subrange(range.a as int, range.b + 1),
            range.a >= self.fs().len() ==> r@.len() == 0,
            range.a < self.fs().len() <= range.b ==> r@ == self.fs().skip(range.a as int);
    fn get_header(&self, height: u64) -> (r: Option<(FilterHash, FilterHeader)>)
        requires self.ok()
        ensures r.is_some() == (height < self.fs().len()), r.is_some() ==> r.unwrap() == self.fs()[height as int];
    fn import_headers(&mut self, headers: Vec<(FilterHash, FilterHeader)>) -> (r: Result<u64, filter::Error>)
        requires old(self).ok()
        ensures r.is_ok() ==> final(self).ok() && final(self).fs() == old(self).fs() + headers@ && r->Ok_0 == final(self).fs().len() - 1,
            old(self).reliable() ==> r.is_ok() && final(self).reliable();
    fn tip(&self) -> (r: (&FilterHash, &FilterHeader))
        requires self.ok()
        ensures *r.0 == self.fs().last().0, *r.1 == self.fs().last().1;
    fn height(&self) -> (r: u64)
        requires self.ok()
        ensures r == self.fs().len() - 1;
//@@ fn common/src/block/filter.rs | trait Filters / fn get_prev_header
//@ props: C09 C11
//@ spec:
        requires self.ok()
        ensures r.is_some() == (height <= self.fs().len()), r.is_some() ==> r.unwrap() == prev_of(self.fs(), height as int)
//@ subst: .map(|(_, h)| h) =>> .map(|p: (FilterHash, FilterHeader)| -> (x: FilterHeader) ensures x == p.1 { p.1 })
//@@ end
    fn rollback(&mut self, height: u64) -> (r: Result<(), filter::Error>)
        requires old(self).ok(), height < old(self).fs().len()
        ensures r.is_ok() ==> final(self).ok() && final(self).fs() == old(self).fs().take(height + 1),
            old(self).reliable() ==> r.is_ok() && final(self).reliable();
    fn clear(&mut self) -> (r: Result<(), filter::Error>)
        requires old(self).ok()
        ensures r.is_ok() ==> final(self).ok() && final(self).fs() == old(self).fs().take(1);
}
