// Unit: network-adjusted time (common/src/block/time.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub type BlockTime = u32;
pub mod dep {
use vstd::prelude::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: std::collections::HashSet<K> }
impl<K> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [i64::abs] (x: i64) -> (r: i64) requires x != i64::MIN ensures r == (if x < 0 { -x } else { x as int });

pub open spec fn sorted(s: Seq<i64>) -> Seq<i64> { s.sort_by(|a: i64, b: i64| a <= b) }
pub trait SortX {
    spec fn sqv(&self) -> Seq<i64>;
    fn sort_unstable(&mut self) ensures final(self).sqv() == sorted(old(self).sqv());
}
impl SortX for Vec<i64> {
    open spec fn sqv(&self) -> Seq<i64> { self@ }
    #[verifier::external_body]
    fn sort_unstable(&mut self) { unimplemented!() }
}
}
use dep::*;
//@@ include shim_time.rs
//@@ const common/src/block/time.rs | const MAX_TIME_ADJUSTMENT
//@@ end
//@@ const common/src/block/time.rs | const MIN_TIME_SAMPLES
//@@ end
//@@ const common/src/block/time.rs | const MAX_TIME_SAMPLES
//@@ end
pub type TimeOffset = i64;

//@@ struct common/src/block/time.rs | struct AdjustedTime
//@ attr: #[verifier::reject_recursive_types(K)]
//@@ end

/// seventy minutes, five and two hundred: the numbers of the property, not the constants of the code
pub open spec fn lim() -> int { 4200 }
pub open spec fn clamp(m: int) -> int { if -lim() <= m <= lim() { m } else { 0 } }
/// the offset after a history of samples (the first is the node's own zero): the median of the longest
/// odd-length prefix of at least five samples, or nothing when it is further than 70 minutes
pub open spec fn spec_offset(s: Seq<i64>) -> int decreases s.len() {
    if s.len() < 5 { 0 } else if s.len() % 2 == 1 { clamp(sorted(s)[s.len() as int / 2] as int) } else { spec_offset(s.drop_last()) }
}
pub proof fn lemma_sorted(s: Seq<i64>)
    ensures sorted(s).len() == s.len(), sorted(s).to_multiset() == s.to_multiset(), vstd::relations::sorted_by(sorted(s), |a: i64, b: i64| a <= b)
{
    let leq = |a: i64, b: i64| a <= b;
    s.lemma_sort_by_ensures(leq);
    s.to_multiset_ensures(); sorted(s).to_multiset_ensures();
    assert(sorted(s).len() == s.len()) by { assert(sorted(s).to_multiset().len() == s.to_multiset().len()); }
}
/// whatever peers report, time is never moved by more than 70 minutes
pub proof fn theorem_bounded(s: Seq<i64>) ensures -4200 <= spec_offset(s) <= 4200 decreases s.len()
{ if s.len() >= 5 && s.len() % 2 == 0 { theorem_bounded(s.drop_last()); } }

impl<K> AdjustedTime<K> {
    pub open spec fn wf(&self) -> bool {
        &&& self.samples@.len() == self.sources@.len() + 1 && self.sources@.len() <= 200
        &&& self.samples@[0] == 0
        &&& self.offset == spec_offset(self.samples@)
    }
}
impl LocalTime {
//@@ fn common/src/block/time.rs | impl Clock for LocalTime / fn block_time
//@ props: C13
//@ spec:
    requires self.ms() / 1000 <= u32::MAX
    ensures r == self.ms() / 1000
//@@ end
}
impl<K> AdjustedTime<K> {
//@@ fn common/src/block/time.rs | impl AdjustedTime / fn new
//@ props: C13
//@ spec:
    ensures r.wf(), r.local_time == local_time, r.sources@ == Set::<K>::empty(), r.offset == 0,
//@@ end
//@@ fn common/src/block/time.rs | impl AdjustedTime / fn record_offset
//@ props: C13
//@ spec:
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).local_time == old(self).local_time,
        // a source counts once, and no more than 200 sources are ever heard
        old(self).sources@.contains(source) || old(self).sources@.len() >= 200 ==> final(self).samples@ == old(self).samples@ && final(self).sources@ == old(self).sources@
            && final(self).offset == old(self).offset,
        !(old(self).sources@.contains(source) || old(self).sources@.len() >= 200) ==> final(self).samples@ == old(self).samples@.push(sample) && final(self).sources@ == old(self).sources@.insert(source),
        -4200 <= final(self).offset <= 4200,
//@ entry:
    proof { theorem_bounded(self.samples@); theorem_bounded(self.samples@.push(sample)); lemma_sorted(self.samples@.push(sample));
        assert(self.samples@.push(sample).drop_last() =~= self.samples@);
        assert(self.samples@[0] == 0 ==> self.samples@.push(sample)[0] == 0); 
        assert(self.sources@.contains(source) ==> self.sources@.insert(source) =~= self.sources@); }
//@@ end
//@@ fn common/src/block/time.rs | impl AdjustedTime / fn offset
//@ props: C13
//@ spec:
    ensures r == self.offset
//@@ end
//@@ fn common/src/block/time.rs | impl AdjustedTime / fn from
//@ props: C13
//@ spec:
    requires self.wf(), 4200 <= time <= u32::MAX - 4200,
    ensures r == time + self.offset, time - 4200 <= r <= time + 4200
//@ entry:
    proof { theorem_bounded(self.samples@); }
//@@ end
//@@ fn common/src/block/time.rs | impl AdjustedTime / fn get
//@ props: C13
//@ spec:
    requires self.wf(), 4200 <= self.local_time.ms() / 1000 <= u32::MAX - 4200,
    ensures r == self.local_time.ms() / 1000 + self.offset
//@@ end
//@@ fn common/src/block/time.rs | impl AdjustedTime / fn set_local_time
//@ props: C13
//@ spec:
    ensures final(self).local_time == time, final(self).samples == old(self).samples, final(self).sources == old(self).sources, final(self).offset == old(self).offset
//@@ end
//@@ fn common/src/block/time.rs | impl AdjustedTime / fn local_time
//@ props: C13
//@ spec:
    ensures r == self.local_time
//@@ end
}
} // verus!
fn main() {}
