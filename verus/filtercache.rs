// Unit: the compact filter cache (p2p/src/fsm/filter_cache.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_keys.rs
}
use dep::*;
pub trait Filter: Sized {
    spec fn bytes(&self) -> nat;
    fn len(&self) -> (r: usize) ensures r == self.bytes();
}
//@@ struct p2p/src/fsm/filter_cache.rs | struct FilterCache
//@ attr: #[verifier::reject_recursive_types(T)]
//@@ end
/// total size of the filters at heights below n
pub open spec fn sum_to<T: Filter>(m: Map<u64, T>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { sum_to(m, (n - 1) as nat) + if n <= 0x1_0000_0000_0000_0000 && m.contains_key((n - 1) as u64) { m[(n - 1) as u64].bytes() } else { 0 } }
}
#[verifier::opaque]
pub open spec fn sum<T: Filter>(m: Map<u64, T>) -> nat { sum_to(m, 0x1_0000_0000_0000_0000) }
proof fn lemma_to_remove<T: Filter>(m: Map<u64, T>, k: u64, n: nat) requires m.contains_key(k), n <= 0x1_0000_0000_0000_0000
    ensures sum_to(m, n) == sum_to(m.remove(k), n) + if n > k { m[k].bytes() } else { 0 } decreases n
{ if n > 0 { lemma_to_remove(m, k, (n - 1) as nat); } }
pub proof fn lemma_remove<T: Filter>(m: Map<u64, T>, k: u64) requires m.contains_key(k)
    ensures sum(m) == sum(m.remove(k)) + m[k].bytes()
{ reveal(sum); lemma_to_remove(m, k, 0x1_0000_0000_0000_0000); }
pub proof fn lemma_insert<T: Filter>(m: Map<u64, T>, k: u64, v: T)
    ensures sum(m.insert(k, v)) == sum(m) + v.bytes() - (if m.contains_key(k) { m[k].bytes() } else { 0 })
{
    lemma_remove(m.insert(k, v), k);
    assert(m.insert(k, v).remove(k) =~= m.remove(k));
    if m.contains_key(k) { lemma_remove(m, k); } else { assert(m.remove(k) =~= m); }
}
proof fn lemma_to_empty<T: Filter>(m: Map<u64, T>, n: nat) requires m =~= Map::<u64, T>::empty() ensures sum_to(m, n) == 0 decreases n
{ if n > 0 { lemma_to_empty(m, (n - 1) as nat); } }
pub proof fn lemma_empty<T: Filter>() ensures sum(Map::<u64, T>::empty()) == 0
{ reveal(sum); lemma_to_empty(Map::<u64, T>::empty(), 0x1_0000_0000_0000_0000); }

pub open spec fn from<T>(m: Map<u64, T>, b: int) -> Map<u64, T> { m.restrict(m.dom().filter(|k: u64| k >= b)) }
pub open spec fn upto<T>(m: Map<u64, T>, b: int) -> Map<u64, T> { m.restrict(m.dom().filter(|k: u64| k <= b)) }

impl<T: Filter> FilterCache<T> {
    pub open spec fn wf(&self) -> bool { self.size == sum(self.cache@) && self.size <= self.capacity && self.capacity <= usize::MAX / 2 }
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn new
//@ props: C10
//@ spec:
    requires capacity <= usize::MAX / 2
    ensures r.wf(), r.cache@ == Map::<u64, T>::empty(), r.capacity == capacity
//@ entry:
    proof { lemma_empty::<T>(); }
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn size
//@ props: C10
//@ spec:
    requires self.wf() ensures r == sum(self.cache@), r <= self.capacity
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn capacity
//@ props: C10
//@ spec:
    ensures r == self.capacity
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn len
//@ props: C10
//@ spec:
    ensures r == self.cache@.dom().len()
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn is_empty
//@ props: C10
//@ spec:
    ensures r == (self.cache@.dom().len() == 0)
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn start
//@ props: C10
//@ spec:
    ensures
        r.is_none() ==> self.cache@.dom() == Set::<u64>::empty(),
        r.is_some() ==> self.cache@.contains_key(r.unwrap()) && forall|k: u64| #[trigger] self.cache@.contains_key(k) ==> r.unwrap() <= k,
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn end
//@ props: C10
//@ spec:
    ensures
        r.is_none() ==> self.cache@.dom() == Set::<u64>::empty(),
        r.is_some() ==> self.cache@.contains_key(r.unwrap()) && forall|k: u64| #[trigger] self.cache@.contains_key(k) ==> k <= r.unwrap(),
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn get
//@ props: C10
//@ spec:
    ensures r.is_some() == self.cache@.contains_key(*height), r.is_some() ==> *r.unwrap() == self.cache@[*height]
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn push
//@ props: C10
//@ spec:
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).capacity == old(self).capacity,
        // refused exactly when it can never fit, and then nothing changes
        r == (filter.bytes() <= old(self).capacity),
        !r ==> final(self).cache@ == old(self).cache@,
        // otherwise it is stored, and only the lowest heights are given up, no more of them than needed
        r ==> exists|b: int| #[trigger] from(old(self).cache@.insert(height, filter), b) == final(self).cache@
            && forall|k: u64| #[trigger] old(self).cache@.insert(height, filter).contains_key(k) && k < b ==> sum(from(old(self).cache@.insert(height, filter), k as int)) > old(self).capacity,
//@ entry:
    let ghost M = self.cache@.insert(height, filter);
    let ghost mut b: int = 0;
    proof { lemma_insert(self.cache@, height, filter); if self.cache@.contains_key(height) { lemma_remove(self.cache@, height); } assert(from(M, 0) =~= M); }
//@ loop 0:
    invariant
        M == old(self).cache@.insert(height, filter), self.capacity == old(self).capacity, self.capacity <= usize::MAX / 2,
        self.cache@ == from(M, b), self.size == sum(self.cache@), 
        forall|k: u64| #[trigger] M.contains_key(k) && k < b ==> sum(from(M, k as int)) > self.capacity,
    decreases self.cache@.dom().len()
//@ loop_start 0:
    proof { if self.cache@.dom() == Set::<u64>::empty() { assert(self.cache@ =~= Map::<u64, T>::empty()); lemma_empty::<T>(); }
        let ghost c0 = self.cache@;
        assert forall|h: u64| #[trigger] c0.contains_key(h) && (forall|k: u64| #[trigger] c0.contains_key(k) ==> h <= k) implies
            from(M, h + 1) == c0.remove(h) && from(M, h as int) == c0 && sum(c0) == sum(c0.remove(h)) + c0[h].bytes() && (forall|k: u64| #[trigger] M.contains_key(k) && b <= k ==> h <= k) by {
            lemma_remove(c0, h);
            assert forall|k: u64| #[trigger] M.contains_key(k) && b <= k implies h <= k by { assert(c0.contains_key(k)); }
            assert(from(M, h + 1) =~= c0.remove(h));
            assert(from(M, h as int) =~= c0);
        }
    }
//@ after `self.size -= filter.len()`:
    ; proof { b = height + 1; }
//@ before `true`:
    proof { assert(from(old(self).cache@.insert(height, filter), b) == self.cache@); }
//@@ end
//@@ fn p2p/src/fsm/filter_cache.rs | impl FilterCache / fn rollback
//@ props: C10
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).capacity == old(self).capacity, final(self).cache@ == upto(old(self).cache@, height as int)
//@ entry:
    let ghost M = self.cache@;
    proof { assert(upto(M, u64::MAX as int) =~= M); }
//@ loop 0:
    invariant_except_break
        true,
    invariant
        M == old(self).cache@, self.capacity == old(self).capacity, self.wf(),
        forall|k: u64| #[trigger] self.cache@.contains_key(k) ==> M.contains_key(k) && M[k] == self.cache@[k],
        forall|k: u64| #[trigger] M.contains_key(k) && k <= height ==> self.cache@.contains_key(k),
    ensures
        forall|k: u64| #[trigger] self.cache@.contains_key(k) ==> k <= height,
    decreases self.cache@.dom().len()
//@ loop_start 0:
    proof { if self.cache@.contains_key(h) { lemma_remove(self.cache@, h); } }
//@ loop_after 0:
    proof { assert(self.cache@ =~= upto(M, height as int)); }
//@@ end
}
} // verus!
fn main() {}
