// Unit: the filter header chain (chain/src/filter/cache.rs, common/src/block/filter.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_iter.rs
}
use dep::*;
//@@ include shim_filters.rs
use std::ops::ControlFlow;

#[derive(Clone, Copy)]
//@@ struct chain/src/filter/cache.rs | struct StoredHeader
//@@ end
pub mod store { pub enum Error { Io, Interrupted, Integrity } }
pub mod sterr { pub enum Error { Integrity, Interrupted } }
#[derive(Clone, Copy)]
pub struct Network {}
pub uninterp spec fn genesis_header(n: Network) -> FilterHeader;
impl FilterHeader {
    #[verifier::external_body]
    pub fn genesis(n: Network) -> (r: FilterHeader) ensures r == genesis_header(n) { unimplemented!() }
}
/// a store of filter headers: the contract proved for the file and memory stores (property C06)
pub trait Store: Sized {
    spec fn seq(&self) -> Seq<StoredHeader>;
    spec fn reliable(&self) -> bool;
    fn genesis(&self) -> (r: StoredHeader) requires self.seq().len() >= 1 ensures r == self.seq()[0];
    fn put(&mut self, headers: SeqIter<StoredHeader>) -> (r: Result<Height, store::Error>)
        ensures r.is_ok() ==> final(self).seq() == old(self).seq() + headers@ && r->Ok_0 == final(self).seq().len() - 1, old(self).reliable() ==> r.is_ok() && final(self).reliable();
    fn iter(&self) -> (r: SeqIter<Result<(Height, StoredHeader), store::Error>>)
        ensures forall|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).is_ok() ==> i < self.seq().len() && r@[i]->Ok_0 == (i as u64, self.seq()[i]),
            r@.len() >= 1, r@[0].is_ok(),
            r@.len() == self.seq().len() || exists|k: int| 1 <= k < r@.len() && (#[trigger] r@[k]).is_err();
    fn rollback(&mut self, height: Height) -> (r: Result<(), store::Error>)
        ensures r.is_ok() && height < old(self).seq().len() ==> final(self).seq() == old(self).seq().take(height + 1), old(self).reliable() ==> r.is_ok() && final(self).reliable();
}
pub struct Progress {}
impl Progress {
    #[verifier::external_body]
    pub fn call(&self, h: Height) -> ControlFlow<()> { unimplemented!() }
}
pub assume_specification<B, C>[ControlFlow::<B, C>::is_break](c: &ControlFlow<B, C>) -> (r: bool);
impl<T> TailVec<T> {
    #[verifier::external_body]
    pub fn extend(&mut self, it: SeqIter<T>) ensures final(self)@ == old(self)@ + it@ { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<T> SeqIter<T> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: SeqIter<T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_iter<T>(v: Vec<T>) -> (r: SeqIter<T>) ensures r@ == v@ { unimplemented!() }
pub open spec fn pairs(s: Seq<StoredHeader>) -> FS { Seq::new(s.len(), |i: int| (s[i].hash, s[i].header)) }
impl vstd::std_specs::convert::FromSpecImpl<store::Error> for filter::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: store::Error) -> Self { filter::Error {} }
}
impl From<store::Error> for filter::Error { fn from(e: store::Error) -> (r: Self) { filter::Error {} } }

//@@ struct chain/src/filter/cache.rs | struct FilterCache
//@ attr: #[verifier::reject_recursive_types(S)]
//@@ end
impl<S: Store> FilterCache<S> {
//@@ fn chain/src/filter/cache.rs | impl FilterCache / fn load_with
//@ props: C09
//@ sigsubst: impl Fn(Height) -> ControlFlow<()> =>> Progress
//@ sigsubst: nakamoto_common::block::store::Error =>> store::Error
//@ subst: progress(height as Height) =>> progress.call(height as Height)
//@ subst: nakamoto_common::block::store::Error =>> store::Error
//@ subst: header_store.iter().enumerate().skip(1) =>> header_store.iter().enumerate().skip(1).vec()
//@ spec:
    requires header_store.seq().len() >= 1
    ensures
        // what is stored is what is loaded, all of it, in order
        r.is_ok() ==> r->Ok_0.header_store == header_store && r->Ok_0.headers@ == header_store.seq(),
//@ entry:
    let ghost Q = header_store.seq();
//@ loop 0 it=it:
    invariant
        Q == header_store.seq(), Q.len() >= 1, headers@ =~= Q.take(it.index@ + 1), it.index@ + 1 <= Q.len(),
        forall|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).1.is_ok() ==> it.seq()[i].0 == i + 1 && i + 1 < Q.len() && it.seq()[i].1->Ok_0 == ((i + 1) as u64, Q[i + 1]),
        it.seq().len() == Q.len() - 1 || exists|k: int| 0 <= k < it.seq().len() && (#[trigger] it.seq()[k]).1.is_err(),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]).1.is_ok(),
//@ loop_after 0:
    proof { assert(Q.take(Q.len() as int) =~= Q); }
//@@ end
}
impl<S> FilterCache<S> {
    pub open spec fn hs(&self) -> FS { pairs(self.headers@) }
//@@ fn chain/src/filter/cache.rs | impl FilterCache / fn verify_with
//@ props: C09
//@ sigsubst: impl Fn(Height) -> ControlFlow<()> =>> Progress
//@ sigsubst: store::Error =>> sterr::Error
//@ subst: store::Error =>> sterr::Error
//@ subst: progress(height as Height) =>> progress.call(height as Height)
//@ subst: self.headers.iter().enumerate() =>> self.headers.iter().enumerate().vec()
//@ spec:
    ensures
        // accepted only if unbroken from this network's genesis; refused (unless interrupted) only if not
        r.is_ok() ==> linked(self.hs()) && self.hs()[0].1 == genesis_header(network),
        r == Err::<(), sterr::Error>(sterr::Error::Integrity) ==> !(linked(self.hs()) && self.hs()[0].1 == genesis_header(network)),
//@ entry:
    let ghost L = self.hs();
    proof { assert(L[0] == (self.headers@[0].hash, self.headers@[0].header)); }
//@ loop 0 it=it:
    invariant
        L == self.hs(), L.len() >= 1, L[0].1 == genesis_header(network),
        it.seq().len() == L.len(),
        forall|i: int| 0 <= i < L.len() ==> (#[trigger] it.seq()[i]).0 == i && L[i] == (it.seq()[i].1.hash, it.seq()[i].1.header),
        prev_header == prev_of(L, it.index@),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] L[i]).1 == fheader(L[i].0, prev_of(L, i)),
//@ loop_start 0:
    proof { assert(L[it.index@] == (it.seq()[it.index@].1.hash, it.seq()[it.index@].1.header)); }
//@@ end
}
impl<S: Store> Filters for FilterCache<S> {
    open spec fn fs(&self) -> FS { pairs(self.headers@) }
    open spec fn reliable(&self) -> bool { self.header_store.reliable() }
    open spec fn ok(&self) -> bool { self.header_store.seq() == self.headers@ }
    proof fn lemma_ok(&self) { axiom_fs_mem(self.headers@.len()); }
//@@ fn chain/src/filter/cache.rs | impl Filters for FilterCache / fn get_header
//@ props: C09
//@ closure 0: |s: &StoredHeader| -> (p: (FilterHash, FilterHeader)) ensures p == (s.hash, s.header)
//@@ end
//@@ fn chain/src/filter/cache.rs | impl Filters for FilterCache / fn get_headers
//@ props: C09
//@ sigsubst: RangeInclusive<Height> =>> RangeI
//@ closure 0: |h: &StoredHeader| -> (p: (FilterHash, FilterHeader)) ensures p == (h.hash, h.header)
//@ exit:
    proof {
        let s = self.fs();
        let a = range.a as int; let b = range.b as int;
        axiom_fs_mem(self.headers@.len());
        if range.b < s.len() { assert(ret__@ =~= s.subrange(a, b + 1)); }
        else if range.a < s.len() { assert(ret__@ =~= s.skip(a)); }
    }
//@@ end
//@@ fn chain/src/filter/cache.rs | impl Filters for FilterCache / fn import_headers
//@ props: C09
//@ sigsubst: Error =>> filter::Error
//@ subst: headers.into_iter() =>> vec_iter(headers)
//@ subst: .map_err(Error::from) =>> .map_err(|e: store::Error| -> (x: filter::Error) { filter::Error {} })
//@ closure 0: |p: (FilterHash, FilterHeader)| -> (s: StoredHeader) ensures s == (StoredHeader { hash: p.0, header: p.1 }) ;; let (hash, header) = p;
//@ exit:
    proof {
        if ret__.is_ok() {
            assert(self.headers@ =~= self.header_store.seq());
            assert(self.fs() =~= old(self).fs() + headers@);
        }
    }
//@@ end
//@@ fn chain/src/filter/cache.rs | impl Filters for FilterCache / fn tip
//@ props: C09
//@@ end
//@@ fn chain/src/filter/cache.rs | impl Filters for FilterCache / fn height
//@ props: C09
//@ entry:
    proof { axiom_fs_mem(self.headers@.len()); }
//@@ end
//@@ fn chain/src/filter/cache.rs | impl Filters for FilterCache / fn rollback
//@ props: C09
//@ sigsubst: Error =>> filter::Error
//@ entry:
    proof { axiom_fs_mem(self.headers@.len()); }
//@ before `Ok(())`:
    proof { assert(self.headers@ =~= old(self).headers@.take(height + 1)); assert(self.fs() =~= old(self).fs().take(height + 1)); }
//@@ end
//@@ fn chain/src/filter/cache.rs | impl Filters for FilterCache / fn clear
//@ props: C09
//@ sigsubst: Error =>> filter::Error
//@ before `Ok(())`:
    proof { assert(self.headers@ =~= old(self).headers@.take(1)); assert(self.fs() =~= old(self).fs().take(1)); }
//@@ end
}
}
fn main() {}
