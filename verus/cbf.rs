// Unit: compact filter manager and rescan (p2p/src/fsm/cbfmgr.rs, cbfmgr/rescan.rs).
use vstd::prelude::*;
use std::rc::Rc;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_set.rs
//@@ include shim_keys.rs
}
use dep::*;
//@@ include shim_time.rs
//@@ include shim_filters.rs
//@@ include shim_fsm.rs
//@@ include shim_out.rs

// ---- filters: what they contain and match is the dependency's business ----
#[verifier::external_body]
pub struct BlockFilter { x: Vec<u8> }
pub uninterp spec fn filter_of(bytes: Seq<u8>) -> BlockFilter;
pub uninterp spec fn fhash(f: BlockFilter) -> FilterHash;
pub mod bip158 { pub struct Error {} }
pub type M = Result<bool, bip158::Error>;
pub uninterp spec fn any_of(f: BlockFilter, h: BlockHash, s: Set<Script>) -> M;
pub uninterp spec fn all_of(f: BlockFilter, h: BlockHash, s: Set<Script>) -> M;
impl BlockFilter {
    #[verifier::external_body]
    pub fn new(b: &Vec<u8>) -> (r: Self) ensures r == filter_of(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_header(&self, prev: &FilterHeader) -> (r: FilterHeader) ensures r == fheader(fhash(*self), *prev) { unimplemented!() }
    /// `match_any(hash, scripts)`
    #[verifier::external_body]
    pub fn match_any(&self, h: &BlockHash, s: &HashSet<Script>) -> (r: M) ensures r == any_of(*self, *h, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn match_all(&self, h: &BlockHash, s: &HashSet<Script>) -> (r: M) ensures r == all_of(*self, *h, s@) { unimplemented!() }
}
pub assume_specification<T, E>[std::result::Result::<T, E>::unwrap_or](r: Result<T, E>, d: T) -> (x: T)
    ensures x == (match r { Ok(v) => v, Err(_) => d });
/// `map.values().any(f)`
#[verifier::external_body]
pub fn any_value<K, V, F: Fn(&V) -> bool>(m: &HashMap<K, V>, f: F) -> (r: bool)
    requires forall|k: K| #[trigger] m@.contains_key(k) ==> f.requires((&m@[k],))
    ensures
        r ==> exists|k: K| #[trigger] m@.contains_key(k) && f.ensures((&m@[k],), true),
        !r ==> forall|k: K| #[trigger] m@.contains_key(k) ==> f.ensures((&m@[k],), false),
{ unimplemented!() }
pub fn max64(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn min64(a: u64, b: u64) -> (r: u64) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

/// p2p/src/fsm/filter_cache.rs: consequences of the contract proved in unit `filtercache` (property C10)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct FilterCache<T> { x: Vec<T> }
impl<T> FilterCache<T> {
    pub uninterp spec fn view(&self) -> Map<u64, T>;
    #[verifier::external_body]
    pub fn get(&self, height: &Height) -> (r: Option<&T>)
        ensures r.is_some() == self@.contains_key(*height), r.is_some() ==> *r.unwrap() == self@[*height] { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, height: Height, filter: T) -> (r: bool)
        ensures forall|k: u64| #[trigger] final(self)@.contains_key(k) ==> (if k == height && r { final(self)@[k] == filter } else { old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rollback(&mut self, height: Height)
        ensures forall|k: u64| #[trigger] final(self)@.contains_key(k) <==> old(self)@.contains_key(k) && k <= height,
            forall|k: u64| #[trigger] final(self)@.contains_key(k) ==> final(self)@[k] == old(self)@[k] { unimplemented!() }
}
pub type Rec = Map<Height, (Rc<BlockFilter>, BlockHash, bool)>;

// ---- ranges of heights ----
pub open spec fn in_any(rs: Seq<RangeI>, h: int) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).a <= h <= rs[i].b }
/// non-empty, ascending and disjoint
pub open spec fn ordered(rs: Seq<RangeI>) -> bool {
    &&& forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).a <= rs[i].b
    &&& forall|i: int, j: int| #![trigger rs[i], rs[j]] 0 <= i < j < rs.len() ==> rs[i].b < rs[j].a
}
pub open spec fn sized(rs: Seq<RangeI>, n: int) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).b - rs[i].a < n }
pub open spec fn chunks(a: int, b: int, s: int) -> Seq<RangeI> decreases b - a + 1 {
    if a > b || s < 1 { Seq::empty() } else {
        let e = if b <= a + s - 1 { b } else { a + s - 1 };
        seq![RangeI { a: a as u64, b: e as u64 }] + chunks(e + 1, b, s)
    }
}
pub proof fn lemma_chunks(a: int, b: int, s: int) requires 0 <= a, b <= u64::MAX, s >= 1
    ensures ordered(chunks(a, b, s)), sized(chunks(a, b, s), s), forall|h: int| #[trigger] in_any(chunks(a, b, s), h) <==> a <= h <= b,
        forall|i: int| 0 <= i < chunks(a, b, s).len() ==> a <= (#[trigger] chunks(a, b, s)[i]).a && chunks(a, b, s)[i].b <= b,
    decreases b - a + 1
{
    let c = chunks(a, b, s);
    if a <= b {
        let e = if b <= a + s - 1 { b } else { a + s - 1 };
        let t = chunks(e + 1, b, s);
        lemma_chunks(e + 1, b, s);
        assert(c =~= seq![RangeI { a: a as u64, b: e as u64 }] + t);
        assert forall|i: int| 0 < i < c.len() implies #[trigger] c[i] == t[i - 1] by {}
        assert forall|h: int| #[trigger] in_any(c, h) <==> a <= h <= b by {
            if a <= h <= e { assert(c[0].a <= h <= c[0].b); }
            else if e < h <= b { assert(in_any(t, h)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).a <= h <= t[i].b; assert(c[i + 1] == t[i]); }
        }
    }
}
pub open spec fn rest(it: HeightIterator) -> Seq<RangeI> { chunks(it.start as int, it.stop as int, it.step as int) }
pub open spec fn flat(its: Seq<HeightIterator>) -> Seq<RangeI> decreases its.len() { if its.len() == 0 { Seq::empty() } else { flat(its.drop_last()) + rest(its.last()) } }
pub proof fn lemma_flat(rs: Seq<RangeI>, its: Seq<HeightIterator>, s: int)
    requires ordered(rs), its.len() == rs.len(), s >= 1, forall|i: int| 0 <= i < rs.len() ==> (#[trigger] its[i]).start == rs[i].a && its[i].stop == rs[i].b && its[i].step == s
    ensures ordered(flat(its)), sized(flat(its), s), forall|h: int| #[trigger] in_any(flat(its), h) <==> in_any(rs, h),
        forall|i: int| 0 <= i < flat(its).len() ==> rs.len() > 0 && (#[trigger] flat(its)[i]).b <= rs.last().b,
    decreases rs.len()
{
    let f = flat(its);
    if rs.len() > 0 {
        let r0 = rs.drop_last(); let i0 = its.drop_last(); let g = flat(i0); let l = rs.last();
        assert forall|i: int| 0 <= i < r0.len() implies (#[trigger] i0[i]).start == r0[i].a && i0[i].stop == r0[i].b && i0[i].step == s by { assert(i0[i] == its[i]); assert(r0[i] == rs[i]); }
        lemma_flat(r0, i0, s);
        assert(its[rs.len() - 1].start == rs[rs.len() - 1].a);
        let t = chunks(l.a as int, l.b as int, s);
        lemma_chunks(l.a as int, l.b as int, s);
        assert(f =~= g + t);
        assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == (if i < g.len() { g[i] } else { t[i - g.len()] }) by {}
        assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).b < l.a by { assert(r0.last() == rs[rs.len() - 2]); }
        assert forall|h: int| #[trigger] in_any(f, h) <==> in_any(rs, h) by {
            if in_any(f, h) {
                let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).a <= h <= f[i].b;
                if i < g.len() { assert(in_any(g, h)); let k = choose|k: int| 0 <= k < r0.len() && (#[trigger] r0[k]).a <= h <= r0[k].b; assert(rs[k] == r0[k]); }
                else { assert(t[i - g.len()].a <= h <= t[i - g.len()].b); assert(in_any(t, h)); assert(rs[rs.len() - 1].a <= h <= rs[rs.len() - 1].b); }
            }
            if in_any(rs, h) {
                let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).a <= h <= rs[k].b;
                if k < r0.len() { assert(r0[k].a <= h <= r0[k].b); assert(in_any(g, h)); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).a <= h <= g[i].b; assert(f[i] == g[i]); }
                else { assert(in_any(t, h)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).a <= h <= t[i].b; assert(f[i + g.len()] == t[i]); }
            }
        }
        assert forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < f.len() implies f[i].b < f[j].a by {
            if i < g.len() && j >= g.len() { assert(g[i].b < l.a); assert(t[j - g.len()].a >= l.a); }
        }
    }
}
pub proof fn lemma_grow(rs: Seq<RangeI>, x: RangeI) ensures forall|h: int| #[trigger] in_any(rs.push(x), h) <==> in_any(rs, h) || x.a <= h <= x.b
{
    let q = rs.push(x);
    assert forall|h: int| #[trigger] in_any(q, h) <==> in_any(rs, h) || x.a <= h <= x.b by {
        if in_any(rs, h) { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).a <= h <= rs[i].b; assert(q[i] == rs[i]); }
        if x.a <= h <= x.b { assert(q[rs.len() as int] == x); }
        if in_any(q, h) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).a <= h <= q[i].b; if i < rs.len() { assert(q[i] == rs[i]); } }
    }
}
pub proof fn lemma_take_any(rs: Seq<RangeI>, i: int) requires 0 <= i < rs.len() ensures forall|h: int| #[trigger] in_any(rs.take(i + 1), h) <==> in_any(rs.take(i), h) || rs[i].a <= h <= rs[i].b
{ lemma_grow(rs.take(i), rs[i]); assert(rs.take(i + 1) =~= rs.take(i).push(rs[i])); }
pub proof fn lemma_last_any(rs: Seq<RangeI>, x: RangeI) requires rs.len() > 0, x.a == rs.last().a, x.b == rs.last().b + 1, x.a <= x.b
    ensures forall|h: int| #[trigger] in_any(rs.update(rs.len() - 1, x), h) <==> in_any(rs, h) || h == x.b
{
    let p = rs.drop_last();
    lemma_grow(p, rs.last()); lemma_grow(p, x);
    assert(rs =~= p.push(rs.last())); assert(rs.update(rs.len() - 1, x) =~= p.push(x));
}
pub proof fn lemma_take_has(s: Seq<u64>, i: int) requires 0 <= i < s.len() ensures forall|h: u64| #[trigger] s.take(i + 1).contains(h) <==> s.take(i).contains(h) || h == s[i]
{
    let a = s.take(i); let b = s.take(i + 1);
    assert forall|h: u64| #[trigger] b.contains(h) <==> a.contains(h) || h == s[i] by {
        if a.contains(h) { let k = choose|k: int| 0 <= k < a.len() && a[k] == h; assert(b[k] == h); }
        if h == s[i] { assert(b[i] == h); }
        if b.contains(h) { let k = choose|k: int| 0 <= k < b.len() && b[k] == h; if k < i { assert(a[k] == h); } }
    }
}
//@@ struct p2p/src/fsm/cbfmgr.rs | struct HeightIterator
//@ attr: #[derive(Copy, Clone)]
//@@ end
impl HeightIterator {
//@@ fn p2p/src/fsm/cbfmgr.rs | impl Iterator for HeightIterator / fn next
//@ props: C11
//@ sig: fn next(&mut self) -> (r: Option<RangeI>)
//@ subst: self.stop.min(start + self.step - 1) =>> min64(self.stop, start + self.step - 1)
//@ subst: Some(start..=stop) =>> Some(RangeI::new(start, stop))
//@ spec:
    requires old(self).step >= 1, old(self).start + old(self).step <= u64::MAX, old(self).stop < u64::MAX
    ensures
        r.is_none() == (rest(*old(self)).len() == 0),
        r.is_some() ==> rest(*old(self)) =~= seq![r.unwrap()] + rest(*final(self)),
        final(self).stop == old(self).stop, final(self).step == old(self).step,
//@@ end
}
/// `v.into_iter().flat_map(f).collect()` where f yields the iterator above
#[verifier::external_body]
pub fn flat_map<F: Fn(RangeI) -> HeightIterator>(v: Vec<RangeI>, f: F) -> (r: Vec<RangeI>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((v@[i],))
    ensures exists|its: Seq<HeightIterator>| its.len() == v@.len() && #[trigger] flat(its) == r@ && forall|i: int| 0 <= i < its.len() ==> f.ensures((v@[i],), #[trigger] its[i])
{ unimplemented!() }
impl RangeI {
    /// the heights of the range, in order
    #[verifier::external_body]
    pub fn heights(self) -> (r: Vec<u64>) requires self.a <= self.b ensures r@.len() == self.b - self.a + 1, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.a + i { unimplemented!() }
    /// `range.collect::<BTreeSet<_>>().difference(&skip)`, in order
    #[verifier::external_body]
    pub fn minus(self, skip: &BTreeSet<u64>) -> (r: Vec<u64>)
        ensures forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> r@[i] < r@[j],
            forall|i: int| 0 <= i < r@.len() ==> self.a <= #[trigger] r@[i] <= self.b && !skip@.contains(r@[i]),
            forall|h: u64| self.a <= h <= self.b && !#[trigger] skip@.contains(h) ==> r@.contains(h),
    { unimplemented!() }
}
pub trait LastX { 
    spec fn sq(&self) -> Seq<RangeI>;
    fn last_copy(&self) -> (r: Option<RangeI>) ensures r.is_some() == (self.sq().len() > 0), r.is_some() ==> r.unwrap() == self.sq().last();
    /// assignment through `last_mut()`
    fn clone_vec(&self) -> (r: Vec<RangeI>) ensures r@ == self.sq();
    fn set_last(&mut self, x: RangeI) requires old(self).sq().len() > 0 ensures final(self).sq() == old(self).sq().update(old(self).sq().len() - 1, x);
}
impl LastX for Vec<RangeI> {
    open spec fn sq(&self) -> Seq<RangeI> { self@ }
    #[verifier::external_body]
    fn last_copy(&self) -> (r: Option<RangeI>) { unimplemented!() }
    #[verifier::external_body]
    fn clone_vec(&self) -> (r: Vec<RangeI>) { unimplemented!() }
    #[verifier::external_body]
    fn set_last(&mut self, x: RangeI) { unimplemented!() }
}
impl BTreeSet<u64> {
    #[verifier::external_body]
    pub fn extend_keys<V>(&mut self, m: &HashMap<u64, V>) ensures forall|h: u64| #[trigger] final(self)@.contains(h) <==> old(self)@.contains(h) || m@.contains_key(h) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_set(&mut self, s: &BTreeSet<u64>) ensures forall|h: u64| #[trigger] final(self)@.contains(h) <==> old(self)@.contains(h) || s@.contains(h) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_range(&mut self, r: RangeI) ensures forall|h: u64| #[trigger] final(self)@.contains(h) <==> old(self)@.contains(h) || r.a <= h <= r.b { unimplemented!() }
}
//@@ const p2p/src/fsm/cbfmgr.rs | const MAX_MESSAGE_CFILTERS
//@@ end
//@@ const p2p/src/fsm/cbfmgr.rs | const MAX_MESSAGE_CFHEADERS
//@@ end
//@@ struct p2p/src/fsm/cbfmgr/rescan.rs | struct Rescan
//@@ end
/// whether the watched scripts or transactions are in the block, as far as its filter tells
pub open spec fn spec_match(w: Set<Script>, t: Map<Txid, HashSet<Script>>, f: BlockFilter, h: BlockHash) -> M {
    let by_script = if w == Set::<Script>::empty() { Ok(false) } else { any_of(f, h, w) };
    match by_script {
        Err(e) => Err(e),
        Ok(true) => Ok(true),
        Ok(false) => Ok(exists|k: Txid| #[trigger] t.contains_key(k) && all_of(f, h, t[k]@) == Ok::<bool, bip158::Error>(true)),
    }
}
/// one more transaction is watched
pub open spec fn watches(n: Map<Txid, HashSet<Script>>, o: Map<Txid, HashSet<Script>>, tx: Transaction) -> bool {
    &&& n.dom() == o.dom().insert(txid_of(tx)) && n[txid_of(tx)]@ == outs_of(tx)
    &&& forall|k: Txid| k != txid_of(tx) && #[trigger] o.contains_key(k) ==> n[k] == o[k]
}
impl Rescan {
    pub open spec fn hit(&self, h: Height) -> M { spec_match(self.watch@, self.transactions@, *self.received@[h].0, self.received@[h].1) }
    pub open spec fn done(&self, h: Height) -> Event {
        Event::FilterProcessed { block: self.received@[h].1, height: h, matched: self.hit(h) == Ok::<bool, bip158::Error>(true), valid: self.hit(h).is_ok(), cached: self.received@[h].2 }
    }
    /// the events of matching n filters from the current height on
    pub open spec fn done_n(&self, n: int) -> Seq<Event> { Seq::new(n as nat, |i: int| self.done((self.current + i) as u64)) }
    /// the matching blocks among n filters from the current height on
    pub open spec fn hits_n(&self, n: int) -> Seq<(Height, BlockHash)> decreases n {
        if n <= 0 { Seq::empty() } else {
            let h = (self.current + n - 1) as u64;
            if self.hit(h) == Ok::<bool, bip158::Error>(true) { self.hits_n(n - 1).push((h, self.received@[h].1)) } else { self.hits_n(n - 1) }
        }
    }
    pub open spec fn within(&self, h: int) -> bool { self.end.is_none() || h <= self.end.unwrap() }
    /// n filters are ready to be matched from the current height on, and no more
    pub open spec fn ready(&self, n: int) -> bool {
        &&& 0 <= n
        &&& forall|h: Height| self.current <= h < self.current + n ==> #[trigger] self.received@.contains_key(h) && self.within(h as int)
        &&& !self.within(self.current + n) || !self.received@.contains_key((self.current + n) as u64)
    }
//@@ fn p2p/src/fsm/cbfmgr/rescan.rs | impl Rescan / fn restart
//@ props: C11
//@ sig: pub fn restart(&mut self, start: Height, end: Option<Height>, watch: Vec<Script>)
//@ subst: watch.into_iter().collect() =>> HashSet::from_vec(watch)
//@ spec:
    ensures
        final(self).active, final(self).start == start, final(self).current == start, final(self).end == end,
        final(self).watch@ == watch@.to_set(), final(self).requested@ == Set::<Height>::empty(),
        final(self).received@ == old(self).received@, final(self).cache@ == old(self).cache@, final(self).transactions == old(self).transactions,
//@@ end
//@@ fn p2p/src/fsm/cbfmgr/rescan.rs | impl Rescan / fn reset
//@ props: C11
//@ spec:
    ensures *final(self) == (Rescan { requested: final(self).requested, ..*old(self) }), final(self).requested@ == Set::<Height>::empty()
//@@ end
//@@ fn p2p/src/fsm/cbfmgr/rescan.rs | impl Rescan / fn rollback
//@ props: C11
//@ closure 0: |h: &Height| -> (b: bool) ensures b == (*h <= to) ;; 
//@ spec:
    ensures
        *final(self) == (Rescan { cache: final(self).cache, received: final(self).received, ..*old(self) }),
        // filters above are forgotten, the others kept
        forall|h: Height| #[trigger] final(self).received@.contains_key(h) <==> old(self).received@.contains_key(h) && h <= to,
        forall|h: Height| #[trigger] final(self).received@.contains_key(h) ==> final(self).received@[h] == old(self).received@[h],
        forall|h: Height| #[trigger] final(self).cache@.contains_key(h) ==> old(self).cache@.contains_key(h) && h <= to && final(self).cache@[h] == old(self).cache@[h],
//@@ end
//@@ fn p2p/src/fsm/cbfmgr/rescan.rs | impl Rescan / fn received
//@ props: C11
//@ spec:
    ensures
        *final(self) == (Rescan { cache: final(self).cache, received: final(self).received, requested: final(self).requested, ..*old(self) }),
        r == old(self).requested@.contains(height),
        // only what was asked for is taken, once
        final(self).requested@ == old(self).requested@.remove(height),
        !r ==> final(self).received@ == old(self).received@ && final(self).cache@ == old(self).cache@,
        r ==> final(self).received@.dom() == old(self).received@.dom().insert(height) && *final(self).received@[height].0 == filter && final(self).received@[height].1 == block_hash && !final(self).received@[height].2,
        r ==> forall|h: Height| h != height && #[trigger] old(self).received@.contains_key(h) ==> final(self).received@[h] == old(self).received@[h],
        r ==> forall|h: Height| #[trigger] final(self).cache@.contains_key(h) ==> (h == height && *final(self).cache@[h] == filter) || (old(self).cache@.contains_key(h) && final(self).cache@[h] == old(self).cache@[h]),
//@@ end
//@@ fn p2p/src/fsm/cbfmgr/rescan.rs | impl Rescan / fn match_filter
//@ props: C11
//@ subst: &mut self.watch.iter().map(|k| k.as_bytes()) =>> &self.watch
//@ subst: self.transactions.values().any(|outs| { let mut outs = outs.iter().map(|k| k.as_bytes()); filter.match_all(block_hash, &mut outs).unwrap_or(false) }) =>> any_value(&self.transactions, |outs: &HashSet<Script>| -> (b: bool) ensures b == (all_of(*filter, *block_hash, outs@) == Ok::<bool, bip158::Error>(true)) { filter.match_all(block_hash, outs).unwrap_or(false) })
//@ spec:
    ensures r == spec_match(self.watch@, self.transactions@, *filter, *block_hash)
//@@ end
//@@ fn p2p/src/fsm/cbfmgr/rescan.rs | impl Rescan / fn process
//@ props: C11
//@ subst: let old = current =>> let old_ = current
//@ subst: current - old =>> current - old_
//@ subst: self.end.map_or(true, |stop| current <= stop) =>> (match self.end { None => true, Some(stop) => current <= stop })
//@ spec:
    requires
        forall|h: Height| #[trigger] old(self).received@.contains_key(h) ==> h < 0x200_0000_0000_0000,
    ensures
        // every filter that is next in line is matched, in order, once, up to the end of the scan
        old(self).ready(r.2 as int), final(self).current == old(self).current + r.2,
        r.0@ == old(self).hits_n(r.2 as int),
        forall|h: Height| #[trigger] final(self).received@.contains_key(h) <==> old(self).received@.contains_key(h) && !(old(self).current <= h < old(self).current + r.2),
        forall|h: Height| #[trigger] final(self).received@.contains_key(h) ==> final(self).received@[h] == old(self).received@[h],
        // and the scan is finished when its end was matched
        final(self).active == (old(self).active && (old(self).end.is_none() || final(self).current <= old(self).end.unwrap())),
        r.1@ == old(self).done_n(r.2 as int) + (if old(self).active && !final(self).active { seq![Event::FilterRescanStopped { height: old(self).end.unwrap() }] } else { seq![] }),
        *final(self) == (Rescan { active: final(self).active, current: final(self).current, received: final(self).received, ..*old(self) }),
//@ entry:
    let ghost O = *self;
//@ loop 0:
    invariant_except_break
        true,
    invariant
        O == *old(self),
        forall|h: Height| #[trigger] O.received@.contains_key(h) ==> h < 0x200_0000_0000_0000,
        *self == (Rescan { received: self.received, ..O }), old_ == self.current, self.current <= current, current - old_ <= 0x200_0000_0000_0000, 
        forall|h: Height| self.current <= h < current ==> #[trigger] O.received@.contains_key(h) && O.within(h as int),
        forall|h: Height| #[trigger] self.received@.contains_key(h) <==> O.received@.contains_key(h) && !(self.current <= h < current),
        forall|h: Height| #[trigger] self.received@.contains_key(h) ==> self.received@[h] == O.received@[h],
        events@ =~= O.done_n(current - old_), matches@ == O.hits_n(current - old_),
    ensures
        !O.within(current as int) || !O.received@.contains_key(current),
    decreases 0x200_0000_0000_0001 - current
//@@ end
    /// cached filters of the active chain in a range are queued for matching
    pub open spec fn queued(&self, range: RangeI, bc: Seq<BlockHash>, h: Height) -> bool { range.a <= h <= range.b && self.cache@.contains_key(h) && h < bc.len() }
    /// heights of the range that are neither here nor asked for
    pub open spec fn missing(&self, range: RangeI, bc: Seq<BlockHash>, h: Height) -> bool {
        range.a <= h <= range.b && !self.received@.contains_key(h) && !self.queued(range, bc, h) && !self.requested@.contains(h)
    }
//@@ fn p2p/src/fsm/cbfmgr/rescan.rs | impl Rescan / fn requests
//@ props: C11
//@ sigsubst: RangeInclusive<Height> =>> RangeI
//@ sigsubst: RangeInclusive<Height> =>> RangeI
//@ subst: RangeInclusive<Height> =>> RangeI
//@ subst: for height in range.clone() =>> for height in range.heights()
//@ subst: self.requested.extend(range.clone()) =>> self.requested.extend_range(range.clone())
//@ subst: skip.extend(self.received.keys().cloned()) =>> skip.extend_keys(&self.received)
//@ subst: skip.extend(&self.requested) =>> skip.extend_set(&self.requested)
//@ subst: for height in range.collect::<BTreeSet<_>>().difference(&skip) =>> let diff = range.minus(&skip); let ghost D = diff@; for height in diff
//@ subst: *height..=*height =>> RangeI::new(height, height)
//@ subst: *height =>> height
//@ subst: ranges.last_mut() =>> ranges.last_copy()
//@ subst: *r = *r.start()..=r.end() + 1 =>> ranges.set_last(RangeI::new(*r.start(), *r.end() + 1))
//@ subst: == r.end() + 1 =>> == *r.end() + 1
//@ subst: ranges.into_iter().flat_map(|r| HeightIterator { start: *r.start(), stop: *r.end(), step: MAX_MESSAGE_CFILTERS as Height, }).collect() =>> flat_map(ranges, |r: RangeI| -> (x: HeightIterator) ensures x.start == r.a, x.stop == r.b, x.step == 1000 { HeightIterator { start: *r.start(), stop: *r.end(), step: MAX_MESSAGE_CFILTERS as Height } })
//@ subst: for range in &ranges =>> for range in ranges.clone_vec()
//@ spec:
    requires range.b < 0x200_0000_0000_0000
    ensures
        *final(self) == (Rescan { received: final(self).received, requested: final(self).requested, ..*old(self) }),
        forall|h: Height| #[trigger] final(self).received@.contains_key(h) <==> old(self).received@.contains_key(h) || old(self).queued(range, tree.bc(), h),
        forall|h: Height| #[trigger] final(self).received@.contains_key(h) ==> final(self).received@[h] == (if old(self).queued(range, tree.bc(), h) { (old(self).cache@[h], tree.bc()[h as int], true) } else { old(self).received@[h] }),
        // everything missing, and nothing else, is asked for, in messages of at most 1000
        forall|h: Height| #[trigger] in_any(r@, h as int) <==> old(self).missing(range, tree.bc(), h),
        forall|h: Height| #[trigger] final(self).requested@.contains(h) <==> old(self).requested@.contains(h) || old(self).missing(range, tree.bc(), h),
        ordered(r@), sized(r@, 1000), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).b <= range.b,
//@ entry:
    let ghost O = *self;
    let ghost bc = tree.bc();
    let ghost R = range;
//@ loop 0 it=it:
    invariant
        O == *old(self), bc == tree.bc(), it.seq().len() == R.b - R.a + 1, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == R.a + i,
        R.b < 0x200_0000_0000_0000, range == R, R.a <= R.b,
        *self == (Rescan { received: self.received, ..O }),
        forall|h: Height| #[trigger] self.received@.contains_key(h) <==> O.received@.contains_key(h) || (O.queued(R, bc, h) && h < R.a + it.index@),
        forall|h: Height| #[trigger] self.received@.contains_key(h) ==> self.received@[h] == (if O.queued(R, bc, h) && h < R.a + it.index@ { (O.cache@[h], bc[h as int], true) } else { O.received@[h] }),
//@ loop 1 it=it:
    invariant
        R.b < 0x200_0000_0000_0000, it.seq() == D,
        forall|i: int, j: int| #![trigger it.seq()[i], it.seq()[j]] 0 <= i < j < it.seq().len() ==> it.seq()[i] < it.seq()[j],
        forall|i: int| 0 <= i < it.seq().len() ==> R.a <= #[trigger] it.seq()[i] <= R.b,
        ordered(ranges@), (it.index@ > 0) == (ranges@.len() > 0), it.index@ > 0 ==> ranges@.last().b == it.seq()[it.index@ - 1],
        forall|h: int| #[trigger] in_any(ranges@, h) <==> 0 <= h <= u64::MAX && it.seq().take(it.index@).contains(h as u64),
//@ loop_start 1:
    let ghost rs0 = ranges@;
    let ghost i0 = it.index@;
//@ loop_end 1:
    proof {
        let x = it.seq()[i0];
        lemma_take_has(it.seq(), i0);
        if ranges@.len() > rs0.len() { lemma_grow(rs0, RangeI { a: x, b: x }); assert(ranges@ =~= rs0.push(RangeI { a: x, b: x })); }
        else { let y = RangeI { a: rs0.last().a, b: x }; lemma_last_any(rs0, y); assert(ranges@ =~= rs0.update(rs0.len() - 1, y)); }
    }
//@ loop_before 1:
    let ghost G = *self;
//@ loop_after 1:
    let ghost rs1 = ranges@;
    proof {
        assert(D.take(D.len() as int) =~= D);
        assert forall|h: Height| #[trigger] in_any(rs1, h as int) <==> O.missing(R, bc, h) by {
            assert(skip@.contains(h) <==> G.received@.contains_key(h) || O.requested@.contains(h));
        }
    }
//@ loop 2 it=it:
    invariant
        *self == (Rescan { received: self.received, requested: self.requested, ..O }),
        it.seq() == ranges@,
        forall|h: Height| #[trigger] self.requested@.contains(h) <==> O.requested@.contains(h) || in_any(ranges@.take(it.index@), h as int),
//@ loop_before 2:
    proof {
        let its = choose|its: Seq<HeightIterator>| its.len() == rs1.len() && #[trigger] flat(its) == ranges@ && forall|i: int| 0 <= i < its.len() ==> (#[trigger] its[i]).start == rs1[i].a && its[i].stop == rs1[i].b && its[i].step == 1000;
        lemma_flat(rs1, its, 1000);
        assert(ranges@.take(0) =~= Seq::<RangeI>::empty());
    }
//@ loop_start 2:
    proof { lemma_take_any(ranges@, it.index@); }
//@ loop_after 2:
    proof { assert(ranges@.take(ranges@.len() as int) =~= ranges@); }
//@@ end
}

// ---- the filter manager ----
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub open spec fn bound_start(b: Bound<Height>, tip: int) -> int { match b { Bound::Included(h) => h as int, Bound::Excluded(h) => h + 1, Bound::Unbounded => tip + 1 } }
pub open spec fn bound_end(b: Bound<Height>) -> Option<Height> { match b { Bound::Included(h) => Some(h), Bound::Excluded(h) => Some((h - 1) as u64), Bound::Unbounded => None } }
/// where blocks are fetched from
pub trait BlockSource: Sized {
    spec fn fetched(&self) -> Seq<BlockHash>;
    fn get_block(&mut self, hash: BlockHash) ensures final(self).fetched() == old(self).fetched().push(hash);
}
/// of a list of blocks, those at heights not yet pending, and the heights pending then
pub open spec fn fresh(m: Seq<(Height, BlockHash)>, p: Set<Height>) -> (Seq<(Height, BlockHash)>, Set<Height>) decreases m.len() {
    if m.len() == 0 { (m, p) } else {
        let (r, q) = fresh(m.drop_last(), p);
        (if q.contains(m.last().0) { r } else { r.push(m.last()) }, q.insert(m.last().0))
    }
}
pub open spec fn hashes(m: Seq<(Height, BlockHash)>) -> Seq<BlockHash> { Seq::new(m.len(), |i: int| m[i].1) }
/// `matches.into_iter().filter(|(height, _)| pending.insert(*height)).collect()`
#[verifier::external_body]
pub fn filter_insert(m: Vec<(Height, BlockHash)>, pending: &mut BTreeSet<Height>) -> (r: Vec<(Height, BlockHash)>)
    ensures r@ == fresh(m@, old(pending)@).0, final(pending)@ == fresh(m@, old(pending)@).1
{ unimplemented!() }
/// `headers.iter().map(|(hash, _)| *hash)`
#[verifier::external_body]
pub fn firsts(v: &Vec<(FilterHash, FilterHeader)>) -> (r: Vec<FilterHash>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == v@[i].0 { unimplemented!() }
pub uninterp spec fn outs_of(t: Transaction) -> Set<Script>;
/// `tx.output.iter().map(|o| o.script_pubkey.clone()).collect()`
#[verifier::external_body]
pub fn out_scripts(t: &Transaction) -> (r: HashSet<Script>) ensures r@ == outs_of(*t) { unimplemented!() }
pub uninterp spec fn cbf_services() -> ServiceFlags;
#[verifier::external_body]
pub fn required_services() -> (r: ServiceFlags) ensures r == cbf_services() { unimplemented!() }
//@@ include shim_book.rs
/// `v.into_iter().zip(peers.cycle())`
#[verifier::external_body]
pub fn zip_cycle<K, V>(v: Vec<RangeI>, peers: &AddressBook<K, V>) -> (r: Vec<(RangeI, &K)>)
    ensures peers@ != Map::<K, V>::empty() ==> r@.len() == v@.len(), r@.len() <= v@.len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == v@[i] && peers@.contains_key(*r@[i].1)
{ unimplemented!() }
//@@ enum p2p/src/fsm/cbfmgr.rs | enum Error
//@@ end
//@@ enum p2p/src/fsm/cbfmgr.rs | enum GetFiltersError
//@@ end
//@@ struct p2p/src/fsm/cbfmgr.rs | struct Config
//@@ end
//@@ struct p2p/src/fsm/cbfmgr.rs | struct Peer
//@@ end
//@@ struct p2p/src/fsm/cbfmgr.rs | struct FilterManager
//@@ end
//@@ const p2p/src/fsm/cbfmgr.rs | const DEFAULT_REQUEST_TIMEOUT
//@ spec: ensures DEFAULT_REQUEST_TIMEOUT.ms() == 6000
//@@ end
//@@ const p2p/src/fsm/cbfmgr.rs | const IDLE_TIMEOUT
//@ spec: ensures IDLE_TIMEOUT.ms() == 60000
//@@ end
/// the filter of block h, as the filter header chain commits to it
pub open spec fn auth(f: BlockFilter, s: FS, h: Height) -> bool { h < s.len() && fheader(fhash(f), prev_of(s, h as int)) == s[h as int].1 }
/// one getcfilters message per range
pub open spec fn asks(rs: Seq<RangeI>, w: Seq<(PeerId, NetworkMessage)>, bc: Seq<BlockHash>) -> bool {
    &&& w.len() == rs.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> #[trigger] w[i].1 == NetworkMessage::GetCFilters(GetCFilters { filter_type: 0, start_height: rs[i].a as u32, stop_hash: bc[rs[i].b as int] })
}
/// exactly the missing filters of a range are asked for
pub open spec fn asked(o: Rescan, range: RangeI, w: Seq<(PeerId, NetworkMessage)>, bc: Seq<BlockHash>) -> bool {
    exists|rs: Seq<RangeI>| #[trigger] asks(rs, w, bc) && ordered(rs) && sized(rs, 1000) && (forall|h: Height| #[trigger] in_any(rs, h as int) <==> o.missing(range, bc, h))
}
impl Rescan {
    /// every filter held is the one the filter header chain commits to, and belongs to the active block at its height
    pub open spec fn good(&self, s: FS, b: Seq<BlockHash>) -> bool {
        &&& forall|h: Height| #[trigger] self.received@.contains_key(h) ==> auth(*self.received@[h].0, s, h) && self.received@[h].1 == b[h as int]
        &&& forall|h: Height| #[trigger] self.cache@.contains_key(h) ==> auth(*self.cache@[h], s, h)
    }
    /// what matching the next filters in line does: reported in order, matching blocks found
    pub open spec fn scanned(&self, n: int, fin: Rescan, ev0: Seq<Event>, ev1: Seq<Event>, found: Seq<(Height, BlockHash)>) -> bool {
        &&& self.ready(n) && fin.current == self.current + n && found == self.hits_n(n)
        &&& fin.active == (self.active && (self.end.is_none() || fin.current <= self.end.unwrap()))
        &&& ev1 == ev0 + (self.done_n(n) + (if self.active && !fin.active { seq![Event::FilterRescanStopped { height: self.end.unwrap() }] } else { seq![] }))
        &&& fin == (Rescan { active: fin.active, current: fin.current, received: fin.received, ..*self })
    }
    /// nothing but queues differs: same scan, same progress
    pub open spec fn same_scan(&self, o: Rescan) -> bool { *self == (Rescan { received: self.received, requested: self.requested, cache: self.cache, ..o }) }
}
/// what a header import does to the chain: blocks from the lowest reverted one up are replaced, the rest stays
pub open spec fn imported(rev: Seq<(Height, BlockHeader)>, b0: Seq<BlockHash>, b1: Seq<BlockHash>) -> bool {
    if rev.len() == 0 { b0.len() <= b1.len() && b1.take(b0.len() as int) == b0 }
    else { let h = rev.last().0; 1 <= h <= 0x200_0000_0000_0000 && h <= b0.len() && h <= b1.len() && b0.take(h as int) == b1.take(h as int) }
}
impl<F: Filters, C: Clock> FilterManager<F, C> {
    /// the invariant, relative to an active chain of blocks
    pub open spec fn wf(&self, b: Seq<BlockHash>) -> bool {
        &&& self.filters.ok() && linked(self.filters.fs()) && self.filters.fs().len() <= b.len()
        &&& self.rescan.good(self.filters.fs(), b)
        &&& self.config.request_timeout.ms() <= 0x1_0000_0000_0000_0000
    }
    /// a longer chain with the same beginning changes nothing
    pub proof fn lemma_extend(&self, b: Seq<BlockHash>, n: int) requires 0 <= n <= b.len(), self.wf(b.take(n)) ensures self.wf(b) {}
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn get_cfilters
//@ props: C11
//@ sigsubst: RangeInclusive<Height> =>> RangeI
//@ subst: for (range, peer) in self.rescan.requests(range, tree).into_iter().zip(self.peers.cycle()) =>> let ghost R0 = range; let rs = self.rescan.requests(range, tree); let ghost RS = rs@; let ghost A = self.rescan; for (range, peer) in zip_cycle(rs, &self.peers)
//@ spec:
    requires old(self).wf(tree.bc())
    ensures
        final(self).wf(tree.bc()), final(self).rescan.same_scan(old(self).rescan),
        *final(self) == (FilterManager { rescan: final(self).rescan, outbox: final(self).outbox, ..*old(self) }),
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.drs() == old(self).outbox.drs(),
        r.is_err() ==> *final(self) == *old(self),
        r == (if old(self).peers@ == Map::<PeerId, Peer>::empty() { Err(GetFiltersError::NotConnected) }
            else if range.a > range.b || range.b >= old(self).filters.fs().len() { Err(GetFiltersError::InvalidRange) } else { Ok::<(), GetFiltersError>(()) }),
        r.is_ok() ==> exists|w: Seq<(PeerId, NetworkMessage)>| final(self).outbox.wrs() == old(self).outbox.wrs() + w && #[trigger] asked(old(self).rescan, range, w, tree.bc()),
        // cached filters of the range are put in line
        r.is_ok() ==> forall|h: Height| #[trigger] final(self).rescan.received@.contains_key(h) <==> old(self).rescan.received@.contains_key(h) || old(self).rescan.queued(range, tree.bc(), h),
//@ entry:
    let ghost O = *self;
    let ghost bc = tree.bc();
    proof { self.filters.lemma_ok(); tree.lemma_bc(); }
//@ loop 0 it=it:
    invariant
        O == *old(self), bc == tree.bc(), it.seq().len() == RS.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == RS[i],
        forall|i: int| 0 <= i < RS.len() ==> (#[trigger] RS[i]).b < bc.len(),
        *self == (FilterManager { rescan: A, outbox: self.outbox, ..O }),
        self.outbox.evs() == O.outbox.evs(), self.outbox.drs() == O.outbox.drs(),
        self.outbox.wrs() == O.outbox.wrs() + w, asks(RS.take(it.index@), w, bc),
//@ loop_before 0:
    let ghost mut w: Seq<(PeerId, NetworkMessage)> = Seq::empty();
    proof { assert(O.outbox.wrs() + w =~= O.outbox.wrs()); }
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost rr = range;
    proof { assert(it.seq()[it.index@].0 == RS[it.index@]); }
//@ loop_end 0:
    proof {
        let m = (*peer, NetworkMessage::GetCFilters(GetCFilters { filter_type: 0, start_height: rr.a as u32, stop_hash: bc[rr.b as int] }));
        assert(O.outbox.wrs() + w.push(m) =~= (O.outbox.wrs() + w).push(m));
        w = w.push(m);
    }
//@ loop_after 0:
    proof { assert(RS.take(RS.len() as int) =~= RS); assert(asks(RS, w, bc)); assert(asked(O.rescan, R0, w, bc)); }
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn get_cfheaders
//@ props: C09
//@ spec:
    requires old(self).config.request_timeout.ms() <= 0x1_0000_0000_0000_0000
    ensures
        *final(self) == (FilterManager { inflight: final(self).inflight, outbox: final(self).outbox, ..*old(self) }),
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.drs() == old(self).outbox.drs(),
        // asked once, of one of the peers, and remembered
        r.is_some() == (!old(self).inflight@.contains_key(stop_hash) && old(self).peers@ != Map::<PeerId, Peer>::empty()),
        r.is_none() ==> *final(self) == *old(self),
        r.is_some() ==> r.unwrap().1 == start_height && r.unwrap().2 == stop_hash && old(self).peers@.contains_key(r.unwrap().0)
            && final(self).inflight@.dom() == old(self).inflight@.dom().insert(stop_hash)
            && final(self).outbox.wrs() == old(self).outbox.wrs().push((r.unwrap().0, NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: 0, start_height: start_height as u32, stop_hash }))),
//@ entry:
    broadcast use lemma_push;
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn send_getcfheaders
//@ props: C09
//@ sigsubst: RangeInclusive<Height> =>> RangeI
//@ subst: usize::min(MAX_MESSAGE_CFHEADERS, (end - start + 1) as usize) =>> min64(MAX_MESSAGE_CFHEADERS as u64, end - start + 1) as usize
//@ subst: .unwrap_or_else(|| unreachable!()) =>> .unwrap()
//@ spec:
    requires old(self).config.request_timeout.ms() <= 0x1_0000_0000_0000_0000, range.a <= range.b < tree.bc().len()
    ensures
        *final(self) == (FilterManager { inflight: final(self).inflight, outbox: final(self).outbox, ..*old(self) }),
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.drs() == old(self).outbox.drs(),
        r.is_none() ==> *final(self) == *old(self),
        // from the start of the range, at most 2000, up to a block of the active chain
        r.is_some() ==> r.unwrap().1 == range.a && r.unwrap().2 == tree.bc()[if range.b < range.a + 2000 { range.b as int } else { range.a + 1999 }]
            && final(self).inflight@.dom() == old(self).inflight@.dom().insert(r.unwrap().2)
            && final(self).outbox.wrs() == old(self).outbox.wrs().push((r.unwrap().0, NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: 0, start_height: range.a as u32, stop_hash: r.unwrap().2 }))),
        r.is_none() ==> old(self).peers@ == Map::<PeerId, Peer>::empty() || old(self).inflight@.contains_key(tree.bc()[if range.b < range.a + 2000 { range.b as int } else { range.a + 1999 }]),
//@ entry:
    proof { tree.lemma_bc(); }
//@@ end
    /// what a sync leaves alone
    pub open spec fn synced(&self, o: Self) -> bool {
        &&& self.rescan.same_scan(o.rescan)
        &&& *self == (FilterManager { rescan: self.rescan, outbox: self.outbox, inflight: self.inflight, ..o })
        &&& self.outbox.evs() == o.outbox.evs() && self.outbox.drs() == o.outbox.drs()
    }
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn sync
//@ props: C09 C11
//@ subst: start_height..=stop_height =>> RangeI::new(start_height, stop_height)
//@ subst: self.rescan.current..=self.filters.height() =>> RangeI::new(self.rescan.current, self.filters.height())
//@ subst: if &block_height < checkpoint =>> if block_height < *checkpoint
//@ spec:
    requires old(self).wf(tree.bc())
    ensures
        final(self).wf(tree.bc()), final(self).synced(*old(self)),
        // the next headers are requested, up to a block of the active chain
        forall|k: BlockHash| #[trigger] final(self).inflight@.contains_key(k) ==> old(self).inflight@.contains_key(k)
            || (old(self).filters.fs().len() < tree.bc().len() && k == tree.bc()[if tree.bc().len() <= old(self).filters.fs().len() + 2000 { tree.bc().len() - 1 } else { (old(self).filters.fs().len() + 1999) as int }]),
        forall|k: BlockHash| #[trigger] old(self).inflight@.contains_key(k) ==> final(self).inflight@.contains_key(k),
//@ entry:
    proof { self.filters.lemma_ok(); tree.lemma_bc(); }
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn headers_imported
//@ props: C11
//@ subst: Height::max( =>> max64(
//@ subst: Height::min( =>> min64(
//@ subst: start..=stop =>> RangeI::new(start, stop)
//@ spec:
    requires old(self).wf(tree.bc()), stop < old(self).filters.fs().len()
    ensures
        final(self).wf(tree.bc()), final(self).rescan.same_scan(old(self).rescan),
        *final(self) == (FilterManager { rescan: final(self).rescan, outbox: final(self).outbox, ..*old(self) }),
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.drs() == old(self).outbox.drs(),
        r.is_err() ==> old(self).peers@ == Map::<PeerId, Peer>::empty(),
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn schedule_wake
//@ props: C09
//@ spec:
    ensures *final(self) == (FilterManager { last_idle: final(self).last_idle, outbox: final(self).outbox, ..*old(self) }),
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.drs() == old(self).outbox.drs(), final(self).outbox.wrs() == old(self).outbox.wrs()
//@ entry:
    broadcast use lemma_push;
//@@ end
    /// an answer to a request of ours, for the next headers of the active chain, continuing ours
    pub open spec fn acceptable(&self, msg: CFHeaders, bc: Seq<BlockHash>) -> bool {
        let s = self.filters.fs();
        &&& self.inflight@.contains_key(msg.stop_hash) && msg.filter_type == 0 && bc.contains(msg.stop_hash)
        &&& msg.previous_filter_header == s.last().1
        &&& 1 <= msg.filter_hashes@.len() <= 2000
        &&& s.len() - 1 + msg.filter_hashes@.len() < bc.len() && bc[s.len() - 1 + msg.filter_hashes@.len()] == msg.stop_hash
    }
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn received_cfheaders
//@ props: C09 C11
//@ attr: #[verifier::spinoff_prover]
//@ subst: if &prev_header != tip_header =>> if prev_header != *tip_header
//@ subst: self.filters.import_headers(headers).map(|height| { =>> match self.filters.import_headers(headers) { Ok(height) => Ok({ proof { lemma_heads_linked(O.filters.fs(), msg.filter_hashes@); assert(self.wf(bc)); }
//@ subst: height }).map_err(|error| Error::Filters { message: "error importing filter headers", error, }) =>> height }), Err(error) => Err(Error::Filters { message: "error importing filter headers", error, }) }
//@ spec:
    requires old(self).wf(tree.bc())
    ensures
        !(r is Err && r->Err_0 is Filters) ==> final(self).wf(tree.bc()),
        // grows by exactly the headers the message implies, if it is acceptable; anything else leaves the headers alone
        !(r is Err && r->Err_0 is Filters) ==> final(self).filters.fs() == (if old(self).acceptable(msg, tree.bc()) { old(self).filters.fs() + heads(msg.filter_hashes@, msg.previous_filter_header) } else { old(self).filters.fs() }),
        r is Err && r->Err_0 is Filters ==> old(self).acceptable(msg, tree.bc()),
        old(self).filters.reliable() ==> final(self).filters.reliable() && !(r is Err && r->Err_0 is Filters),
        // a peer is blamed only for an answer to a request of ours about an active block
        r is Err && r->Err_0 is InvalidMessage ==> old(self).inflight@.contains_key(msg.stop_hash) && (msg.filter_type != 0 || tree.bc().contains(msg.stop_hash)) && r->Err_0->InvalidMessage_from == *from,
        final(self).rescan.same_scan(old(self).rescan), final(self).pending_blocks == old(self).pending_blocks, final(self).peers == old(self).peers,
        !final(self).inflight@.contains_key(msg.stop_hash) || old(self).acceptable(msg, tree.bc()),
        final(self).outbox.drs() == old(self).outbox.drs(),
        // synced is reported when the filter headers have caught up with the blocks
        final(self).outbox.evs() == (if r is Ok && old(self).acceptable(msg, tree.bc()) && final(self).filters.fs().len() == tree.bc().len() { old(self).outbox.evs().push(Event::FilterHeadersSynced { height: (tree.bc().len() - 1) as u64 }) } else { old(self).outbox.evs() }),
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
    let ghost bc = tree.bc();
    proof { self.filters.lemma_ok(); tree.lemma_bc(); }
//@ loop 0 it=it:
    invariant
        it.seq() == msg.filter_hashes@,
        headers@ == heads(msg.filter_hashes@.take(it.index@), prev_header),
        last_header == (if it.index@ == 0 { prev_header } else { headers@.last().1 }),
        headers@.len() == it.index@,
//@ loop_start 0:
    proof {
        let a = msg.filter_hashes@.take(it.index@ + 1);
        assert(a.drop_last() =~= msg.filter_hashes@.take(it.index@));
    }
//@ loop_after 0:
    proof { assert(msg.filter_hashes@.take(count as int) =~= msg.filter_hashes@); }
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn received_getcfheaders
//@ props: C09
//@ subst: start_height..=stop_height =>> RangeI::new(start_height, stop_height)
//@ subst: headers.iter().map(|(hash, _)| *hash) =>> firsts(&headers)
//@ subst: hashes.collect() =>> hashes
//@ spec:
    requires old(self).wf(tree.bc())
    ensures
        final(self).wf(tree.bc()), *final(self) == (FilterManager { outbox: final(self).outbox, ..*old(self) }),
        // all of the range, or no answer
        r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> exists|e: int| #[trigger] tree.bc()[e] == msg.stop_hash && msg.start_height <= e < old(self).filters.fs().len() && e - msg.start_height < 2000
            && final(self).outbox.ios().len() == old(self).outbox.ios().len() + 1 && final(self).outbox.ios().drop_last() == old(self).outbox.ios()
            && final(self).outbox.ios().last() is Write && final(self).outbox.ios().last()->Write_0 == *from && final(self).outbox.ios().last()->Write_1 is CFHeaders && ({
                let m = final(self).outbox.ios().last()->Write_1->CFHeaders_0;
                m.filter_type == 0 && m.stop_hash == msg.stop_hash && m.previous_filter_header == prev_of(old(self).filters.fs(), msg.start_height as int)
                && m.filter_hashes@ == Seq::new((e - msg.start_height + 1) as nat, |i: int| old(self).filters.fs()[msg.start_height + i].0) }),
        (exists|e: int| #[trigger] tree.bc()[e] == msg.stop_hash && msg.start_height <= e < old(self).filters.fs().len() && e - msg.start_height < 2000) && msg.filter_type == 0 ==> r.is_ok(),
//@ entry:
    let ghost O = *self;
    let ghost s = self.filters.fs();
    proof { self.filters.lemma_ok(); tree.lemma_bc(); }
//@ before `return Ok(())`:
    proof {
        assert(tree.bc()[stop_height as int] == msg.stop_hash);
        assert(self.outbox.ios().drop_last() =~= O.outbox.ios());
        let m = self.outbox.ios().last()->Write_1->CFHeaders_0;
        assert(m.filter_hashes@ =~= Seq::new((stop_height - msg.start_height + 1) as nat, |i: int| s[msg.start_height + i].0));
    }
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn rollback
//@ props: C09 C11
//@ subst: Height::max( =>> max64(
//@ spec:
    requires old(self).filters.ok(), height < 0x200_0000_0000_0000,
        forall|h: Height| #[trigger] old(self).rescan.received@.contains_key(h) ==> h < old(self).filters.fs().len(),
    ensures
        old(self).filters.reliable() ==> final(self).filters.reliable() && r.is_ok(),
        // what was right for a chain is right for the part of it that is kept
        r.is_ok() ==> forall|b: Seq<BlockHash>| #[trigger] old(self).wf(b) && height < b.len() ==> final(self).wf(b.take(height + 1)),
        r.is_ok() ==> final(self).filters.fs() == (if height + 1 < old(self).filters.fs().len() { old(self).filters.fs().take(height + 1) } else { old(self).filters.fs() }),
        // unmatched filters of reverted blocks are forgotten, and the scan goes back to the fork, but not before its start
        forall|h: Height| #[trigger] final(self).rescan.received@.contains_key(h) <==> old(self).rescan.received@.contains_key(h) && h <= height,
        r.is_ok() ==> final(self).rescan.current == (if old(self).rescan.active && height + 1 < old(self).filters.fs().len() && old(self).rescan.current > height + 1 { if height + 1 >= old(self).rescan.start { (height + 1) as u64 } else { old(self).rescan.start } } else { old(self).rescan.current }),
        final(self).rescan == (Rescan { current: final(self).rescan.current, cache: final(self).rescan.cache, received: final(self).rescan.received, ..old(self).rescan }),
        *final(self) == (FilterManager { rescan: final(self).rescan, filters: final(self).filters, ..*old(self) }),
//@ entry:
    proof { self.filters.lemma_ok(); }
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn peer_negotiated
//@ props: C09 C11
//@ subst: REQUIRED_SERVICES =>> required_services()
//@ spec:
    requires old(self).wf(tree.bc())
    ensures final(self).wf(tree.bc()), final(self).rescan.same_scan(old(self).rescan), final(self).filters == old(self).filters, final(self).pending_blocks == old(self).pending_blocks,
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.drs() == old(self).outbox.drs(),
        final(self).peers@.dom() == (if link is Outbound && has_services(services, cbf_services()) { old(self).peers@.dom().insert(addr) } else { old(self).peers@.dom() }),
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn idle
//@ props: C09 C11
//@ subst: self.last_idle.unwrap_or_default() =>> self.last_idle.unwrap_or(LocalTime { millis: 0 })
//@ spec:
    requires old(self).wf(tree.bc())
    ensures final(self).wf(tree.bc()), final(self).rescan.same_scan(old(self).rescan), final(self).filters == old(self).filters, final(self).pending_blocks == old(self).pending_blocks, final(self).peers == old(self).peers,
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.drs() == old(self).outbox.drs(),
//@ entry:
    broadcast use lemma_push;
//@@ end
    pub open spec fn took(&self, o: Self, h: Height, e: Event, bc: Seq<BlockHash>, found: Seq<(Height, BlockHash)>) -> bool {
        if !o.rescan.requested@.contains(h) { found.len() == 0 && self.outbox.evs() == o.outbox.evs().push(e) && self.rescan.same_scan(o.rescan) && self.rescan.received@ == o.rescan.received@ }
        else { exists|m: Rescan, n: int| #[trigger] m.scanned(n, self.rescan, o.outbox.evs().push(e), self.outbox.evs(), found) && m.same_scan(o.rescan) && m.good(o.filters.fs(), bc) && m.received@.dom() == o.rescan.received@.dom().insert(h) }
    }
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn received_cfilter
//@ props: C11
//@ subst: Ok(Vec::default()) =>> Ok(Vec::new())
//@ spec:
    requires old(self).wf(tree.bc())
    ensures
        final(self).wf(tree.bc()), final(self).filters == old(self).filters, final(self).pending_blocks == old(self).pending_blocks, final(self).peers == old(self).peers, final(self).inflight == old(self).inflight,
        final(self).outbox.wrs() == old(self).outbox.wrs(), final(self).outbox.drs() == old(self).outbox.drs(),
        // taken if and only if it is the filter the header chain commits to for an active block
        r.is_ok() == (msg.filter_type == 0 && exists|h: Height| #[trigger] tree.bc()[h as int] == msg.block_hash && h < tree.bc().len() && auth(filter_of(msg.filter@), old(self).filters.fs(), h)),
        r.is_err() ==> *final(self) == *old(self),
        r is Err && r->Err_0 is InvalidMessage ==> r->Err_0->InvalidMessage_from == *from && msg.filter_type == 0 && tree.bc().contains(msg.block_hash),
        r is Err ==> !(r->Err_0 is Filters),
        r.is_ok() ==> exists|h: Height| h < tree.bc().len() && #[trigger] tree.bc()[h as int] == msg.block_hash && final(self).took(*old(self), h, Event::FilterReceived { from: *from, filter: filter_of(msg.filter@), height: h, block: msg.block_hash }, tree.bc(), r->Ok_0@),
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
    let ghost bc = tree.bc();
    let ghost s = self.filters.fs();
    proof { self.filters.lemma_ok(); tree.lemma_bc(); }
//@ before `if self.rescan.received(`:
    let ghost E = self.outbox.evs();
//@ before `let (matches, events, processed)`:
    let ghost m = self.rescan;
    proof { assert(m.good(s, bc)); }
//@ loop 0 it=it:
    invariant
        it.seq() == EV,
        *self == (FilterManager { outbox: self.outbox, rescan: self.rescan, ..O }), self.rescan == P,
        self.outbox.evs() == E + EV.take(it.index@), self.outbox.wrs() == O.outbox.wrs(), self.outbox.drs() == O.outbox.drs(),
//@ loop_before 0:
    let ghost EV = events@;
    let ghost P = self.rescan;
    proof { assert(E + EV.take(0) =~= E); }
//@ loop_start 0:
    broadcast use lemma_push;
    proof { assert(EV.take(it.index@ + 1) =~= EV.take(it.index@).push(EV[it.index@])); assert(E + EV.take(it.index@ + 1) =~= (E + EV.take(it.index@)).push(EV[it.index@])); }
//@ loop_after 0:
    proof { assert(EV.take(EV.len() as int) =~= EV); }
//@ before `return Ok(matches)`:
    proof {
        assert(E == O.outbox.evs().push(Event::FilterReceived { from, filter: filter_of(msg.filter@), height, block: msg.block_hash }));
        assert(m.same_scan(O.rescan)); assert(m.received@.dom() == O.rescan.received@.dom().insert(height));
        assert(m.scanned(processed as int, self.rescan, E, self.outbox.evs(), matches@));
        assert(self.took(O, height, Event::FilterReceived { from, filter: filter_of(msg.filter@), height, block: msg.block_hash }, bc, matches@)); }
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn watch
//@ props: C11
//@ spec:
    ensures final(self).rescan.watch@ == old(self).rescan.watch@.union(scripts@.to_set()), *final(self) == (FilterManager { rescan: Rescan { watch: final(self).rescan.watch, ..old(self).rescan }, ..*old(self) })
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn watch_transaction
//@ props: C11
//@ subst: tx.output.iter().map(|o| o.script_pubkey.clone()).collect() =>> out_scripts(tx)
//@ spec:
    ensures watches(final(self).rescan.transactions@, old(self).rescan.transactions@, *tx),
        *final(self) == (FilterManager { rescan: Rescan { transactions: final(self).rescan.transactions, ..old(self).rescan }, ..*old(self) })
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn unwatch_transaction
//@ props: C11
//@ spec:
    ensures final(self).rescan.transactions@ == old(self).rescan.transactions@.remove(*txid),
        *final(self) == (FilterManager { rescan: Rescan { transactions: final(self).rescan.transactions, ..old(self).rescan }, ..*old(self) })
//@@ end
    pub open spec fn started(&self, o: Self, start: int, end: Option<Height>, w: Set<Script>, evs: Seq<Event>, bc: Seq<BlockHash>, found: Seq<(Height, BlockHash)>) -> bool {
        exists|m: Rescan, n: int, f: Seq<(Height, BlockHash)>| #[trigger] m.scanned(n, self.rescan, evs, self.outbox.evs(), f) && m.active && m.current == start && m.good(o.filters.fs(), bc)
            && m.watch@ == w && m.end == end && found == fresh(f, o.pending_blocks@).0 && self.pending_blocks@ == fresh(f, o.pending_blocks@).1
    }
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn rescan
//@ props: C11
//@ subst: Height::min(h, height) =>> min64(h, height)
//@ closure 0: |h: u64| -> (x: u64) ensures x == (if h <= height { h } else { height }) ;; 
//@ subst: start..=stop =>> RangeI::new(start, stop)
//@ subst: vec![] =>> Vec::new()
//@ subst: matches.into_iter().filter(|(height, _)| self.pending_blocks.insert(*height)).collect() =>> let found = filter_insert(matches, &mut self.pending_blocks); proof { assert(m.active && m.good(s, bc) && m.watch@ == watch@.to_set() && m.end == bound_end(END)); assert(m.current == bound_start(START, bc.len() - 1)); assert(found@ == fresh(F, O.pending_blocks@).0); assert(m.scanned(K, self.rescan, E, self.outbox.evs(), F)); assert(self.started(O, bound_start(START, bc.len() - 1), bound_end(END), watch@.to_set(), E, bc, found@)); }  found
//@ spec:
    requires old(self).wf(tree.bc()), start != Bound::<Height>::Excluded(u64::MAX), end != Bound::<Height>::Excluded(0)
    ensures
        final(self).wf(tree.bc()), final(self).filters == old(self).filters, final(self).peers == old(self).peers, final(self).inflight == old(self).inflight,
        final(self).outbox.drs() == old(self).outbox.drs(),
        final(self).rescan.start == bound_start(start, tree.bc().len() - 1), final(self).rescan.end == bound_end(end),
        final(self).rescan.watch@ == watch@.to_set(), final(self).rescan.transactions == old(self).rescan.transactions,
        ({
            let S = bound_start(start, tree.bc().len() - 1); let tip = old(self).filters.fs().len() - 1;
            let E = if bound_end(end).is_some() && bound_end(end).unwrap() <= tip { bound_end(end).unwrap() as int } else { tip };
            let evs = old(self).outbox.evs().push(Event::FilterRescanStarted { start: S as u64, stop: bound_end(end) });
            if watch@.to_set() == Set::<Script>::empty() || S > E {
                r@.len() == 0 && final(self).outbox.evs() == evs && final(self).rescan.active && final(self).rescan.current == S && final(self).pending_blocks == old(self).pending_blocks
                && final(self).rescan.received@ == old(self).rescan.received@
            } else {
                final(self).started(*old(self), S, bound_end(end), watch@.to_set(), evs, tree.bc(), r@)
            }
        }),
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
    let ghost bc = tree.bc();
    let ghost s = self.filters.fs();
    let ghost START = start; let ghost END = end;
    proof { self.filters.lemma_ok(); tree.lemma_bc(); }
//@ before `let (matches, events, _)`:
    let ghost m = self.rescan;
    let ghost E = self.outbox.evs();
    let ghost W = *self;
//@ loop 0 it=it:
    invariant
        it.seq() == EV,
        *self == (FilterManager { outbox: self.outbox, rescan: P, ..W }), 
        self.outbox.evs() == E + EV.take(it.index@), self.outbox.drs() == O.outbox.drs(),
//@ loop_before 0:
    let ghost EV = events@;
    let ghost P = self.rescan;
    proof { assert(E + EV.take(0) =~= E); }
//@ loop_start 0:
    broadcast use lemma_push;
    proof { assert(EV.take(it.index@ + 1) =~= EV.take(it.index@).push(EV[it.index@])); assert(E + EV.take(it.index@ + 1) =~= (E + EV.take(it.index@)).push(EV[it.index@])); }
//@ loop_after 0:
    proof { assert(EV.take(EV.len() as int) =~= EV); }
    let ghost F = matches@;
    let ghost K = (P.current - m.current) as int;
    proof { assert(E == O.outbox.evs().push(Event::FilterRescanStarted { start: bound_start(START, bc.len() - 1) as u64, stop: bound_end(END) })); assert(m.scanned(K, self.rescan, E, self.outbox.evs(), F)); }
//@@ end
    /// a filter message: what matching found is fetched, once
    pub open spec fn after_cfilter(&self, o: Self, t: Self, found: Seq<(Height, BlockHash)>, f0: Seq<BlockHash>, f1: Seq<BlockHash>) -> bool {
        &&& self.rescan == t.rescan && self.filters == o.filters
        &&& self.pending_blocks@ == fresh(found, o.pending_blocks@).1 && f1 == f0 + hashes(fresh(found, o.pending_blocks@).0)
        &&& self.outbox.evs() == (if self.pending_blocks@ == Set::<Height>::empty() { t.outbox.evs().push(Event::Scanned { height: t.rescan.current }) } else { t.outbox.evs() })
    }
    pub open spec fn good_cfilter(&self, msg: CFilter, bc: Seq<BlockHash>) -> bool {
        msg.filter_type == 0 && exists|h: Height| #[trigger] bc[h as int] == msg.block_hash && h < bc.len() && auth(filter_of(msg.filter@), self.filters.fs(), h)
    }
    pub open spec fn on_cfilter(&self, o: Self, from: PeerId, msg: CFilter, bc: Seq<BlockHash>, f0: Seq<BlockHash>, f1: Seq<BlockHash>) -> bool {
        if o.good_cfilter(msg, bc) {
            exists|t: Self, found: Seq<(Height, BlockHash)>, h: Height| h < bc.len() && #[trigger] bc[h as int] == msg.block_hash && t.took(o, h, Event::FilterReceived { from, filter: filter_of(msg.filter@), height: h, block: msg.block_hash }, bc, found)
                && #[trigger] self.after_cfilter(o, t, found, f0, f1)
        } else {
            self.rescan == o.rescan && self.pending_blocks == o.pending_blocks && f1 == f0
            && (self.outbox.evs() == o.outbox.evs() || self.outbox.evs() == o.outbox.evs().push(Event::PeerMisbehaved { addr: from, reason: "invalid `cfilter` message" }))
        }
    }
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn received_event
//@ props: C09 C11
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ sig: pub fn received_event<T: BlockReader, B: BlockSource>(&mut self, event: Event, tree: &T, blocks: &mut B, Ghost(b0): Ghost<Seq<BlockHash>>)
//@ subst: message.as_ref() =>> &*message
//@ subst: self.rescan.current.max(height) =>> max64(self.rescan.current, height)
//@ spec:
    requires
        // the state is right for the chain before this event; storage works
        old(self).wf(b0), old(self).filters.reliable(),
        // headers imported: the reported blocks are those that left the chain; otherwise the chain is unchanged
        event is BlockHeadersImported ==> imported(event->BlockHeadersImported_reverted@, b0, tree.bc()),
        !(event is BlockHeadersImported) ==> tree.bc() == b0,
    ensures
        final(self).wf(tree.bc()), final(self).filters.reliable(),
        // [C09] filter headers change by a reorganisation or an acceptable answer only
        final(self).filters.fs() == (match event {
            Event::BlockHeadersImported { reverted, .. } => if reverted@.len() > 0 && reverted@.last().0 < old(self).filters.fs().len() { old(self).filters.fs().take(reverted@.last().0 as int) } else { old(self).filters.fs() },
            Event::MessageReceived { from, message } => match *message {
                NetworkMessage::CFHeaders(msg) => if old(self).acceptable(msg, b0) { old(self).filters.fs() + heads(msg.filter_hashes@, msg.previous_filter_header) } else { old(self).filters.fs() },
                _ => old(self).filters.fs() },
            _ => old(self).filters.fs() }),
        // [C09] nobody is blamed for a stale or unknown answer
        (match event { Event::MessageReceived { from, message } => (match *message { NetworkMessage::CFHeaders(msg) =>
            !(old(self).inflight@.contains_key(msg.stop_hash) && (msg.filter_type != 0 || b0.contains(msg.stop_hash))) ==> final(self).outbox.evs() == old(self).outbox.evs(), _ => true }), _ => true }),
        // [C11] a fetched block that was matched is reported, once
        event is BlockProcessed ==> ({
            let h = event->BlockProcessed_height;
            final(self).rescan == old(self).rescan && final(self).pending_blocks@ == old(self).pending_blocks@.remove(h)
            && final(self).outbox.evs() == (if old(self).pending_blocks@.contains(h) {
                old(self).outbox.evs().push(Event::BlockMatched { height: h, block: event->BlockProcessed_block })
                    .push(Event::Scanned { height: if final(self).pending_blocks@ == Set::<Height>::empty() && old(self).rescan.current >= h { old(self).rescan.current } else { h } })
            } else { old(self).outbox.evs() }) }),
        // [C11] a block that left the chain is not waited for
        event is BlockDisconnected ==> final(self).rescan == old(self).rescan && final(self).pending_blocks@ == old(self).pending_blocks@.remove(event->BlockDisconnected_height) && final(self).outbox == old(self).outbox,
        // [C11] filters
        (match event { Event::MessageReceived { from, message } => (match *message { NetworkMessage::CFilter(msg) =>
            final(self).on_cfilter(*old(self), from, msg, b0, old(blocks).fetched(), final(blocks).fetched()), _ => true }), _ => true }),
        // [C11] nothing else touches the scan, except a reorganisation and the list of watched transactions
        !(event is BlockProcessed || event is BlockDisconnected || (event is MessageReceived && *(event->MessageReceived_message) is CFilter)) ==> final(self).pending_blocks == old(self).pending_blocks && final(blocks).fetched() == old(blocks).fetched(),
        !(event is BlockHeadersImported || event is TxStatusChanged || (event is MessageReceived && *(event->MessageReceived_message) is CFilter)) ==> final(self).rescan.same_scan(old(self).rescan),
        // [C11] a confirmed transaction is no longer watched, a reverted one is watched again
        event is TxStatusChanged ==> *final(self) == (FilterManager { rescan: Rescan { transactions: final(self).rescan.transactions, ..old(self).rescan }, ..*old(self) }) && (match event->TxStatusChanged_status {
            TxStatus::Confirmed { .. } => final(self).rescan.transactions@ == old(self).rescan.transactions@.remove(event->TxStatusChanged_txid),
            TxStatus::Reverted { transaction } => watches(final(self).rescan.transactions@, old(self).rescan.transactions@, transaction),
            _ => final(self).rescan.transactions@ == old(self).rescan.transactions@ }),
        event is BlockHeadersImported ==> final(self).rescan.current == ({
            let rev = event->BlockHeadersImported_reverted@; let h = rev.last().0; let o = old(self).rescan;
            if rev.len() > 0 && o.active && h < old(self).filters.fs().len() && o.current > h { if h >= o.start { h } else { o.start } } else { o.current } }),
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
    let ghost bc = tree.bc();
    let ghost EV0 = event; let ghost mut T = *self; let ghost mut G = Seq::<(Height, BlockHash)>::empty();
    proof { self.filters.lemma_ok(); tree.lemma_bc(); }
//@ exit:
    proof { if EV0 is MessageReceived && msg_of(EV0) is CFilter {
        let msg = (msg_of(EV0))->CFilter_0; let from = EV0->MessageReceived_from;
        if O.good_cfilter(msg, b0) {
            assert(self.after_cfilter(O, T, G, old(blocks).fetched(), blocks.fetched()));
            let e = |h: Height| Event::FilterReceived { from, filter: filter_of(msg.filter@), height: h, block: msg.block_hash };
            let h = choose|h: Height| h < bc.len() && #[trigger] bc[h as int] == msg.block_hash && T.took(O, h, e(h), bc, G);
            assert(h < bc.len() && bc[h as int] == msg.block_hash && T.took(O, h, e(h), bc, G));
            assert(self.on_cfilter(O, from, msg, b0, old(blocks).fetched(), blocks.fetched()));
        } else { assert(self.on_cfilter(O, from, msg, b0, old(blocks).fetched(), blocks.fetched())); }
    } }
//@ loop 0 it=it:
    invariant
        it.seq() == MM, *self == (FilterManager { pending_blocks: self.pending_blocks, ..Q }),
        self.pending_blocks@ == fresh(MM.take(it.index@), O.pending_blocks@).1,
        blocks.fetched() == F0 + hashes(fresh(MM.take(it.index@), O.pending_blocks@).0),
//@ loop_before 0:
    let ghost MM = matches@;
    let ghost Q = *self;
    let ghost F0 = blocks.fetched();
    proof { T = *self; G = MM; }
    proof { assert(MM.take(0) =~= Seq::<(Height, BlockHash)>::empty()); assert(F0 + hashes(fresh(MM.take(0), O.pending_blocks@).0) =~= F0); }
//@ loop_start 0:
    let ghost K = it.index@;
    let ghost f1 = blocks.fetched();
    proof {
        let a = MM.take(K + 1);
        assert(a.drop_last() =~= MM.take(K));
        let r = fresh(MM.take(K), O.pending_blocks@).0;
        assert(F0 + hashes(r.push(MM[K])) =~= (F0 + hashes(r)).push(MM[K].1));
    }
//@ loop_after 0:
    proof { assert(MM.take(MM.len() as int) =~= MM); }
//@@ end
//@@ fn p2p/src/fsm/cbfmgr.rs | impl FilterManager / fn timer_expired
//@ props: C09 C11
//@ subst: for (stop_hash, (start_height, addr, expiry)) in &mut self.inflight { =>> for stop_hash in self.inflight.keys_vec() { let (start_height, addr, expiry) = self.inflight.entry_of(&stop_hash);
//@ subst: now >= *expiry =>> now >= expiry
//@ subst: (*start_height, *stop_hash) =>> (start_height, stop_hash)
//@ subst: a != *addr =>> a != addr
//@ subst: self.peers.remove(addr) =>> self.peers.remove(&addr)
//@ subst: disconnect(*addr, =>> disconnect(addr,
//@ subst: *addr = a; *expiry = now + timeout; =>> self.inflight.insert(stop_hash, (start_height, a, now + timeout));
//@ subst: self.last_processed.unwrap_or_default() =>> self.last_processed.unwrap_or(LocalTime { millis: 0 })
//@ subst: self.rescan.current..=self.filters.height() =>> RangeI::new(self.rescan.current, self.filters.height())
//@ spec:
    requires old(self).wf(tree.bc())
    ensures
        // [C09 C11] the timer changes no filter header and no progress of the scan
        final(self).wf(tree.bc()), final(self).filters == old(self).filters, final(self).pending_blocks == old(self).pending_blocks,
        final(self).rescan.same_scan(old(self).rescan), final(self).outbox.evs() == old(self).outbox.evs(),
//@ entry:
    broadcast use lemma_push;
    let ghost bc = tree.bc();
//@ loop 0 it=it:
    invariant
        forall|i: int| 0 <= i < it.seq().len() ==> self.inflight@.contains_key(#[trigger] it.seq()[i]),
        *self == (FilterManager { inflight: self.inflight, peers: self.peers, outbox: self.outbox, ..M }), self.outbox.evs() == M.outbox.evs(), self.outbox.evs() == old(self).outbox.evs(), now.ms() <= 0x1_0000_0000_0000_0000, timeout.ms() <= 0x1_0000_0000_0000_0000,
//@ loop_before 0:
    let ghost M = *self;
//@ loop_start 0:
    broadcast use lemma_push;
//@@ end
}
} // verus!
fn main() {}
