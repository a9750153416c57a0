// p2p/src/fsm/syncmgr.rs: header synchronisation
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_set.rs
//@@ include shim_keys.rs
//@@ include shim_book.rs
//@@ include shim_it.rs
impl<T> It<T> {
    /// `find(f)`: the first for which `f` holds
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],))
        ensures match r {
            Some(x) => self@.contains(x) && f.ensures((&x,), true),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false) }
    { unimplemented!() }
    /// `v.iter()` of a list of references
    #[verifier::external_body]
    pub fn over(v: &Vec<T>) -> (r: It<T>) ensures r@ == v@ { unimplemented!() }
}
impl<T> NonEmpty<T> {
    /// `iter().cloned()`, materialised
    #[verifier::external_body]
    pub fn iter_cloned(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    /// `into_iter()`, materialised
    #[verifier::external_body]
    pub fn into_list(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl It<u64> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<u64>)
        ensures r.is_some() == (self@.len() > 0), r.is_some() ==> self@.contains(r.unwrap()) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] <= r.unwrap() { unimplemented!() }
}
impl<K, V> AddressBook<K, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r.is_some() == self@.contains_key(*k), r.is_some() ==> *r.unwrap() == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<(&K, &V)>)
        ensures exists|ks: Seq<K>| #[trigger] lists(ks, self@) && ks.len() == r@.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] r@[i]).0 == ks[i] && *r@[i].1 == self@[ks[i]]
    { unimplemented!() }
    /// the entries in random order
    #[verifier::external_body]
    pub fn shuffled(&self) -> (r: It<(&K, &V)>)
        ensures exists|ks: Seq<K>| #[trigger] lists(ks, self@) && ks.len() == r@.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] r@[i]).0 == ks[i] && *r@[i].1 == self@[ks[i]]
    { unimplemented!() }
    /// `for (k, v) in &book`
    #[verifier::external_body]
    pub fn entries(&self) -> (r: (Vec<(&K, &V)>, Ghost<Seq<K>>))
        ensures lists(r.1@, self@), r.1@.len() == r.0@.len(), forall|i: int| 0 <= i < r.1@.len() ==> *(#[trigger] r.0@[i]).0 == r.1@[i] && *r.0@[i].1 == self@[r.1@[i]]
    { unimplemented!() }
}
}
use dep::*;
//@@ include shim_time.rs
impl vstd::std_specs::ops::SubSpecImpl<LocalDuration> for LocalTime {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: LocalDuration) -> bool { self.ms() >= o.ms() }
    open spec fn sub_spec(self, o: LocalDuration) -> LocalTime { LocalTime { millis: (self.ms() - o.ms()) as u128 } }
}
impl std::ops::Sub<LocalDuration> for LocalTime {
    type Output = LocalTime;
//@@ fn net/src/time.rs | impl std :: ops :: Sub for LocalTime / fn sub #1
//@@ end
}
impl LocalTime {
    /// common/src/block/time.rs: seconds
    pub fn from_block_time(t: u32) -> (r: LocalTime) ensures r.ms() == t * 1000 { LocalTime::from_secs(t as u64) }
    pub fn default() -> (r: LocalTime) ensures r.ms() == 0 { LocalTime { millis: 0 } }
}
pub struct BlockFilter {}
#[derive(Copy, Clone)]
pub struct FilterHash { pub x: u64 }
#[derive(Copy, Clone)]
pub struct FilterHeader { pub x: u64 }
//@@ include shim_fsm.rs
//@@ include shim_out.rs
impl Clone for GetHeaders { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// `locators.clone()`
#[verifier::external_body]
pub fn clone_locs(l: &Locators) -> (r: Locators) ensures r == *l { unimplemented!() }
/// `locators.clone()` of a list of hashes
#[verifier::external_body]
pub fn clone_hashes(l: &Vec<BlockHash>) -> (r: Vec<BlockHash>) ensures r == *l { unimplemented!() }
/// `reverted.clone()`
#[verifier::external_body]
pub fn clone_list(l: &Vec<(Height, BlockHeader)>) -> (r: Vec<(Height, BlockHeader)>) ensures r == *l { unimplemented!() }
#[verifier::external_body]
pub fn same_hashes(a: &Vec<BlockHash>, b: &Vec<BlockHash>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn same_locs(a: &Locators, b: &Locators) -> (r: bool) ensures r == (a.0@ == b.0@ && a.1 == b.1) { unimplemented!() }
/// std's Option adaptors
pub trait OptX<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn map_or_x<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.opt() is Some ==> f.requires((self.opt()->0,))
        ensures match self.opt() { Some(x) => f.ensures((x,), r), None => r == d };
    fn unwrap_or_else_x<F: FnOnce() -> T>(self, f: F) -> (r: T)
        requires self.opt() is None ==> f.requires(())
        ensures match self.opt() { Some(x) => r == x, None => f.ensures((), r) };
    fn or_else_x<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.opt() is None ==> f.requires(())
        ensures match self.opt() { Some(x) => r == Some(x), None => f.ensures((), r) };
    fn and_then_x<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.opt() is Some ==> f.requires((self.opt()->0,))
        ensures match self.opt() { Some(x) => f.ensures((x,), r), None => r is None };
}
impl<T> OptX<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn map_or_x<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { match self { Some(x) => f(x), None => d } }
    fn unwrap_or_else_x<F: FnOnce() -> T>(self, f: F) -> (r: T) { match self { Some(x) => x, None => f() } }
    fn or_else_x<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { match self { Some(x) => Some(x), None => f() } }
    fn and_then_x<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { match self { Some(x) => f(x), None => None } }
}
/// `map.values().any(f)`
#[verifier::external_body]
pub fn any_value<K, V, F: Fn(&V) -> bool>(m: &HashMap<K, V>, f: F) -> (r: bool)
    requires forall|k: K| #[trigger] m@.contains_key(k) ==> f.requires((&m@[k],))
    ensures
        r ==> exists|k: K| #[trigger] m@.contains_key(k) && f.ensures((&m@[k],), true),
        !r ==> forall|k: K| #[trigger] m@.contains_key(k) ==> f.ensures((&m@[k],), false),
{ unimplemented!() }
/// comparison of what was asked with something to ask
#[verifier::external_body]
pub fn asked_same(a: Option<&Locators>, b: &Locators) -> (r: bool) ensures r == (a is Some && (a->0).0@ == b.0@ && (a->0).1 == b.1) { unimplemented!() }
pub uninterp spec fn zeros() -> BlockHash;
impl BlockHash { #[verifier::external_body] pub fn all_zeros() -> (r: Self) ensures r == zeros() { unimplemented!() } }
#[verifier::external_body]
pub struct Target { x: u64 }
pub type BlockTime = u32;
pub mod store { pub struct Error {} }
//@@ enum common/src/block/tree.rs | enum Error
//@ subst: std::cmp::Ordering =>> core::cmp::Ordering
//@@ end
//@@ enum common/src/block/tree.rs | enum ImportResult
//@@ end
pub trait BlockTree: BlockReader {
    /// what importing headers does to the chain is the business of properties C01 to C05
    spec fn imports(o: Self, s: Self, hs: Seq<BlockHeader>, now: LocalTime, r: Result<ImportResult, Error>) -> bool;
    fn import_blocks<C: Clock>(&mut self, chain: Vec<BlockHeader>, context: &C) -> (r: Result<ImportResult, Error>)
        ensures Self::imports(*old(self), *final(self), chain@, context.now(), r),
            r is Ok && r->Ok_0 is TipUnchanged ==> final(self).bc() == old(self).bc(),
            r is Ok && r->Ok_0 is TipChanged ==> final(self).bc().last() == r->Ok_0->TipChanged_hash && r->Ok_0->TipChanged_height == final(self).bc().len() - 1;
}
pub struct Params { pub pow_target_spacing: u64 }
//@@ const p2p/src/fsm/syncmgr.rs | const REQUEST_TIMEOUT
//@ spec: ensures REQUEST_TIMEOUT.ms() == 30000
//@@ end
//@@ const p2p/src/fsm/syncmgr.rs | const TIP_STALE_DURATION
//@ spec: ensures TIP_STALE_DURATION.ms() == 7200000
//@@ end
//@@ const p2p/src/fsm/syncmgr.rs | const MAX_MESSAGE_HEADERS
//@@ end
//@@ const p2p/src/fsm/syncmgr.rs | const MAX_MESSAGE_INVS
//@@ end
pub const IDLE_TIMEOUT: LocalDuration = LocalDuration(600000);
//@@ const p2p/src/fsm/syncmgr.rs | const MAX_UNSOLICITED_HEADERS
//@@ end
//@@ const p2p/src/fsm/syncmgr.rs | const PEER_SAMPLE_INTERVAL
//@ spec: ensures PEER_SAMPLE_INTERVAL.ms() == 3600000
//@@ end
pub const REQUIRED_SERVICES: ServiceFlags = ServiceFlags::NETWORK;
//@@ enum p2p/src/fsm/syncmgr.rs | enum OnTimeout
//@ attr: #[derive(Copy, Clone)]
//@@ end
//@@ struct p2p/src/fsm/syncmgr.rs | struct Peer
//@@ end
//@@ struct p2p/src/fsm/syncmgr.rs | struct Config
//@@ end
//@@ struct p2p/src/fsm/syncmgr.rs | struct GetHeaders
//@@ end
//@@ struct p2p/src/fsm/syncmgr.rs | struct SyncManager
//@@ end
/// the value of a map, if any
pub open spec fn at<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// time passed (none if the clock went back)
pub open spec fn since(now: LocalTime, t: Option<LocalTime>) -> int { let t = (match t { Some(t) => t.ms(), None => 0 }); if now.ms() >= t { now.ms() - t } else { 0 } }
pub open spec fn ask(version: u32, l: Locators) -> NetworkMessage { NetworkMessage::GetHeaders(GetHeadersMessage { version, locator_hashes: l.0, stop_hash: l.1 }) }
/// the greatest height of the peers
pub open spec fn is_best(m: Map<PeerId, Peer>, h: Option<Height>) -> bool {
    match h {
        Some(h) => (exists|k: PeerId| #[trigger] m.contains_key(k) && m[k].height == h) && forall|k: PeerId| #[trigger] m.contains_key(k) ==> m[k].height <= h,
        None => m =~= Map::<PeerId, Peer>::empty() }
}
/// `P` are the entries of the map
pub open spec fn entries_of(m: Map<PeerId, Peer>, P: Seq<(&PeerId, &Peer)>) -> bool {
    exists|ks: Seq<PeerId>| #[trigger] lists(ks, m) && ks.len() == P.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] P[i]).0 == ks[i] && *P[i].1 == m[ks[i]]
}
pub proof fn lemma_entries(m: Map<PeerId, Peer>, P: Seq<(&PeerId, &Peer)>)
    requires entries_of(m, P)
    ensures forall|i: int| 0 <= i < P.len() ==> m.contains_key(*(#[trigger] P[i]).0) && m[*P[i].0] == *P[i].1,
        forall|k: PeerId| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < P.len() && *(#[trigger] P[i]).0 == k && *P[i].1 == m[k],
{
    let ks = choose|ks: Seq<PeerId>| #[trigger] lists(ks, m) && ks.len() == P.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] P[i]).0 == ks[i] && *P[i].1 == m[ks[i]];
    assert forall|i: int| 0 <= i < P.len() implies m.contains_key(*(#[trigger] P[i]).0) && m[*P[i].0] == *P[i].1 by { assert(ks.to_set().contains(ks[i])); }
    assert forall|k: PeerId| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < P.len() && *(#[trigger] P[i]).0 == k && *P[i].1 == m[k] by {
        assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(*P[i].0 == k); }
}
pub proof fn lemma_best(m: Map<PeerId, Peer>, P: Seq<(&PeerId, &Peer)>, H: Seq<Height>, b: Option<Height>)
    requires entries_of(m, P), H.len() == P.len(), forall|i: int| 0 <= i < H.len() ==> #[trigger] H[i] == P[i].1.height,
        b.is_some() == (H.len() > 0), b.is_some() ==> H.contains(b.unwrap()) && forall|i: int| 0 <= i < H.len() ==> #[trigger] H[i] <= b.unwrap()
    ensures is_best(m, b)
{
    lemma_entries(m, P);
    if let Some(h) = b {
        let i = choose|i: int| 0 <= i < H.len() && H[i] == h; assert(m.contains_key(*P[i].0));
        assert forall|k: PeerId| #[trigger] m.contains_key(k) implies m[k].height <= h by { let i = choose|i: int| 0 <= i < P.len() && *(#[trigger] P[i]).0 == k && *P[i].1 == m[k]; assert(H[i] <= h); }
    }
}
impl<C: Clock> SyncManager<C> {
    /// what cannot change
    pub open spec fn frame(&self, o: Self) -> bool { self.clock == o.clock && self.config == o.config && self.outbox.version == o.outbox.version }
    /// nothing but outputs
    pub open spec fn same(&self, o: Self) -> bool { self.frame(o) && self.peers@ == o.peers@ && self.inflight@ == o.inflight@ && self.last_tip_update == o.last_tip_update && self.last_peer_sample == o.last_peer_sample && self.last_idle == o.last_idle }
    pub open spec fn silent(&self, o: Self) -> bool { self.same(o) && self.outbox.ios() == o.outbox.ios() }
    /// times are times of day, spacing is one of the networks'
    pub open spec fn sane(&self) -> bool { self.clock.now().ms() >= 7200000 && self.clock.now().ms() >= self.config.params.pow_target_spacing * 3000 && self.config.params.pow_target_spacing <= 0x1000_0000 }
    /// requests are out with known peers only
    pub open spec fn wf(&self) -> bool {
        &&& self.sane()
        &&& forall|k: PeerId| #[trigger] self.inflight@.contains_key(k) ==> self.peers@.contains_key(k)
        &&& forall|k: PeerId| #[trigger] self.inflight@.contains_key(k) ==> (self.inflight@[k].on_timeout is Retry ==> self.inflight@[k].on_timeout->Retry_0 <= 3)
    }
    /// asked peer `a` for headers, unless it is gone or already asked
    pub open spec fn requested(&self, o: Self, a: PeerId, l: Locators, timeout: LocalDuration, ot: OnTimeout) -> bool {
        if o.inflight@.contains_key(a) || !o.peers@.contains_key(a) { self.silent(o) } else {
            &&& self.frame(o) && self.last_tip_update == o.last_tip_update && self.last_peer_sample == o.last_peer_sample && self.last_idle == o.last_idle
            &&& self.inflight@ == o.inflight@.insert(a, GetHeaders { locators: l, sent_at: o.clock.now(), on_timeout: ot })
            &&& self.peers@ == o.peers@.insert(a, Peer { last_asked: Some(l), ..o.peers@[a] })
            &&& self.outbox.ios() == o.outbox.ios().push(Io::Write(a, ask(o.outbox.version, l))).push(Io::SetTimer(timeout))
        }
    }
    pub open spec fn candidate(&self, a: PeerId, p: Peer, l: Seq<BlockHash>) -> bool {
        !self.inflight@.contains_key(a) && p.link is Outbound && (p.last_asked is Some ==> (p.last_asked->0).0@ != l)
    }
    pub open spec fn stale<T: BlockReader>(&self, tree: T) -> bool {
        ||| self.last_tip_update is Some && (self.last_tip_update->0).ms() < self.clock.now().ms() - self.config.params.pow_target_spacing * 3000
        ||| tree.tip_header().time * 1000 <= self.clock.now().ms() - 7200000
    }
    pub open spec fn synced<T: BlockReader>(&self, tree: T) -> bool {
        !self.stale(tree) && exists|h: Height| #[trigger] is_best(self.peers@, Some(h)) && tree.bc().len() - 1 >= h
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn is_syncing
//@ props: C16
//@ spec:
    ensures r == (self.inflight@ != Map::<PeerId, GetHeaders>::empty())
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn record_misbehavior
//@ props: C16
//@ spec:
    ensures final(self).same(*old(self)), final(self).outbox.ios() == old(self).outbox.ios().push(Io::Event(Event::PeerMisbehaved { addr: *addr, reason }))
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn register
//@ props: C16
//@ spec:
    ensures final(self).frame(*old(self)), final(self).peers@ == old(self).peers@.insert(addr, Peer { height, tip: zeros(), link, preferred, last_active: None, last_asked: None }), final(self).same(SyncManager { peers: final(self).peers, ..*old(self) }),
        final(self).outbox == old(self).outbox
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn unregister
//@ props: C16
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).frame(*old(self)), final(self).peers@ == old(self).peers@.remove(*id), final(self).inflight@ == old(self).inflight@.remove(*id), final(self).outbox == old(self).outbox,
        final(self).same(SyncManager { peers: final(self).peers, inflight: final(self).inflight, ..*old(self) })
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn request
//@ props: C16
//@ subst: locators.clone() =>> clone_locs(&locators)
//@ spec:
    ensures final(self).requested(*old(self), addr, locators, timeout, on_timeout)
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn best_height
//@ props: C16
//@ subst: self.peers.iter().map( =>> let ps = self.peers.iter(); let ghost P = ps@; let hs = ps.map(
//@ subst: .max() =>> ; let ghost H = hs@; let best = hs.max(); proof { lemma_best(self.peers@, P, H, best); } best
//@ closure 0: |e: (&PeerId, &Peer)| -> (h: Height) ensures h == e.1.height ;; let (_, p) = e;
//@ spec:
    ensures is_best(self.peers@, r)
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn is_request_candidate
//@ props: C16
//@ sigsubst: &[BlockHash] =>> &Vec<BlockHash>
//@ subst: .map_or( =>> .map_or_x(
//@ subst: l.0 != locators =>> !same_hashes(&l.0, locators)
//@ closure 0: |l: &Locators| -> (b: bool) ensures b == (l.0@ != locators@)
//@ spec:
    ensures r == self.candidate(*addr, *peer, locators@)
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn stale_tip
//@ props: C16
//@ spec:
    requires self.sane()
    ensures r.is_some() == self.stale(*tree)
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn is_synced
//@ props: C16
//@ spec:
    requires old(self).sane()
    ensures r == old(self).synced(*tree), *final(self) == *old(self)
//@ entry:
    proof { tree.lemma_bc(); }
//@@ end

    pub open spec fn asking(&self, l: Seq<BlockHash>, stop: BlockHash) -> bool { exists|k: PeerId| #[trigger] self.inflight@.contains_key(k) && self.inflight@[k].locators.0@ == l && self.inflight@[k].locators.1 == stop }
    /// a peer that can be asked and is ahead
    pub open spec fn good(&self, a: PeerId, l: Seq<BlockHash>, h: int) -> bool { self.peers@.contains_key(a) && self.candidate(a, self.peers@[a], l) && self.peers@[a].preferred && self.peers@[a].height > h }
    pub open spec fn ahead(&self, h: int) -> bool { exists|k: PeerId| #[trigger] self.peers@.contains_key(k) && self.peers@[k].height > h }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn syncing
//@ props: C16
//@ subst: self.inflight.values().any( =>> any_value(&self.inflight,
//@ subst: &r.locators == locators =>> same_locs(&r.locators, locators)
//@ closure 0: |r: &GetHeaders| -> (b: bool) ensures b == (r.locators.0@ == locators.0@ && r.locators.1 == locators.1)
//@ spec:
    ensures r == self.asking(locators.0@, locators.1)
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn preferred_peer
//@ props: C16
//@ subst: let peers: Vec<_> = self.peers.shuffled().collect(); =>> let ps = self.peers.shuffled(); let ghost P = ps@; let peers: Vec<(&PeerId, &Peer)> = ps.collect(); proof { lemma_entries(self.peers@, P); }
//@ subst: peers.iter().filter( =>> let cs = It::over(&peers).filter(
//@ subst: .find(|(_, p)| p.preferred && p.height > height) =>> ; let ghost S = cs@; let ghost I = cs.idx(); let best = cs.find(|e: &(&PeerId, &Peer)| -> (b: bool) ensures b == (e.1.preferred && e.1.height > height) { let (_, p) = *e; p.preferred && p.height > height })
//@ subst: .or_else(|| peers.iter().find(|(_, p)| p.preferred)) =>> ; proof { assert(peers@ == P); assert forall|i: int| 0 <= i < S.len() implies #[trigger] S[i] == P[I[i]] && self.candidate(*P[I[i]].0, *P[I[i]].1, locators@) by { assert(S[i] == peers@[I[i]]); assert(self.candidate(*peers@[I[i]].0, *peers@[I[i]].1, locators@)); } lemma_first(*self, P, S, I, locators@, height as int, best); } best.or_else_x(|| -> (o: Option<(&PeerId, &Peer)>) ensures any_preferred(peers@, o) { It::over(&peers).find(|e: &(&PeerId, &Peer)| -> (b: bool) ensures b == e.1.preferred { let (_, p) = *e; p.preferred }) })
//@ subst: .map(|(a, _)| **a) =>> .map(|e: (&PeerId, &Peer)| -> (a: PeerId) ensures a == *e.0 { let (a, _) = e; *a })
//@ closure 0: |e: &(&PeerId, &Peer)| -> (b: bool) ensures b == self.candidate(*e.0, *e.1, locators@) ;; let (a, p) = *e;
//@ spec:
    ensures
        r.is_some() ==> self.peers@.contains_key(r.unwrap()) && self.peers@[r.unwrap()].preferred,
        r.is_none() ==> forall|k: PeerId| #[trigger] self.peers@.contains_key(k) ==> !self.peers@[k].preferred,
        (exists|k: PeerId| #[trigger] self.good(k, locators.0@, tree.bc().len() - 1)) ==> r.is_some() && self.good(r.unwrap(), locators.0@, tree.bc().len() - 1),
//@@ end
    /// what one attempt to synchronise does
    pub open spec fn tried<T: BlockReader>(&self, o: Self, tree: T, r: bool) -> bool {
        let h = tree.bc().len() - 1;
        if o.peers@ == Map::<PeerId, Peer>::empty() { !r && self.silent(o) }
        else if o.synced(tree) { !r && self.same(o) && self.outbox.ios() == o.outbox.ios().push(Io::Event(Event::BlockHeadersSynced { hash: tree.bc().last(), height: h as u64 })) }
        else if !r { self.silent(o) && (o.asking(tree.locs(), zeros()) || !o.ahead(h) || forall|k: PeerId| #[trigger] o.peers@.contains_key(k) ==> !o.peers@[k].preferred) }
        else { !o.asking(tree.locs(), zeros()) && o.ahead(h) && exists|a: PeerId, l: Locators| #[trigger] self.requested(o, a, l, o.config.request_timeout, OnTimeout::Ignore) && l.0@ == tree.locs() && l.1 == zeros() && o.peers@.contains_key(a)
            && ((exists|k: PeerId| #[trigger] o.good(k, tree.locs(), h)) ==> o.good(a, tree.locs(), h)) }
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn sync
//@ props: C16
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).tried(*old(self), *tree, r)
//@ entry:
    let ghost O = *self;
    proof { tree.lemma_bc(); }
//@ before `return true`:
    proof { assert(self.requested(O, addr, L, O.config.request_timeout, OnTimeout::Ignore)); }
//@ before `if let Some ( addr )`:
    let ghost L = locators;
//@@ end

    /// inbound peers that are behind
    pub open spec fn wants(&self, a: PeerId, h: int) -> bool { self.peers@.contains_key(a) && self.peers@[a].link is Inbound && self.peers@[a].height < h }
    /// outputs: our tip, sent to each inbound peer that is behind
    pub open spec fn announced(&self, o: Self, ks: Seq<PeerId>, hash: BlockHash, h: int) -> bool {
        let n = o.outbox.ios().len();
        &&& self.outbox.ios().len() == n + ks.len() && self.outbox.ios().take(n as int) == o.outbox.ios()
        &&& ks.no_duplicates() && forall|k: PeerId| #[trigger] ks.contains(k) <==> o.wants(k, h)
        &&& forall|i: int| 0 <= i < ks.len() ==> is_tip(#[trigger] self.outbox.ios()[n + i], ks[i], hash)
        &&& self.outbox.evs() == o.outbox.evs() && self.outbox.drs() == o.outbox.drs()
    }
    /// our tip is announced, if `hash` is on our chain
    pub open spec fn told<T: BlockReader>(&self, o: Self, hash: BlockHash, tree: T) -> bool {
        if tree.bc().contains(hash) { self.same(o) && exists|ks: Seq<PeerId>, h: int| 0 <= h < tree.bc().len() && tree.bc()[h] == hash && #[trigger] self.announced(o, ks, hash, h) } else { self.silent(o) }
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn broadcast_tip
//@ props: C16
//@ subst: for (addr, peer) in &*self.peers { =>> let (vs, Ghost(ks)) = self.peers.entries(); let ghost VS = vs@; for (addr, peer) in vs {
//@ subst: peer.link == Link::Inbound =>> peer.link.is_inbound()
//@ spec:
    ensures final(self).told(*old(self), *hash, *tree)
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
//@ loop 0 it=it:
    invariant
        it.seq() == VS, lists(ks, O.peers@), ks.len() == VS.len(), forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] VS[i]).0 == ks[i] && *VS[i].1 == O.peers@[ks[i]],
        self.same(O), tree.bc().contains(*hash), 0 <= height < tree.bc().len(), tree.bc()[height as int] == *hash, best.hash == *hash,
        self.outbox.evs() == O.outbox.evs(), self.outbox.drs() == O.outbox.drs(),
        self.outbox.ios().len() == n + W.len(), self.outbox.ios().take(n as int) == O.outbox.ios(), n == O.outbox.ios().len(),
        forall|i: int| 0 <= i < W.len() ==> is_tip(#[trigger] self.outbox.ios()[n + i], W[i], *hash),
        W.no_duplicates(), forall|j: int| 0 <= j < W.len() ==> ks.take(it.index@ as int).contains(#[trigger] W[j]) && O.wants(W[j], height as int),
        forall|i: int| 0 <= i < it.index@ && O.wants(#[trigger] ks[i], height as int) ==> W.contains(ks[i]),
//@ loop_before 0:
    let ghost mut W = Seq::<PeerId>::empty(); let ghost n = self.outbox.ios().len();
    proof { assert(self.outbox.ios().take(n as int) =~= O.outbox.ios()); }
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost o0 = self.outbox; let ghost ix = it.index@ as int; let ghost W0 = W;
    proof { assert(ks.to_set().contains(ks[ix])); assert(*VS[ix].0 == ks[ix]); assert(ks.take(ix + 1) =~= ks.take(ix).push(ks[ix])); assert(ks.take(ix + 1)[ix] == ks[ix]);
        assert forall|x: PeerId| ks.take(ix).contains(x) implies ks.take(ix + 1).contains(x) && x != ks[ix] by { let j = choose|j: int| 0 <= j < ix && ks.take(ix)[j] == x; assert(ks.take(ix + 1)[j] == x); } }
//@ loop_end 0:
    proof {
        if O.wants(ks[ix], height as int) {
            W = W.push(ks[ix]);
            assert(W[W0.len() as int] == ks[ix]);
            assert(self.outbox.ios().take(n as int) =~= o0.ios().take(n as int));
            assert forall|i: int| 0 <= i < W.len() implies is_tip(#[trigger] self.outbox.ios()[n + i], W[i], *hash) by { if i < W0.len() { assert(self.outbox.ios()[n + i] == o0.ios()[n + i]); } }
            assert forall|i: int| 0 <= i < ix + 1 && O.wants(#[trigger] ks[i], height as int) implies W.contains(ks[i]) by { if i < ix { assert(W0.contains(ks[i])); let j = choose|j: int| 0 <= j < W0.len() && W0[j] == ks[i]; assert(W[j] == ks[i]); } }
        }
    }
//@ loop_after 0:
    proof {
        assert forall|k: PeerId| #[trigger] W.contains(k) <==> O.wants(k, height as int) by { if O.wants(k, height as int) { assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(O.wants(ks[i], height as int)); } }
        assert(self.announced(O, W, *hash, height as int));
    }
//@@ end

    /// what an import reports
    pub open spec fn reported<T: BlockTree>(&self, o: Self, r: Result<ImportResult, Error>, tree: T) -> bool {
        match r {
            Ok(ImportResult::TipChanged { header, hash, height, reverted, connected }) => exists|m: Self| #[trigger] m.same(o) && m.outbox.drs() == o.outbox.drs() && m.outbox.wrs() == o.outbox.wrs()
                && m.outbox.evs() == (o.outbox.evs() + gone(reverted@) + came(connected@)).push(Event::BlockHeadersImported { reorg: reverted@.len() > 0, hash, height, connected, reverted })
                && self.told(m, hash, tree),
            _ => self.silent(o) }
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn import_blocks
//@ props: C16
//@ sig: pub fn import_blocks<T: BlockTree>(&mut self, blocks: Vec<BlockHeader>, tree: &mut T) -> (r: Result<ImportResult, Error>)
//@ subst: reverted.iter().cloned() =>> reverted.iter_cloned()
//@ subst: connected.iter().cloned() =>> connected.iter_cloned()
//@ subst: reverted.clone() =>> clone_list(reverted)
//@ spec:
    ensures T::imports(*old(tree), *final(tree), blocks@, old(self).clock.now(), r), final(self).same(*old(self)), final(self).reported(*old(self), r, *final(tree)),
        r is Ok && r->Ok_0 is TipUnchanged ==> final(tree).bc() == old(tree).bc(),
        r is Ok && r->Ok_0 is TipChanged ==> final(tree).bc().last() == r->Ok_0->TipChanged_hash && r->Ok_0->TipChanged_height == final(tree).bc().len() - 1,
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
//@ loop 0 it=it:
    invariant it.seq() == reverted@, self.same(O), self.outbox.drs() == O.outbox.drs(), self.outbox.wrs() == O.outbox.wrs(), self.outbox.evs() == O.outbox.evs() + gone(reverted@.take(it.index@ as int))
//@ loop_before 0:
    proof { assert(O.outbox.evs() + gone(reverted@.take(0)) =~= O.outbox.evs()); }
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost ix = it.index@ as int;
//@ loop_end 0:
    proof { assert(gone(reverted@.take(ix + 1)) =~= gone(reverted@.take(ix)).push(Event::BlockDisconnected { height, header }));
        assert(O.outbox.evs() + gone(reverted@.take(ix)).push(Event::BlockDisconnected { height, header }) =~= (O.outbox.evs() + gone(reverted@.take(ix))).push(Event::BlockDisconnected { height, header })); }
//@ loop_after 0:
    let ghost E = self.outbox.evs();
    proof { assert(reverted@.take(reverted@.len() as int) =~= reverted@); assert(E == O.outbox.evs() + gone(reverted@)); assert(E + came(connected@.take(0)) =~= E); }
//@ loop 1 it=it2:
    invariant it2.seq() == connected@, self.same(O), self.outbox.drs() == O.outbox.drs(), self.outbox.wrs() == O.outbox.wrs(), self.outbox.evs() == E + came(connected@.take(it2.index@ as int))
//@ loop_start 1:
    broadcast use lemma_push;
    let ghost ix = it2.index@ as int;
//@ loop_end 1:
    proof { assert(came(connected@.take(ix + 1)) =~= came(connected@.take(ix)).push(Event::BlockConnected { height, header }));
        assert(E + came(connected@.take(ix)).push(Event::BlockConnected { height, header }) =~= (E + came(connected@.take(ix))).push(Event::BlockConnected { height, header })); }
//@ loop_after 1:
    broadcast use lemma_push;
    proof { assert(connected@.take(connected@.len() as int) =~= connected@); }
//@ before `self . broadcast_tip`:
    let ghost M = *self;
//@ after `self . broadcast_tip ( hash , tree ) ;`:
    proof { assert(M.same(O)); assert(self.told(M, *hash, *tree)); }
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn received_getheaders
//@ props: C16
//@ sig: pub fn received_getheaders<T: BlockReader>(&mut self, addr: &PeerId, locs: Locators, tree: &T)
//@ entry:
    let (locator_hashes, stop_hash) = locs;
//@ spec:
    ensures final(self).served(*old(self), *addr, locs, *tree)
//@@ end
    /// answers to `getheaders`: from our chain, bounded, and only if we aren't waiting for headers ourselves
    pub open spec fn served<T: BlockReader>(&self, o: Self, addr: PeerId, locs: Locators, tree: T) -> bool {
        let hs = tree.located(locs.0@, locs.1, o.config.max_message_headers as int);
        if o.inflight@ != Map::<PeerId, GetHeaders>::empty() || o.config.max_message_headers == 0 || hs.len() == 0 { self.silent(o) } else {
            self.same(o) && exists|v: Vec<BlockHeader>| #[trigger] v@ == hs && self.outbox.ios() == o.outbox.ios().push(Io::Write(addr, NetworkMessage::Headers(v)))
        }
    }

    /// what an inventory message does
    pub open spec fn invited<T: BlockReader>(&self, o: Self, a: PeerId, inv: Seq<Inventory>, tree: T) -> bool {
        if o.inflight@ != Map::<PeerId, GetHeaders>::empty() || inv.len() > 50000 || !o.peers@.contains_key(a) { self.silent(o) } else {
            exists|m: Self| #[trigger] m.moved(o, a) && m.outbox == o.outbox && (match last_new(inv, tree) {
                None => self.silent(m),
                Some(h) => exists|l: Locators| #[trigger] self.requested(m, a, l, o.config.request_timeout, OnTimeout::Retry(3)) && l.0@ == tree.locs() && l.1 == h })
        }
    }
    /// only the tip, height or time of activity of one known peer changed
    pub open spec fn moved(&self, o: Self, a: PeerId) -> bool {
        &&& self.same(SyncManager { peers: self.peers, ..o })
        &&& o.peers@.contains_key(a) && self.peers@ == o.peers@.insert(a, Peer { tip: self.peers@[a].tip, height: self.peers@[a].height, last_active: self.peers@[a].last_active, ..o.peers@[a] })
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn received_inv
//@ props: C16
//@ sigsubst: &[Inventory] =>> &Vec<Inventory>
//@ subst: for i in inv { =>> for i in inv.iter() {
//@ subst: let mut best_block = None; =>> let mut best_block: Option<&BlockHash> = None;
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).invited(*old(self), addr, inv@, *tree)
//@ entry:
    let ghost O = *self;
    proof { tree.lemma_bc(); }
//@ loop 0 it=it:
    invariant
        it.seq().len() == inv@.len(), forall|j: int| 0 <= j < inv@.len() ==> *(#[trigger] it.seq()[j]) == inv@[j],
        last_new(inv@.take(it.index@ as int), *tree) == (match best_block { Some(h) => Some(*h), None => None::<BlockHash> }),
        *peer == (Peer { tip: peer.tip, ..P0 }),
//@ loop_before 0:
    let ghost P0 = *peer;
    proof { assert(inv@.take(0).len() == 0); }
//@ loop_start 0:
    let ghost ix = it.index@ as int;
    proof { assert(inv@.take(ix + 1).drop_last() =~= inv@.take(ix)); assert(inv@.take(ix + 1).last() == inv@[ix]); assert(*i == inv@[ix]); }
//@ loop_after 0:
    proof { assert(inv@.take(inv@.len() as int) =~= inv@); }
//@ before `if let Some ( stop_hash )`:
    let ghost M = *self;
    proof { assert(M.moved(O, addr)); }
//@ subst: self.request(addr, locators, timeout, OnTimeout::Retry(3)); =>> let ghost L = locators; self.request(addr, locators, timeout, OnTimeout::Retry(3)); proof { assert(self.requested(M, addr, L, O.config.request_timeout, OnTimeout::Retry(3))); }
//@@ end
    pub open spec fn joined<T: BlockReader>(&self, o: Self, a: PeerId, height: Height, services: ServiceFlags, link: Link, tree: T) -> bool {
        if link is Outbound && !has_services(services, ServiceFlags::NETWORK) { self.silent(o) } else {
            exists|m: Self, r: bool| #[trigger] self.tried(m, tree, r) && m.same(SyncManager { peers: m.peers, ..o })
                && m.peers@ == o.peers@.insert(a, Peer { height, tip: zeros(), link, preferred: !has_services(services, ServiceFlags::COMPACT_FILTERS), last_active: None, last_asked: None })
                && (exists|b: Option<Height>| #[trigger] is_best(o.peers@, b) && m.outbox.ios() == (if height > (match b { Some(b) => b as int, None => tree.bc().len() - 1 }) { o.outbox.ios().push(Io::Event(Event::PeerHeightUpdated { height })) } else { o.outbox.ios() }))
        }
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn peer_negotiated
//@ props: C16
//@ subst: self.best_height().unwrap_or_else( =>> ({ let b = self.best_height(); proof { B = b; } b }).unwrap_or_else_x(
//@ closure 0: || -> (h: Height) ensures h == tree.bc().len() - 1
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).joined(*old(self), addr, height, services, link, *tree)
//@ entry:
    let ghost O = *self; let ghost mut B: Option<Height> = None;
//@ subst: self.sync(tree); =>> let ghost M = *self; proof { assert(is_best(O.peers@, B)); } let ok = self.sync(tree); proof { assert(self.tried(M, *tree, ok)); }
//@@ end
    /// asks each candidate whether it has more, once an hour if our tip is stale
    pub open spec fn sampled<T: BlockReader>(&self, o: Self, tree: T) -> bool {
        if since(o.clock.now(), o.last_peer_sample) < 3600000 || !o.stale(tree) { self.silent(o) } else {
            &&& self.frame(o) && self.last_tip_update == o.last_tip_update && self.last_idle == o.last_idle && self.last_peer_sample == Some(o.clock.now())
            &&& exists|ks: Seq<PeerId>, l: Locators| #[trigger] self.asked_all(o, ks, l) && l.0@ == tree.locs() && l.1 == zeros()
                && forall|k: PeerId| #[trigger] ks.contains(k) <==> o.peers@.contains_key(k) && o.candidate(k, o.peers@[k], l.0@)
        }
    }
    /// each of the peers was asked
    pub open spec fn asked_all(&self, o: Self, ks: Seq<PeerId>, l: Locators) -> bool {
        let n = o.outbox.wrs().len();
        &&& ks.no_duplicates() && self.outbox.evs() == o.outbox.evs() && self.outbox.drs() == o.outbox.drs()
        &&& self.outbox.wrs() == o.outbox.wrs() + ks.map_values(|k: PeerId| (k, ask(o.outbox.version, l)))
        &&& forall|k: PeerId| #[trigger] at(self.inflight@, k) == (if ks.contains(k) { Some(GetHeaders { locators: l, sent_at: o.clock.now(), on_timeout: OnTimeout::Ignore }) } else { at(o.inflight@, k) })
        &&& forall|k: PeerId| #[trigger] at(self.peers@, k) == (if ks.contains(k) { Some(Peer { last_asked: Some(l), ..o.peers@[k] }) } else { at(o.peers@, k) })
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn sample_peers
//@ props: C16
//@ subst: .unwrap_or_default() =>> .unwrap_or(LocalTime { millis: 0 })
//@ subst: let addrs = self.peers.iter().filter( =>> let ps = self.peers.iter(); let ghost P = ps@; let cs = ps.filter(
//@ subst: .map(|(a, _)| *a).collect::<Vec<_>>(); =>> ; let ghost S = cs@; let ghost I = cs.idx(); let addrs = cs.map(|e: (&PeerId, &Peer)| -> (a: PeerId) ensures a == *e.0 { let (a, _) = e; *a }).collect();
//@ subst: locators.clone() =>> clone_hashes(&locators)
//@ closure 0: |e: &(&PeerId, &Peer)| -> (b: bool) ensures b == self.candidate(*e.0, *e.1, locators@) ;; let (a, p) = *e;
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).sampled(*old(self), *tree)
//@ entry:
    let ghost O = *self;
    proof { tree.lemma_bc(); }
//@ loop 0 it=it:
    invariant
        it.seq() == A, A.no_duplicates(), O.wf(), self.wf(), forall|i: int| 0 <= i < A.len() ==> O.peers@.contains_key(#[trigger] A[i]) && O.candidate(A[i], O.peers@[A[i]], locators@),
        self.frame(O), self.last_tip_update == O.last_tip_update, self.last_idle == O.last_idle, self.last_peer_sample == Some(O.clock.now()),
        self.asked_all(O, A.take(it.index@ as int), (locators, zeros())),
//@ loop_before 0:
    let ghost A = addrs@;
    proof {
        assert forall|i: int| 0 <= i < S.len() implies #[trigger] S[i] == P[I[i]] && O.candidate(*P[I[i]].0, *P[I[i]].1, locators@) by { assert(S[i] == P[I[i]]); assert(self.candidate(*P[I[i]].0, *P[I[i]].1, locators@)); }
        assert forall|j: int| 0 <= j < P.len() && !I.contains(j) implies !O.candidate(*(#[trigger] P[j]).0, *P[j].1, locators@) by { assert(!self.candidate(*P[j].0, *P[j].1, locators@)); }
        lemma_cands(O, P, S, I, locators@, A);
        assert(A.take(0).map_values(|k: PeerId| (k, ask(O.outbox.version, (locators, zeros())))) =~= Seq::empty());
        assert(O.outbox.wrs() + Seq::empty() =~= O.outbox.wrs());
        assert(self.asked_all(O, A.take(0), (locators, zeros())));
    }
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost M = *self; let ghost ix = it.index@ as int;
    proof { assert(A[ix] == addr); assert(!A.take(ix).contains(addr)) by { if A.take(ix).contains(addr) { let j = choose|j: int| 0 <= j < ix && A.take(ix)[j] == addr; assert(A[j] == A[ix]); } }
        assert(at(M.inflight@, addr) == at(O.inflight@, addr)); assert(at(M.peers@, addr) == at(O.peers@, addr)); }
//@ loop_end 0:
    proof {
        let l = (locators, zeros());
        assert(A.take(ix + 1) =~= A.take(ix).push(addr));
        let f = |k: PeerId| (k, ask(O.outbox.version, l));
        assert(A.take(ix + 1).map_values(f) =~= A.take(ix).map_values(f).push(f(addr)));
        assert(O.outbox.wrs() + A.take(ix).map_values(f).push(f(addr)) =~= (O.outbox.wrs() + A.take(ix).map_values(f)).push(f(addr)));
        assert forall|k: PeerId| A.take(ix + 1).contains(k) <==> A.take(ix).contains(k) || k == addr by {
            if A.take(ix).contains(k) { let j = choose|j: int| 0 <= j < ix && A.take(ix)[j] == k; assert(A.take(ix + 1)[j] == k); } if k == addr { assert(A.take(ix + 1)[ix] == k); } }
        assert forall|k: PeerId| #[trigger] at(self.inflight@, k) == (if A.take(ix + 1).contains(k) { Some(GetHeaders { locators: l, sent_at: O.clock.now(), on_timeout: OnTimeout::Ignore }) } else { at(O.inflight@, k) }) by { assert(at(M.inflight@, k) == at(M.inflight@, k)); }
        assert forall|k: PeerId| #[trigger] at(self.peers@, k) == (if A.take(ix + 1).contains(k) { Some(Peer { last_asked: Some(l), ..O.peers@[k] }) } else { at(O.peers@, k) }) by { assert(at(M.peers@, k) == at(M.peers@, k)); }
    }
//@ loop_after 0:
    proof { assert(A.take(A.len() as int) =~= A); assert(self.asked_all(O, A, (locators, zeros()))); }
//@@ end
    pub open spec fn idled_via<T: BlockReader>(&self, o: Self, m: Self, r: bool, n: Self, tree: T) -> bool {
        m.tried(o, tree, r) && (if r { n == m } else { n.sampled(m, tree) }) && self.same(SyncManager { last_idle: Some(o.clock.now()), ..n }) && self.outbox.ios() == n.outbox.ios().push(Io::SetTimer(IDLE_TIMEOUT))
    }
    pub open spec fn idled<T: BlockReader>(&self, o: Self, tree: T) -> bool {
        if since(o.clock.now(), o.last_idle) < 600000 { self.silent(o) } else {
            exists|m: Self, r: bool, n: Self| #[trigger] self.idled_via(o, m, r, n, tree)
        }
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn idle
//@ props: C16
//@ subst: .unwrap_or_default() =>> .unwrap_or(LocalTime { millis: 0 })
//@ subst: if !self.sync(tree) { =>> let ok = self.sync(tree); let ghost M = *self; let ghost mut N = M; if !ok {
//@ subst: self.sample_peers(tree); =>> self.sample_peers(tree); proof { N = *self; }
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).idled(*old(self), *tree)
//@ entry:
    let ghost O = *self;
//@ after `self . outbox . set_timer ( IDLE_TIMEOUT ) ;`:
    proof { assert(self.idled_via(O, M, ok, N, *tree)); }
//@@ end
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn initialize
//@ props: C16
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).idled(*old(self), *tree)
//@@ end

    /// the request of peer `a` is over
    pub open spec fn answered(&self, o: Self, a: PeerId) -> bool { self.same(SyncManager { inflight: self.inflight, ..o }) && self.inflight@ == o.inflight@.remove(a) }
    /// ... and it has shown activity
    pub open spec fn active(&self, o: Self, a: PeerId) -> bool {
        &&& self.same(SyncManager { inflight: self.inflight, peers: self.peers, ..o }) && self.inflight@ == o.inflight@.remove(a)
        &&& o.peers@.contains_key(a) && self.peers@ == o.peers@.insert(a, Peer { last_active: Some(o.clock.now()), ..o.peers@[a] })
    }
    /// our chain has a new tip, received from `a`
    pub open spec fn tipped(&self, y: Self, a: PeerId, hash: BlockHash, height: Height) -> bool {
        &&& self.same(SyncManager { peers: self.peers, last_tip_update: Some(y.clock.now()), ..y }) && self.outbox == y.outbox
        &&& y.peers@.contains_key(a) && self.peers@ == y.peers@.insert(a, if height > y.peers@[a].height { Peer { tip: hash, height, ..y.peers@[a] } } else { y.peers@[a] })
    }
    pub open spec fn misbehaved(&self, o: Self, a: PeerId) -> bool { self.same(o) && exists|x: Event| x is PeerMisbehaved && x->PeerMisbehaved_addr == a && self.outbox.ios() == #[trigger] o.outbox.ios().push(Io::Event(x)) }
    /// what follows an import of headers `hs` received from `a`
    pub open spec fn followed<T: BlockTree>(&self, y: Self, a: PeerId, hs: Seq<BlockHeader>, r: Result<ImportResult, Error>, tree: T) -> bool {
        match r {
            // the headers led nowhere: ask for those before them, unless that is what we asked last
            Ok(ImportResult::TipUnchanged) => exists|l: Locators| l.0@ == tree.locs() && l.1 == hs[0].hash && #[trigger] self.asked_new(y, a, l),
            Ok(ImportResult::TipChanged { header, hash, height, reverted, connected }) => exists|z: Self| #[trigger] z.tipped(y, a, hash, height) && (
                if hs.len() < 2000 { exists|w: Self, b: bool| w.told(z, hash, tree) && #[trigger] self.tried(w, tree, b) }
                else { exists|l: Locators| l.0@ == seq![hash] && l.1 == zeros() && #[trigger] self.requested(z, a, l, y.config.request_timeout, OnTimeout::Disconnect) }),
            Err(Error::Store(_)) => self.same(y) && exists|x: Event| x is Error && self.outbox.ios() == #[trigger] y.outbox.ios().push(Io::Event(x)),
            Err(Error::InvalidBlockPoW) | Err(Error::InvalidBlockTarget(_, _)) | Err(Error::InvalidBlockHash(_, _)) | Err(Error::InvalidBlockHeight(_)) | Err(Error::InvalidBlockTime(_, _)) => self.misbehaved(y, a),
            Err(_) => self.silent(y),
        }
    }
    pub open spec fn asked_new(&self, y: Self, a: PeerId, l: Locators) -> bool {
        let last = y.peers@[a].last_asked;
        if last is Some && (last->0).0@ == l.0@ && (last->0).1 == l.1 { self.silent(y) } else { self.requested(y, a, l, y.config.request_timeout, OnTimeout::Ignore) }
    }
    /// what a `headers` message does
    pub open spec fn got<T: BlockTree>(&self, o: Self, a: PeerId, hs: Seq<BlockHeader>, told: T, tree: T) -> bool {
        if hs.len() > 2000 { tree == told && exists|m: Self| #[trigger] m.answered(o, a) && m.outbox == o.outbox && self.misbehaved(m, a) }
        else if hs.len() == 0 || (hs.len() > 24 && !o.inflight@.contains_key(a)) || !o.peers@.contains_key(a) { tree == told && self.answered(o, a) && self.outbox == o.outbox }
        else if told.bc().contains(hs.last().hash) { tree == told && self.active(o, a) && self.outbox == o.outbox }
        else { exists|x: Self, y: Self, r: Result<ImportResult, Error>| #[trigger] self.got_via(o, a, hs, told, tree, x, y, r) }
    }
    pub open spec fn got_via<T: BlockTree>(&self, o: Self, a: PeerId, hs: Seq<BlockHeader>, told: T, tree: T, x: Self, y: Self, r: Result<ImportResult, Error>) -> bool {
        &&& x.active(o, a) && x.outbox == o.outbox
        &&& T::imports(told, tree, hs, o.clock.now(), r) && y.same(x) && y.reported(x, r, tree)
        &&& self.followed(y, a, hs, r, tree)
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn received_headers
//@ props: C16
//@ attr: #[verifier::spinoff_prover]
//@ sigsubst: &[BlockHeader] =>> &Vec<BlockHeader>
//@ subst: headers.to_vec() =>> headers.iter_cloned()
//@ subst: match self.import_blocks(headers.into_iter(), tree) { =>> proof { X = *self; } let res = self.import_blocks(headers.into_list(), tree); proof { Y = *self; R = res; } match res {
//@ subst: peer.and_then(|p| p.last_asked.as_ref()) != Some(&locators) =>> ! asked_same(peer.and_then_x(|p: &Peer| -> (o: Option<&Locators>) ensures same_opt(o, p.last_asked) { p.last_asked.as_ref() }), &locators)
//@ subst: self.broadcast_tip(&hash, tree); self.sync(tree); =>> let ghost Z = *self; self.broadcast_tip(&hash, tree); let ghost W = *self; let ok = self.sync(tree); proof { assert(self.tried(W, *tree, ok)); assert(Z.tipped(Y, *from, hash, height)); }
//@ subst: self.request(*from, locators, timeout, OnTimeout::Disconnect); =>> let ghost L = locators; let ghost Z = *self; self.request(*from, locators, timeout, OnTimeout::Disconnect); proof { lemma_one(L.0@, hash); assert(self.requested(Z, *from, L, Y.config.request_timeout, OnTimeout::Disconnect)); assert(Z.tipped(Y, *from, hash, height)); }
//@ subst: let peer = self.peers.get(from); =>> let peer = self.peers.get(from); proof { LL = locators; }
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).got(*old(self), *from, headers@, *old(tree), *final(tree))
//@ entry:
    let ghost O = *self; let ghost T0 = *tree; let ghost HS = headers@; let ghost mut LL: Locators = arbitrary(); let ghost mut X = O; let ghost mut Y = O; let ghost mut R: Result<ImportResult, Error> = arbitrary();
//@ before `if length > MAX_MESSAGE_HEADERS`:
    let ghost M = *self;
    proof { assert(M.answered(O, *from)); }
//@ exit:
    proof { if R is Ok && R->Ok_0 is TipUnchanged { assert(self.asked_new(Y, *from, LL)); } assert(self.got_via(O, *from, HS, T0, *tree, X, Y, R)); }
//@@ end

    /// the request of `k` is unanswered for too long
    pub open spec fn over(&self, k: PeerId) -> bool { self.inflight@.contains_key(k) && since(self.clock.now(), Some(self.inflight@[k].sent_at)) >= self.config.request_timeout.ms() }
    /// `g`, now out with `k`, retries the timed out request of another peer
    pub open spec fn retries(&self, k: PeerId, g: GetHeaders, ks: Seq<PeerId>) -> bool {
        g.sent_at == self.clock.now() && g.on_timeout is Retry && exists|j: PeerId| #[trigger] ks.contains(j) && self.over(j) && j != k && self.inflight@[j].locators == g.locators && self.inflight@[j].on_timeout == OnTimeout::Retry((g.on_timeout->Retry_0 + 1) as usize)
    }
    /// state after the requests of `ks` ended, with those of `ws` sent instead
    pub open spec fn ended(&self, o: Self, ks: Seq<PeerId>, ws: Seq<PeerId>) -> bool {
        let n = o.outbox.wrs().len();
        &&& self.frame(o) && self.last_tip_update == o.last_tip_update && self.last_peer_sample == o.last_peer_sample && self.last_idle == o.last_idle && self.peers@.dom() == o.peers@.dom()
        &&& self.outbox.evs() == o.outbox.evs() && self.outbox.drs() == o.outbox.drs() + o.lazy(ks)
        &&& self.outbox.wrs().len() == n + ws.len() && self.outbox.wrs().take(n as int) == o.outbox.wrs() && ws.no_duplicates()
        &&& forall|i: int| 0 <= i < ws.len() ==> self.inflight@.contains_key(#[trigger] ws[i]) && self.outbox.wrs()[n + i] == (ws[i], ask(o.outbox.version, self.inflight@[ws[i]].locators)) && o.retries(ws[i], self.inflight@[ws[i]], ks) && (o.inflight@.contains_key(ws[i]) ==> ks.contains(ws[i]))
        &&& forall|k: PeerId| #[trigger] self.inflight@.contains_key(k) ==> ws.contains(k) || (!ks.contains(k) && o.inflight@.contains_key(k))
        &&& forall|k: PeerId| !ks.contains(k) && #[trigger] o.inflight@.contains_key(k) ==> self.inflight@.contains_key(k) && self.inflight@[k] == o.inflight@[k]
        &&& ws.len() == 0 ==> self.peers@ == o.peers@ && forall|j: PeerId, k: PeerId| #![trigger ks.contains(j), o.peers@.contains_key(k)] ks.contains(j) && o.inflight@[j].on_timeout is Retry && o.inflight@[j].on_timeout->Retry_0 > 0 && k != j && o.peers@.contains_key(k) ==> !o.candidate(k, o.peers@[k], o.inflight@[j].locators.0@)
    }
    /// peers to be dropped for not answering
    pub open spec fn lazy(&self, ks: Seq<PeerId>) -> Seq<(PeerId, DisconnectReason)> decreases ks.len() {
        if ks.len() == 0 { Seq::empty() } else {
            let t = self.inflight@[ks.last()].on_timeout;
            if t is Disconnect || t == OnTimeout::Retry(0) { self.lazy(ks.drop_last()).push((ks.last(), DisconnectReason::PeerTimeout("getheaders"))) } else { self.lazy(ks.drop_last()) }
        }
    }
    pub open spec fn timed<T: BlockReader>(&self, o: Self, tree: T) -> bool { exists|m: Self, ks: Seq<PeerId>, ws: Seq<PeerId>| #[trigger] self.timed_via(o, m, ks, ws, tree) }
    pub open spec fn timed_via<T: BlockReader>(&self, o: Self, m: Self, ks: Seq<PeerId>, ws: Seq<PeerId>, tree: T) -> bool {
        &&& ks.no_duplicates() && forall|k: PeerId| #[trigger] ks.contains(k) <==> o.over(k)
        &&& m.ended(o, ks, ws)
        &&& if o.lazy(ks).len() > 0 { exists|r: bool| #[trigger] self.tried(m, tree, r) } else { self.idled(m, tree) }
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn timer_expired
//@ props: C16
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ subst: let timed_out = self.inflight.iter().filter_map( =>> let rs = self.inflight.iter(); let ghost P = rs@; let to = rs.filter_map(
//@ subst: .collect::<Vec<_>>(); =>> ; let ghost I = to.idx(); let timed_out = to.collect();
//@ closure 0: |e: (&PeerId, &GetHeaders)| -> (o: Option<(PeerId, OnTimeout, GetHeaders)>) ensures o == (if since(local_time, Some(e.1.sent_at)) >= timeout.ms() { Some((*e.0, e.1.on_timeout, *e.1)) } else { None }) ;; let (peer, req) = e;
//@ closure 1: |a: &PeerId, p: &Peer| -> (b: bool) ensures b == (*a != peer && self.candidate(*a, *p, req.locators.0@))
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).timed(*old(self), *tree)
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self; let ghost mut KS = Seq::<PeerId>::empty(); let ghost mut WS = Seq::<PeerId>::empty(); let ghost mut MM = O;
//@ loop 0 it=it:
    invariant
        it.seq() == TO, KS.len() == TO.len(), O.wf(), self.wf(), timeout == O.config.request_timeout, KS.no_duplicates(), forall|k: PeerId| #[trigger] KS.contains(k) <==> O.over(k),
        forall|i: int| 0 <= i < TO.len() ==> (#[trigger] TO[i]).0 == KS[i] && O.inflight@[KS[i]] == TO[i].2 && TO[i].1 == TO[i].2.on_timeout,
        self.ended(O, KS.take(it.index@ as int), WS), sync == (O.lazy(KS.take(it.index@ as int)).len() > 0),
//@ loop_before 0:
    let ghost TO = timed_out@; 
    proof {
        KS = TO.map_values(|e: (PeerId, OnTimeout, GetHeaders)| e.0);
        assert forall|i: int| 0 <= i < TO.len() implies late(#[trigger] TO[i], *P[I[i]].0, *P[I[i]].1, local_time, timeout) by { let e = P[I[i]]; assert(Some(TO[i]) == (if since(local_time, Some(e.1.sent_at)) >= timeout.ms() { Some((*e.0, e.1.on_timeout, *e.1)) } else { None })); }
        lemma_over(O, P, I, TO, KS, timeout, local_time);
        assert(O.outbox.drs() + O.lazy(KS.take(0)) =~= O.outbox.drs()); assert(O.outbox.wrs().take(O.outbox.wrs().len() as int) =~= O.outbox.wrs());
        assert(self.ended(O, KS.take(0), WS));
    }
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost ix = it.index@ as int; let ghost M = *self; let ghost W0 = WS; let ghost g = req; let ghost mut Q = *self;
    proof { assert(TO[ix].0 == KS[ix]); assert(KS.contains(KS[ix])); lemma_take(KS, ix); assert(KS.take(ix + 1).drop_last() =~= KS.take(ix)); assert(O.inflight@.contains_key(peer)); assert(M.inflight@.contains_key(peer)); assert(!W0.contains(peer)); }
//@ subst: self.inflight.remove(&peer); =>> self.inflight.remove(&peer); proof { Q = *self; }
//@ subst: self.request(addr, req.locators, timeout, OnTimeout::Retry(n - 1)); =>> self.request(addr, req.locators, timeout, OnTimeout::Retry(n - 1)); proof { WS = WS.push(addr); }
//@ loop_end 0:
    proof { assert(Q.inflight@ == M.inflight@.remove(peer)); assert(step(O, Q, *self, W0, WS, peer)); lemma_step(O, M, Q, *self, KS, ix, W0, WS, peer); }
//@ loop_after 0:
    proof { MM = *self; assert(KS.take(KS.len() as int) =~= KS); }
//@ subst: if sync { self.sync(tree); } else { =>> if sync { let ok = self.sync(tree); proof { assert(self.tried(MM, *tree, ok)); } } else {
//@ exit:
    proof { assert(self.timed_via(O, MM, KS, WS, *tree)); }
//@@ end
    /// what each event does
    pub open spec fn reacted<T: BlockTree>(&self, o: Self, e: Event, told: T, tree: T) -> bool {
        match e {
            Event::PeerNegotiated { addr, link, services, height, .. } => tree == told && self.joined(o, addr, height, services, link, tree),
            Event::PeerDisconnected { addr, .. } => tree == told && self.outbox == o.outbox && self.peers@ == o.peers@.remove(addr) && self.inflight@ == o.inflight@.remove(addr) && self.same(SyncManager { peers: self.peers, inflight: self.inflight, ..o }),
            Event::MessageReceived { from, message } => (match *message {
                NetworkMessage::Headers(hs) => self.got(o, from, hs@, told, tree),
                NetworkMessage::GetHeaders(g) => tree == told && self.served(o, from, (g.locator_hashes, g.stop_hash), tree),
                NetworkMessage::Inv(inv) => tree == told && self.invited(o, from, inv@, tree),
                _ => tree == told && self.silent(o) }),
            _ => tree == told && self.silent(o) }
    }
//@@ fn p2p/src/fsm/syncmgr.rs | impl SyncManager / fn received_event
//@ props: C16
//@ attr: #[verifier::spinoff_prover]
//@ subst: message.as_ref() =>> &*message
//@ subst: locator_hashes.to_vec() =>> clone_hashes(locator_hashes)
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).reacted(*old(self), event, *old(tree), *final(tree))
//@@ end
}
pub open spec fn late(t: (PeerId, OnTimeout, GetHeaders), k: PeerId, g: GetHeaders, now: LocalTime, timeout: LocalDuration) -> bool {
    since(now, Some(g.sent_at)) >= timeout.ms() && t.0 == k && t.1 == g.on_timeout && t.2 == g
}
pub proof fn lemma_over<C: Clock>(o: SyncManager<C>, P: Seq<(&PeerId, &GetHeaders)>, I: Seq<int>, TO: Seq<(PeerId, OnTimeout, GetHeaders)>, KS: Seq<PeerId>, timeout: LocalDuration, now: LocalTime)
    requires
        exists|ks: Seq<PeerId>| #[trigger] lists(ks, o.inflight@) && ks.len() == P.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] P[i]).0 == ks[i] && *P[i].1 == o.inflight@[ks[i]],
        now == o.clock.now(), timeout == o.config.request_timeout, kept(I, P.len() as int), I.len() == TO.len(), KS == TO.map_values(|e: (PeerId, OnTimeout, GetHeaders)| e.0),
        forall|i: int| 0 <= i < TO.len() ==> late(#[trigger] TO[i], *P[I[i]].0, *P[I[i]].1, now, timeout),
        forall|j: int| 0 <= j < P.len() && !I.contains(j) ==> since(now, Some((#[trigger] P[j]).1.sent_at)) < timeout.ms(),
    ensures KS.no_duplicates(), forall|k: PeerId| #[trigger] KS.contains(k) <==> o.over(k),
        forall|i: int| 0 <= i < TO.len() ==> (#[trigger] TO[i]).0 == KS[i] && o.inflight@[KS[i]] == TO[i].2 && TO[i].1 == TO[i].2.on_timeout,
{
    let ks = choose|ks: Seq<PeerId>| #[trigger] lists(ks, o.inflight@) && ks.len() == P.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] P[i]).0 == ks[i] && *P[i].1 == o.inflight@[ks[i]];
    assert forall|i: int| 0 <= i < TO.len() implies (#[trigger] TO[i]).0 == KS[i] && o.inflight@[KS[i]] == TO[i].2 && TO[i].1 == TO[i].2.on_timeout && KS[i] == ks[I[i]] && o.over(KS[i]) by { assert(*P[I[i]].0 == ks[I[i]]); assert(ks.to_set().contains(ks[I[i]])); }
    assert forall|i: int, j: int| 0 <= i < KS.len() && 0 <= j < KS.len() && i != j implies KS[i] != KS[j] by { assert(TO[i].0 == KS[i] && TO[j].0 == KS[j]); assert(I[i] != I[j]); }
    assert forall|k: PeerId| #[trigger] KS.contains(k) <==> o.over(k) by {
        if KS.contains(k) { let i = choose|i: int| 0 <= i < KS.len() && KS[i] == k; assert(TO[i].0 == KS[i]); }
        if o.over(k) { assert(ks.to_set().contains(k)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; assert(*P[j].0 == ks[j]); assert(I.contains(j)); let i = choose|i: int| 0 <= i < I.len() && I[i] == j; assert(TO[i].0 == KS[i]); assert(KS[i] == k); }
    }
}
pub proof fn lemma_take(ks: Seq<PeerId>, ix: int)
    requires 0 <= ix < ks.len(), ks.no_duplicates()
    ensures !ks.take(ix).contains(ks[ix]), forall|k: PeerId| #[trigger] ks.take(ix + 1).contains(k) <==> ks.take(ix).contains(k) || k == ks[ix], ks.take(ix + 1).last() == ks[ix],
        forall|k: PeerId| #[trigger] ks.take(ix).contains(k) ==> ks.contains(k),
{
    if ks.take(ix).contains(ks[ix]) { let j = choose|j: int| 0 <= j < ix && ks.take(ix)[j] == ks[ix]; assert(ks[j] == ks[ix]); }
    assert forall|k: PeerId| #[trigger] ks.take(ix + 1).contains(k) <==> ks.take(ix).contains(k) || k == ks[ix] by {
        if ks.take(ix + 1).contains(k) { let t = ks.take(ix + 1); let j = choose|j: int| 0 <= j < t.len() && t[j] == k; if j < ix { assert(ks.take(ix)[j] == k); } }
        if ks.take(ix).contains(k) { let j = choose|j: int| 0 <= j < ix && ks.take(ix)[j] == k; assert(ks.take(ix + 1)[j] == k); }
        if k == ks[ix] { assert(ks.take(ix + 1)[ix] == k); } }
    assert forall|k: PeerId| #[trigger] ks.take(ix).contains(k) implies ks.contains(k) by { let j = choose|j: int| 0 <= j < ix && ks.take(ix)[j] == k; assert(ks[j] == k); }
}
/// how the timed out request of one peer ends
pub open spec fn step<C: Clock>(o: SyncManager<C>, q: SyncManager<C>, s: SyncManager<C>, w0: Seq<PeerId>, ws: Seq<PeerId>, peer: PeerId) -> bool {
    let g = o.inflight@[peer];
    match g.on_timeout {
        OnTimeout::Ignore => s.silent(q) && ws == w0,
        OnTimeout::Disconnect => s.same(q) && s.outbox.ios() == q.outbox.ios().push(Io::Disconnect(peer, DisconnectReason::PeerTimeout("getheaders"))) && ws == w0,
        OnTimeout::Retry(n) =>
            if n == 0 { s.same(q) && s.outbox.ios() == q.outbox.ios().push(Io::Disconnect(peer, DisconnectReason::PeerTimeout("getheaders"))) && ws == w0 }
            else if ws == w0 { s.silent(q) && forall|k: PeerId| #[trigger] q.peers@.contains_key(k) && k != peer ==> !q.candidate(k, q.peers@[k], g.locators.0@) }
            else { let a = ws.last(); ws == w0.push(a) && q.peers@.contains_key(a) && a != peer && q.candidate(a, q.peers@[a], g.locators.0@) && s.requested(q, a, g.locators, o.config.request_timeout, OnTimeout::Retry((n - 1) as usize)) }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_step<C: Clock>(o: SyncManager<C>, m: SyncManager<C>, q: SyncManager<C>, s: SyncManager<C>, ks: Seq<PeerId>, ix: int, w0: Seq<PeerId>, ws: Seq<PeerId>, peer: PeerId)
    requires o.wf(), m.wf(), ks.no_duplicates(), 0 <= ix < ks.len(), ks[ix] == peer, o.over(peer), m.ended(o, ks.take(ix), w0),
        q.same(SyncManager { inflight: q.inflight, ..m }), q.outbox == m.outbox, q.inflight@ == m.inflight@.remove(peer), step(o, q, s, w0, ws, peer),
    ensures s.wf(), s.ended(o, ks.take(ix + 1), ws), (o.lazy(ks.take(ix + 1)).len() > 0) == (o.lazy(ks.take(ix)).len() > 0 || o.inflight@[peer].on_timeout is Disconnect || o.inflight@[peer].on_timeout == OnTimeout::Retry(0))
{
    broadcast use lemma_push;
    let k0 = ks.take(ix); let k1 = ks.take(ix + 1); let n = o.outbox.wrs().len(); let g = o.inflight@[peer];
    lemma_take(ks, ix);
    assert(k1.drop_last() =~= k0);
    let d = (peer, DisconnectReason::PeerTimeout("getheaders"));
    assert(o.outbox.drs() + o.lazy(k0).push(d) =~= (o.outbox.drs() + o.lazy(k0)).push(d));
    assert(!w0.contains(peer));
    assert(m.inflight@.contains_key(peer));
    assert forall|i: int| 0 <= i < w0.len() implies q.inflight@.contains_key(#[trigger] w0[i]) && q.inflight@[w0[i]] == m.inflight@[w0[i]] && o.retries(w0[i], m.inflight@[w0[i]], k1) by {
        assert(w0.contains(w0[i])); assert(o.retries(w0[i], m.inflight@[w0[i]], k0));
        let x = m.inflight@[w0[i]];
        let j = choose|j: PeerId| #[trigger] k0.contains(j) && o.over(j) && j != w0[i] && o.inflight@[j].locators == x.locators && o.inflight@[j].on_timeout == OnTimeout::Retry((x.on_timeout->Retry_0 + 1) as usize);
        assert(k1.contains(j));
    }
    assert forall|k: PeerId| #[trigger] q.inflight@.contains_key(k) implies w0.contains(k) || (!k1.contains(k) && o.inflight@.contains_key(k)) by { assert(m.inflight@.contains_key(k)); }
    assert forall|k: PeerId| !k1.contains(k) && #[trigger] o.inflight@.contains_key(k) implies q.inflight@.contains_key(k) && q.inflight@[k] == o.inflight@[k] by {}
    if ws == w0 {
        assert(s.outbox.wrs() == m.outbox.wrs());
        assert forall|j: PeerId, k: PeerId| #![trigger k1.contains(j), o.peers@.contains_key(k)] ws.len() == 0 && k1.contains(j) && o.inflight@[j].on_timeout is Retry && o.inflight@[j].on_timeout->Retry_0 > 0 && k != j && o.peers@.contains_key(k) implies !o.candidate(k, o.peers@[k], o.inflight@[j].locators.0@) by {
            if j == peer { assert(q.peers@.contains_key(k)); assert(!q.candidate(k, q.peers@[k], g.locators.0@));
                if !o.inflight@.contains_key(k) { assert(!w0.contains(k)); if q.inflight@.contains_key(k) { assert(m.inflight@.contains_key(k)); } } }
            else { assert(k0.contains(j)); }
        }
        assert(s.ended(o, k1, ws));
    } else {
        let a = ws.last();
        assert(q.peers@.contains_key(a)); assert(!q.inflight@.contains_key(a));
        assert(!w0.contains(a)) by { if w0.contains(a) { let i = choose|i: int| 0 <= i < w0.len() && w0[i] == a; assert(q.inflight@.contains_key(w0[i])); } }
        assert(ws[w0.len() as int] == a);
        assert(s.outbox.wrs() == m.outbox.wrs().push((a, ask(o.outbox.version, g.locators))));
        assert(s.outbox.wrs().take(n as int) =~= m.outbox.wrs().take(n as int));
        assert(ws.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ws.len() && 0 <= j < ws.len() && i != j implies ws[i] != ws[j] by { if i < w0.len() { assert(w0.contains(w0[i])); } if j < w0.len() { assert(w0.contains(w0[j])); } } }
        assert(k1.contains(peer)); assert(g.on_timeout->Retry_0 <= 3); assert(o.retries(a, s.inflight@[a], k1));
        if o.inflight@.contains_key(a) && !k1.contains(a) { assert(q.inflight@.contains_key(a)); }
        assert forall|i: int| 0 <= i < ws.len() implies s.inflight@.contains_key(#[trigger] ws[i]) && s.outbox.wrs()[n + i] == (ws[i], ask(o.outbox.version, s.inflight@[ws[i]].locators)) && o.retries(ws[i], s.inflight@[ws[i]], k1) && (o.inflight@.contains_key(ws[i]) ==> k1.contains(ws[i])) by {
            if i < w0.len() { assert(ws[i] == w0[i]); assert(w0.contains(w0[i])); assert(s.inflight@[w0[i]] == m.inflight@[w0[i]]); assert(s.outbox.wrs()[n + i] == m.outbox.wrs()[n + i]); if o.inflight@.contains_key(w0[i]) { assert(k0.contains(w0[i])); } }
        }
        assert forall|k: PeerId| #[trigger] s.inflight@.contains_key(k) implies ws.contains(k) || (!k1.contains(k) && o.inflight@.contains_key(k)) by {
            if k == a { assert(ws.contains(a)); } else { assert(q.inflight@.contains_key(k)); if w0.contains(k) { let i = choose|i: int| 0 <= i < w0.len() && w0[i] == k; assert(ws[i] == k); } } }
        assert(s.peers@.dom() =~= o.peers@.dom());
        assert(s.ended(o, k1, ws));
    }
}
pub proof fn lemma_one(s: Seq<BlockHash>, h: BlockHash) requires s.len() == 1, s[0] == h ensures s == seq![h] { assert(s =~= seq![h]); }
pub open spec fn same_opt(a: Option<&Locators>, b: Option<Locators>) -> bool { match a { Some(x) => b == Some(*x), None => b is None } }
/// the last block in an inventory which we don't know
pub open spec fn last_new<T: BlockReader>(inv: Seq<Inventory>, tree: T) -> Option<BlockHash> decreases inv.len() {
    if inv.len() == 0 { None } else if inv.last() is Block && !tree.known(inv.last()->Block_0) { Some(inv.last()->Block_0) } else { last_new(inv.drop_last(), tree) }
}
pub proof fn lemma_cands<C: Clock>(m: SyncManager<C>, P: Seq<(&PeerId, &Peer)>, S: Seq<(&PeerId, &Peer)>, I: Seq<int>, l: Seq<BlockHash>, A: Seq<PeerId>)
    requires entries_of(m.peers@, P), kept(I, P.len() as int), I.len() == S.len(), A.len() == S.len(),
        forall|i: int| 0 <= i < S.len() ==> #[trigger] S[i] == P[I[i]] && m.candidate(*P[I[i]].0, *P[I[i]].1, l),
        forall|j: int| 0 <= j < P.len() && !I.contains(j) ==> !m.candidate(*(#[trigger] P[j]).0, *P[j].1, l),
        forall|i: int| 0 <= i < A.len() ==> #[trigger] A[i] == *S[i].0,
    ensures A.no_duplicates(), forall|k: PeerId| #[trigger] A.contains(k) <==> m.peers@.contains_key(k) && m.candidate(k, m.peers@[k], l),
        forall|i: int| 0 <= i < A.len() ==> m.peers@.contains_key(#[trigger] A[i]) && m.candidate(A[i], m.peers@[A[i]], l),
{
    lemma_entries(m.peers@, P);
    let ks = choose|ks: Seq<PeerId>| #[trigger] lists(ks, m.peers@) && ks.len() == P.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] P[i]).0 == ks[i] && *P[i].1 == m.peers@[ks[i]];
    assert forall|i: int, j: int| 0 <= i < A.len() && 0 <= j < A.len() && i != j implies A[i] != A[j] by { assert(S[i] == P[I[i]] && S[j] == P[I[j]]); assert(I[i] != I[j]); assert(*P[I[i]].0 == ks[I[i]]); assert(*P[I[j]].0 == ks[I[j]]); }
    assert forall|i: int| 0 <= i < A.len() implies m.peers@.contains_key(#[trigger] A[i]) && m.candidate(A[i], m.peers@[A[i]], l) by { assert(S[i] == P[I[i]]); }
    assert forall|k: PeerId| m.peers@.contains_key(k) && m.candidate(k, m.peers@[k], l) implies #[trigger] A.contains(k) by {
        let j = choose|j: int| 0 <= j < P.len() && *(#[trigger] P[j]).0 == k && *P[j].1 == m.peers@[k];
        assert(I.contains(j)); let i = choose|i: int| 0 <= i < I.len() && I[i] == j; assert(S[i] == P[I[i]]); assert(A[i] == k); }
}
pub open spec fn gone(v: Seq<(Height, BlockHeader)>) -> Seq<Event> { v.map_values(|e: (Height, BlockHeader)| Event::BlockDisconnected { height: e.0, header: e.1 }) }
pub open spec fn came(v: Seq<(Height, BlockHeader)>) -> Seq<Event> { v.map_values(|e: (Height, BlockHeader)| Event::BlockConnected { height: e.0, header: e.1 }) }
pub open spec fn is_tip(x: Io, a: PeerId, hash: BlockHash) -> bool { x is Write && x->Write_0 == a && x->Write_1 is Headers && x->Write_1->Headers_0@.len() == 1 && x->Write_1->Headers_0@[0].hash == hash }
pub open spec fn any_preferred(P: Seq<(&PeerId, &Peer)>, o: Option<(&PeerId, &Peer)>) -> bool {
    match o { Some(x) => P.contains(x) && x.1.preferred, None => forall|i: int| 0 <= i < P.len() ==> !(#[trigger] P[i]).1.preferred }
}
pub proof fn lemma_first<C: Clock>(m: SyncManager<C>, P: Seq<(&PeerId, &Peer)>, S: Seq<(&PeerId, &Peer)>, I: Seq<int>, l: Seq<BlockHash>, h: int, best: Option<(&PeerId, &Peer)>)
    requires entries_of(m.peers@, P), kept(I, P.len() as int), I.len() == S.len(),
        forall|i: int| 0 <= i < S.len() ==> #[trigger] S[i] == P[I[i]] && m.candidate(*P[I[i]].0, *P[I[i]].1, l),
        forall|j: int| 0 <= j < P.len() && !I.contains(j) ==> !m.candidate(*(#[trigger] P[j]).0, *P[j].1, l),
        match best { Some(x) => S.contains(x) && x.1.preferred && x.1.height > h, None => forall|i: int| 0 <= i < S.len() ==> !((#[trigger] S[i]).1.preferred && S[i].1.height > h) },
    ensures match best { Some(x) => P.contains(x) && m.good(*x.0, l, h), None => forall|k: PeerId| !#[trigger] m.good(k, l, h) }
{
    lemma_entries(m.peers@, P);
    match best {
        Some(x) => { let i = choose|i: int| 0 <= i < S.len() && S[i] == x; assert(P[I[i]] == x); }
        None => { assert forall|k: PeerId| !#[trigger] m.good(k, l, h) by { if m.good(k, l, h) {
            let j = choose|j: int| 0 <= j < P.len() && *(#[trigger] P[j]).0 == k && *P[j].1 == m.peers@[k];
            assert(I.contains(j)); let i = choose|i: int| 0 <= i < I.len() && I[i] == j; assert(S[i] == P[I[i]]); } } }
    }
}
} // verus!
fn main() {}
