// Unit: inventory manager (p2p/src/fsm/invmgr.rs): blocks fetched, transactions announced, confirmed and reverted.
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_set.rs
//@@ include shim_keys.rs
//@@ include shim_book.rs
}
use dep::*;
//@@ include shim_time.rs
pub struct BlockFilter {}
#[derive(Copy, Clone)]
pub struct FilterHash { pub x: u64 }
#[derive(Copy, Clone)]
pub struct FilterHeader { pub x: u64 }
//@@ include shim_fsm.rs
//@@ include shim_out.rs
pub mod fastrand {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Rng { x: u64 }
}
// ---- assumed contracts ----
/// fee estimation: contract proved in property C12; here any function of its state
#[verifier::external_body]
pub struct FeeEstimator { x: u64 }
pub uninterp spec fn est_next(e: FeeEstimator, b: Block, h: Height) -> FeeEstimator;
pub uninterp spec fn est_fees(e: FeeEstimator, b: Block, h: Height) -> Option<FeeEstimate>;
pub uninterp spec fn est_back(e: FeeEstimator, h: Height) -> FeeEstimator;
impl FeeEstimator {
    #[verifier::external_body]
    pub fn process(&mut self, block: Block, height: Height) -> (r: Option<FeeEstimate>)
        ensures *final(self) == est_next(*old(self), block, height), r == est_fees(*old(self), block, height) { unimplemented!() }
    #[verifier::external_body]
    pub fn rollback(&mut self, height: Height) ensures *final(self) == est_back(*old(self), height) { unimplemented!() }
}
/// transactions with the same wtxid are the same transaction (no hash collisions)
pub axiom fn axiom_wtxid(a: Transaction, b: Transaction) ensures wtxid_of(a) == wtxid_of(b) ==> a == b;
pub type MP = Map<Wtxid, Transaction>;
/// `mempool.values().find(|tx| tx.txid() == *txid)`
pub uninterp spec fn found(m: MP, id: Txid) -> Option<Transaction>;
#[verifier::external_body]
pub fn find_txid<'a>(m: &'a BTreeMap<Wtxid, Transaction>, id: &Txid) -> (r: Option<&'a Transaction>)
    ensures (match r { Some(t) => found(m@, *id) == Some(*t), None => found(m@, *id) == None::<Transaction> }),
        match found(m@, *id) { Some(t) => txid_of(t) == *id && exists|w: Wtxid| #[trigger] m@.contains_key(w) && m@[w] == t, None => forall|w: Wtxid| #[trigger] m@.contains_key(w) ==> txid_of(m@[w]) != *id }
{ unimplemented!() }
impl BTreeMap<Wtxid, Transaction> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: Wtxid, v: Transaction) -> (r: Option<Transaction>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Wtxid) -> (r: Option<Transaction>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    /// `map[k]`: panics when absent
    #[verifier::external_body]
    pub fn at(&self, k: &Wtxid) -> (r: &Transaction) requires self@.contains_key(*k) ensures *r == self@[*k] { unimplemented!() }
    /// `iter()`, materialised
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&Wtxid, &Transaction)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1,
            forall|k: Wtxid| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k { unimplemented!() }
}
pub open spec fn cm(m: Map<Height, Vec<Transaction>>) -> Map<Height, Seq<Transaction>> { Map::new(m.dom(), |h: Height| m[h]@) }
pub open spec fn push_to(m: Map<Height, Seq<Transaction>>, h: Height, t: Transaction) -> Map<Height, Seq<Transaction>> {
    m.insert(h, (if m.contains_key(h) { m[h] } else { Seq::empty() }).push(t))
}
impl HashMap<Height, Vec<Transaction>> {
    /// `entry(h).or_default().push(t)`
    #[verifier::external_body]
    pub fn push_at(&mut self, h: Height, t: Transaction) ensures cm(final(self)@) == push_to(cm(old(self)@), h, t), final(self)@.dom() == old(self)@.dom().insert(h) { unimplemented!() }
    /// `retain`
    #[verifier::external_body]
    pub fn retain_kv<F: Fn(&Height, &Vec<Transaction>) -> bool>(&mut self, f: F)
        requires forall|k: Height| #[trigger] old(self)@.contains_key(k) ==> f.requires((&k, &old(self)@[k]))
        ensures
            forall|k: Height| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] && f.ensures((&k, &old(self)@[k]), true),
            forall|k: Height| #[trigger] old(self)@.contains_key(k) && !final(self)@.contains_key(k) ==> f.ensures((&k, &old(self)@[k]), false),
    { unimplemented!() }
}
impl HashMap<Height, Block> {
    /// the entry with the smallest key, removed
    #[verifier::external_body]
    pub fn pop_min(&mut self) -> (r: Option<(Height, Block)>)
        ensures match r {
            Some((h, b)) => old(self)@.contains_key(h) && b == old(self)@[h] && final(self)@ == old(self)@.remove(h) && forall|k: Height| #[trigger] old(self)@.contains_key(k) ==> h <= k,
            None => old(self)@ == Map::<Height, Block>::empty() && final(self)@ == old(self)@ },
    { unimplemented!() }
}
impl HashMap<BlockHash, Option<LocalTime>> {
    /// `entry(k).or_insert(v)`
    #[verifier::external_body]
    pub fn or_insert(&mut self, k: BlockHash, v: Option<LocalTime>) ensures final(self)@ == (if old(self)@.contains_key(k) { old(self)@ } else { old(self)@.insert(k, v) }) { unimplemented!() }
    /// `iter_mut().filter(f)`, materialised
    #[verifier::external_body]
    pub fn iter_mut_filter<F: Fn(&BlockHash, &Option<LocalTime>) -> bool>(&mut self, f: F) -> (r: (Vec<(&BlockHash, &mut Option<LocalTime>)>, Ghost<Seq<BlockHash>>))
        requires forall|k: BlockHash| #[trigger] old(self)@.contains_key(k) ==> f.requires((&k, &old(self)@[k]))
        ensures final(self)@.dom() == old(self)@.dom(), r.1@.len() == r.0@.len(), r.1@.no_duplicates(),
            forall|i: int| 0 <= i < r.0@.len() ==> *(#[trigger] r.0@[i]).0 == r.1@[i] && old(self)@.contains_key(r.1@[i]) && f.ensures((&r.1@[i], &old(self)@[r.1@[i]]), true) && *r.0@[i].1 == old(self)@[r.1@[i]] && final(self)@[r.1@[i]] == *final(r.0@[i].1),
            forall|k: BlockHash| #[trigger] old(self)@.contains_key(k) && !r.1@.contains(k) ==> f.ensures((&k, &old(self)@[k]), false) && final(self)@[k] == old(self)@[k],
    { unimplemented!() }
}
#[verifier::external_body]
pub fn one(i: Inventory) -> (r: Vec<Inventory>) ensures r@ == seq![i] { unimplemented!() }
// ---- the manager ----
//@@ const p2p/src/fsm/invmgr.rs | const REQUEST_TIMEOUT
//@ spec: ensures REQUEST_TIMEOUT.ms() == 15000
//@@ end
//@@ const p2p/src/fsm/invmgr.rs | const IDLE_TIMEOUT
//@ spec: ensures IDLE_TIMEOUT.ms() == 30000
//@@ end
//@@ const p2p/src/fsm/invmgr.rs | const MAX_ATTEMPTS
//@@ end
//@@ const p2p/src/fsm/invmgr.rs | const TRANSACTION_PRUNE_DEPTH
//@@ end
//@@ struct p2p/src/fsm/invmgr.rs | struct Peer
//@@ end
//@@ struct p2p/src/fsm/invmgr.rs | struct InventoryManager
//@@ end
impl Peer {
    pub open spec fn same(&self, o: Peer) -> bool { self.relay == o.relay && self.services == o.services && self.wtxidrelay == o.wtxidrelay && self.attempts == o.attempts && self.last_attempt == o.last_attempt }
//@@ fn p2p/src/fsm/invmgr.rs | impl Peer / fn attempted
//@ spec:
    requires old(self).attempts < usize::MAX
    ensures *final(self) == (Peer { last_attempt: Some(time), attempts: (old(self).attempts + 1) as usize, ..*old(self) })
//@@ end
//@@ fn p2p/src/fsm/invmgr.rs | impl Peer / fn reset
//@ spec:
    ensures *final(self) == (Peer { last_attempt: None, attempts: 0, ..*old(self) })
//@@ end
}
/// what processing depends on and changes
pub struct St { pub mp: MP, pub conf: Map<Height, Seq<Transaction>>, pub est: FeeEstimator, pub evs: Seq<Event>, pub ids: Seq<Txid> }
/// one transaction of a block: if it is one of ours it is confirmed, once
pub open spec fn tx_step(s: St, tx: Transaction, hash: BlockHash, h: Height) -> St {
    let w = wtxid_of(tx);
    if s.mp.contains_key(w) {
        St { mp: s.mp.remove(w), conf: push_to(s.conf, h, s.mp[w]), evs: s.evs.push(Event::TxStatusChanged { txid: txid_of(s.mp[w]), status: TxStatus::Confirmed { block: hash, height: h } }), ids: s.ids.push(txid_of(tx)), ..s }
    } else { s }
}
pub open spec fn txs_step(s: St, b: Block, h: Height, n: int) -> St decreases n {
    if n <= 0 { s } else { tx_step(txs_step(s, b, h, n - 1), b.txdata@[n - 1], b.header.hash, h) }
}
/// a block: its transactions in order, then the fees and the block itself are reported
pub open spec fn block_step(s: St, b: Block, h: Height) -> St {
    let t = txs_step(s, b, h, b.txdata@.len() as int);
    St { est: est_next(t.est, b, h), evs: t.evs.push(Event::BlockProcessed { block: b, height: h, fees: est_fees(t.est, b, h) }), ..t }
}
pub open spec fn blocks_step(s: St, recv: Map<Height, Block>, hs: Seq<Height>) -> St decreases hs.len() {
    if hs.len() == 0 { s } else { block_step(blocks_step(s, recv, hs.drop_last()), recv[hs.last()], hs.last()) }
}
/// heights in increasing order, all of them
pub open spec fn ascending(hs: Seq<Height>, m: Map<Height, Block>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < hs.len() ==> hs[i] < hs[j]
    &&& hs.to_set() == m.dom()
}
/// peers stop being offered what left the mempool
pub open spec fn pruned(a: Map<PeerId, Peer>, b: Map<PeerId, Peer>, mp: MP) -> bool {
    &&& a.dom() == b.dom()
    &&& forall|k: PeerId| #[trigger] a.contains_key(k) ==> b[k].same(a[k]) && b[k].outbox@ == a[k].outbox@.restrict(mp.dom())
}
/// one transaction is offered to all relaying peers
pub open spec fn offered(a: Map<PeerId, Peer>, b: Map<PeerId, Peer>, tx: Transaction) -> bool {
    &&& a.dom() == b.dom()
    &&& forall|k: PeerId| #[trigger] a.contains_key(k) ==> b[k].same(a[k]) && b[k].outbox@ == (if a[k].relay { a[k].outbox@.insert(wtxid_of(tx), txid_of(tx)) } else { a[k].outbox@ })
}
/// transactions put back
pub open spec fn back(m: MP, ts: Seq<Transaction>) -> MP decreases ts.len() { if ts.len() == 0 { m } else { back(m, ts.drop_last()).insert(wtxid_of(ts.last()), ts.last()) } }
pub open spec fn back_ob(m: Map<Wtxid, Txid>, ts: Seq<Transaction>) -> Map<Wtxid, Txid> decreases ts.len() { if ts.len() == 0 { m } else { back_ob(m, ts.drop_last()).insert(wtxid_of(ts.last()), txid_of(ts.last())) } }
pub open spec fn back_evs(ts: Seq<Transaction>) -> Seq<Event> { ts.map_values(|t: Transaction| Event::TxStatusChanged { txid: txid_of(t), status: TxStatus::Reverted { transaction: t } }) }
pub open spec fn offered_all(a: Map<PeerId, Peer>, b: Map<PeerId, Peer>, ts: Seq<Transaction>) -> bool {
    &&& a.dom() == b.dom()
    &&& forall|k: PeerId| #[trigger] a.contains_key(k) ==> b[k].same(a[k]) && b[k].outbox@ == (if a[k].relay { back_ob(a[k].outbox@, ts) } else { a[k].outbox@ })
}
/// the requested transactions that are ours are sent, the latest last
pub open spec fn tx_of(m: MP, i: Inventory) -> Option<Transaction> {
    match i {
        Inventory::Transaction(id) => found(m, id), Inventory::WitnessTransaction(id) => found(m, id),
        Inventory::WTx(w) => if m.contains_key(w) { Some(m[w]) } else { None },
        _ => None }
}
pub open spec fn answers(m: MP, addr: PeerId, invs: Seq<Inventory>) -> Seq<(PeerId, NetworkMessage)> decreases invs.len() {
    if invs.len() == 0 { Seq::empty() } else {
        match tx_of(m, invs.last()) { Some(t) => answers(m, addr, invs.drop_last()).push((addr, NetworkMessage::Tx(t))), None => answers(m, addr, invs.drop_last()) } }
}
/// requests for what was offered acknowledge it, once
pub open spec fn acks(m: MP, addr: PeerId, ob: Map<Wtxid, Txid>, invs: Seq<Inventory>) -> (Map<Wtxid, Txid>, Seq<Event>) decreases invs.len() {
    if invs.len() == 0 { (ob, Seq::empty()) } else {
        let (o, e) = acks(m, addr, ob, invs.drop_last());
        match tx_of(m, invs.last()) {
            Some(t) => if o.contains_key(wtxid_of(t)) { (o.remove(wtxid_of(t)), e.push(Event::TxStatusChanged { txid: txid_of(t), status: TxStatus::Acknowledged { peer: addr } })) } else { (o, e) },
            None => (o, e) } }
}
/// an inventory message naming exactly what a peer is offered
pub open spec fn names(v: Seq<Inventory>, p: Peer) -> bool {
    exists|ws: Seq<Wtxid>| #[trigger] lists(ws, p.outbox@) && v =~= ws.map_values(|w: Wtxid| if p.wtxidrelay { Inventory::WTx(w) } else { Inventory::Transaction(p.outbox@[w]) })
}
pub open spec fn since(now: LocalTime, t: Option<LocalTime>) -> int { let x = if t is Some { t->Some_0.ms() } else { 0 }; if now.ms() >= x { now.ms() - x } else { 0 } }
impl Peer {
    pub open spec fn due(&self, now: LocalTime, t: LocalDuration) -> bool { self.outbox@ != Map::<Wtxid, Txid>::empty() && since(now, self.last_attempt) >= t.ms() }
    pub open spec fn late(&self, now: LocalTime, t: LocalDuration) -> bool { self.due(now, t) && self.attempts >= 3 }
    pub open spec fn tried(&self, now: LocalTime, t: LocalDuration) -> bool { self.due(now, t) && self.attempts < 3 }
    pub open spec fn ticked(&self, o: Peer, now: LocalTime, t: LocalDuration) -> bool {
        if o.tried(now, t) { *self == (Peer { last_attempt: Some(now), attempts: (o.attempts + 1) as usize, ..o }) } else { *self == o }
    }
}
pub open spec fn late_ones(ks: Seq<PeerId>, a: Map<PeerId, Peer>, now: LocalTime, t: LocalDuration) -> Seq<PeerId> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else if a[ks.last()].late(now, t) { late_ones(ks.drop_last(), a, now, t).push(ks.last()) } else { late_ones(ks.drop_last(), a, now, t) }
}
pub open spec fn offers(ks: Seq<PeerId>, a: Map<PeerId, Peer>, now: LocalTime, t: LocalDuration, w: Seq<(PeerId, NetworkMessage)>) -> bool decreases ks.len() {
    if ks.len() == 0 { w.len() == 0 } else if a[ks.last()].tried(now, t) {
        w.len() > 0 && w.last().0 == ks.last() && w.last().1 is Inv && names(w.last().1->Inv_0@, a[ks.last()]) && offers(ks.drop_last(), a, now, t, w.drop_last())
    } else { offers(ks.drop_last(), a, now, t, w) }
}
pub proof fn lemma_late(ks: Seq<PeerId>, a: Map<PeerId, Peer>, now: LocalTime, t: LocalDuration)
    ensures forall|k: PeerId| #[trigger] late_ones(ks, a, now, t).contains(k) <==> ks.contains(k) && a[k].late(now, t) decreases ks.len()
{
    if ks.len() > 0 {
        lemma_late(ks.drop_last(), a, now, t);
        lemma_push_contains(late_ones(ks.drop_last(), a, now, t), ks.last()); lemma_push_contains(ks.drop_last(), ks.last());
        assert(ks.drop_last().push(ks.last()) =~= ks);
        assert forall|k: PeerId| #[trigger] late_ones(ks, a, now, t).contains(k) <==> ks.contains(k) && a[k].late(now, t) by { assert(late_ones(ks.drop_last(), a, now, t).contains(k) <==> ks.drop_last().contains(k) && a[k].late(now, t)); }
    }
}
pub proof fn lemma_push_contains<A>(s: Seq<A>, x: A) ensures forall|k: A| #[trigger] s.push(x).contains(k) <==> s.contains(k) || k == x
{
    assert forall|k: A| #[trigger] s.push(x).contains(k) <==> s.contains(k) || k == x by {
        if s.contains(k) { let i = s.index_of(k); assert(s.push(x)[i] == k); }
        assert(s.push(x)[s.len() as int] == x);
        if s.push(x).contains(k) { let i = s.push(x).index_of(k); if i < s.len() { assert(s[i] == k); } }
    }
}
/// block requests, one each, to peers that serve blocks
pub open spec fn block_asks(qs: Seq<BlockHash>, p: Map<PeerId, Peer>, w: Seq<(PeerId, NetworkMessage)>) -> bool {
    &&& w.len() == qs.len()
    &&& forall|i: int| 0 <= i < qs.len() ==> p.contains_key((#[trigger] w[i]).0) && has_services(p[w[i].0].services, ServiceFlags::NETWORK) && w[i].1 is GetData && w[i].1->GetData_0@ == seq![Inventory::Block(qs[i])]
}
pub open spec fn timed_out(ps: Seq<PeerId>) -> Seq<Event> { ps.map_values(|a: PeerId| Event::PeerTimedOut { addr: a }) }
/// headers imported: the blocks reported are those that left the chain, from its tip down
pub open spec fn reverted_from(rev: Seq<(Height, BlockHeader)>, b0: Seq<BlockHash>, b1: Seq<BlockHash>) -> bool {
    &&& b0.len() <= 0x200_0000_0000_0000 && rev.len() < b0.len() && b0.len() - rev.len() <= b1.len() && b0.take(b0.len() - rev.len()) == b1.take(b0.len() - rev.len())
    &&& forall|i: int| 0 <= i < rev.len() ==> (#[trigger] rev[i]).0 == b0.len() - 1 - i && rev[i].1.hash == b0[rev[i].0 as int]
}
impl<C: Clock> InventoryManager<C> {
    pub open spec fn st(&self, ids: Seq<Txid>) -> St { St { mp: self.mempool@, conf: cm(self.confirmed@), est: self.estimator, evs: self.outbox.evs(), ids } }
    /// the mempool and what peers are offered agree
    pub open spec fn pool(&self) -> bool {
        &&& forall|w: Wtxid| #[trigger] self.mempool@.contains_key(w) ==> wtxid_of(self.mempool@[w]) == w
        &&& forall|k: PeerId, w: Wtxid| self.peers@.contains_key(k) && #[trigger] self.peers@[k].outbox@.contains_key(w) ==> self.mempool@.contains_key(w) && self.peers@[k].outbox@[w] == txid_of(self.mempool@[w])
        &&& forall|k: PeerId| #[trigger] self.peers@.contains_key(k) ==> self.peers@[k].attempts <= 3
    }
    /// received and confirmed belong to the active chain
    pub open spec fn on(&self, b: Seq<BlockHash>) -> bool {
        &&& forall|h: Height| #[trigger] self.received@.contains_key(h) ==> h < b.len() && self.received@[h].header.hash == b[h as int] && merkle_ok(self.received@[h])
        &&& forall|h: Height| #[trigger] self.confirmed@.contains_key(h) ==> h < b.len()
    }
    pub open spec fn wf(&self, b: Seq<BlockHash>) -> bool { self.pool() && self.on(b) }
    pub open spec fn frame(&self, o: Self) -> bool { self.timeout == o.timeout && self.clock == o.clock && self.rng == o.rng && self.outbox.drs() == o.outbox.drs() }
    /// blocks received are processed in the order of the chain, as soon as no request is outstanding
    pub open spec fn processed(&self, o: Self, ids: Seq<Txid>) -> bool {
        &&& self.frame(o) && self.remaining == o.remaining && self.last_tick == o.last_tick && self.outbox.wrs() == o.outbox.wrs()
        &&& if o.remaining@ != Map::<BlockHash, Option<LocalTime>>::empty() { *self == o && ids.len() == 0 } else {
            &&& self.received@ == Map::<Height, Block>::empty() && pruned(o.peers@, self.peers@, self.mempool@)
            &&& exists|hs: Seq<Height>| #[trigger] ascending(hs, o.received@) && self.st(ids) == blocks_step(o.st(Seq::empty()), o.received@, hs)
        }
    }
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn schedule_tick
//@ spec:
    ensures *final(self) == (InventoryManager { last_tick: None, outbox: final(self).outbox, ..*old(self) }), final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.wrs() == old(self).outbox.wrs(), final(self).outbox.drs() == old(self).outbox.drs()
//@ entry:
    broadcast use lemma_push;
//@@ end
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn get_block
//@ props: C17
//@ subst: self.remaining.entry(hash).or_insert(None) =>> self.remaining.or_insert(hash, None)
//@ spec:
    ensures *final(self) == (InventoryManager { last_tick: None, outbox: final(self).outbox, remaining: final(self).remaining, ..*old(self) }), final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.wrs() == old(self).outbox.wrs(), final(self).outbox.drs() == old(self).outbox.drs(),
        final(self).remaining@ == (if old(self).remaining@.contains_key(hash) { old(self).remaining@ } else { old(self).remaining@.insert(hash, None) })
//@@ end
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn announce
//@ props: C17
//@ attr: #[verifier::spinoff_prover]
//@ subst: for (addr, peer) in self.peers.iter_mut().filter(|(_, p)| p.relay) { =>> let (vs, Ghost(ks)) = self.peers.iter_mut_vec(); let ghost VS = vs@; for (addr, peer) in vs { if peer.relay {
//@ subst: addrs.push(*addr); =>> addrs.push(*addr); }
//@ spec:
    requires old(self).pool()
    ensures final(self).pool(), final(self).mempool@ == old(self).mempool@.insert(wtxid_of(tx), tx), offered(old(self).peers@, final(self).peers@, tx),
        final(self).frame(*old(self)), final(self).confirmed == old(self).confirmed, final(self).estimator == old(self).estimator, final(self).remaining == old(self).remaining, final(self).received == old(self).received,
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.wrs() == old(self).outbox.wrs(),
        forall|k: PeerId| #[trigger] r@.contains(k) <==> old(self).peers@.contains_key(k) && old(self).peers@[k].relay,
//@ entry:
    let ghost O = *self;
    let ghost TX = tx;
//@ loop 0 it=it:
    invariant
        it.seq() == VS, ks.len() == VS.len(), lists(ks, O.peers@), wtxid == wtxid_of(TX), txid == txid_of(TX),
        forall|i: int| 0 <= i < VS.len() ==> *(#[trigger] VS[i]).0 == ks[i] && *VS[i].1 == O.peers@[ks[i]],
        forall|i: int| 0 <= i < it.index@ ==> (final((#[trigger] VS[i]).1)).same(*VS[i].1) && final(VS[i].1).outbox@ == (if VS[i].1.relay { VS[i].1.outbox@.insert(wtxid, txid) } else { VS[i].1.outbox@ }),
        forall|k: PeerId| #[trigger] addrs@.contains(k) <==> exists|i: int| 0 <= i < it.index@ && #[trigger] ks[i] == k && O.peers@[k].relay,
//@ loop_start 0:
    let ghost a0 = addrs@;
    let ghost n = it.index@;
    proof { assert(*VS[n].0 == ks[n]); }
//@ loop_end 0:
    proof {
        assert forall|k: PeerId| #[trigger] addrs@.contains(k) <==> exists|i: int| 0 <= i < n + 1 && #[trigger] ks[i] == k && O.peers@[k].relay by {
            if addrs@.contains(k) {
                let j = addrs@.index_of(k);
                if j < a0.len() { assert(a0[j] == k); assert(a0.contains(k)); } else { assert(ks[n] == k && O.peers@[k].relay); }
            }
            if exists|i: int| 0 <= i < n + 1 && #[trigger] ks[i] == k && O.peers@[k].relay {
                let i = choose|i: int| 0 <= i < n + 1 && #[trigger] ks[i] == k && O.peers@[k].relay;
                if i < n { assert(a0.contains(k)); let j = a0.index_of(k); assert(addrs@[j] == k); } else { assert(addrs@[a0.len() as int] == k); }
            }
        }
    }
//@ loop_after 0:
    proof {
        assert forall|k: PeerId| #[trigger] O.peers@.contains_key(k) implies self.peers@[k].same(O.peers@[k]) && self.peers@[k].outbox@ == (if O.peers@[k].relay { O.peers@[k].outbox@.insert(wtxid, txid) } else { O.peers@[k].outbox@ })
            && exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k by {
            assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(*VS[i].0 == ks[i]); }
        assert forall|i: int| 0 <= i < ks.len() implies O.peers@.contains_key(#[trigger] ks[i]) by { assert(ks.to_set().contains(ks[i])); }
        assert(offered(O.peers@, self.peers@, TX));
        if O.mempool@.contains_key(wtxid) { axiom_wtxid(O.mempool@[wtxid], TX); }
        assert(self.pool());
    }
//@@ end
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn get_submitted_tx
//@ props: C17
//@ subst: self.mempool.values().find(|tx| tx.txid() == *txid).cloned() =>> (match find_txid(&self.mempool, txid) { Some(t) => Some(t.clone()), None => None })
//@ spec:
    ensures *final(self) == *old(self), r == found(old(self).mempool@, *txid)
//@@ end
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn peer_negotiated
//@ props: C17
//@ subst: HashMap::with_hasher(self.rng.clone().into()) =>> HashMap::new()
//@ spec:
    requires old(self).pool()
    ensures final(self).pool(), final(self).frame(*old(self)), *final(self) == (InventoryManager { last_tick: None, outbox: final(self).outbox, peers: final(self).peers, ..*old(self) }),
        final(self).outbox.evs() == old(self).outbox.evs(), final(self).outbox.wrs() == old(self).outbox.wrs(),
        // a new peer is offered the whole mempool
        final(self).peers@ == old(self).peers@.insert(addr, final(self).peers@[addr]), final(self).peers@[addr].outbox@.dom() == old(self).mempool@.dom(),
        final(self).peers@[addr].attempts == 0 && final(self).peers@[addr].last_attempt is None && final(self).peers@[addr].relay == relay && final(self).peers@[addr].services == services && final(self).peers@[addr].wtxidrelay == wtxidrelay,
//@ loop 0 it=it:
    invariant
        old(self).pool(), *self == *old(self),
        forall|i: int| 0 <= i < it.seq().len() ==> self.mempool@.contains_key(*(#[trigger] it.seq()[i]).0) && self.mempool@[*it.seq()[i].0] == *it.seq()[i].1,
        forall|w: Wtxid| #[trigger] outbox@.contains_key(w) ==> self.mempool@.contains_key(w) && outbox@[w] == txid_of(self.mempool@[w]),
        forall|i: int| 0 <= i < it.index@ ==> outbox@.contains_key(*(#[trigger] it.seq()[i]).0),
//@ loop_after 0:
    proof { assert(outbox@.dom() =~= self.mempool@.dom()); }
//@@ end
    pub open spec fn to_revert(&self, h: Height) -> Seq<Transaction> { if self.confirmed@.contains_key(h) { self.confirmed@[h]@ } else { Seq::empty() } }
    /// a block left the chain: what it confirmed is unconfirmed again, reported and offered anew
    pub open spec fn reverted(&self, o: Self, h: Height) -> bool {
        &&& self.frame(o) && self.remaining == o.remaining && self.outbox.wrs() == o.outbox.wrs()
        &&& self.received@ == o.received@.remove(h) && self.confirmed@ == o.confirmed@.remove(h) && self.estimator == est_back(o.estimator, (h - 1) as u64)
        &&& self.mempool@ == back(o.mempool@, o.to_revert(h)) && offered_all(o.peers@, self.peers@, o.to_revert(h))
        &&& self.outbox.evs() == o.outbox.evs() + back_evs(o.to_revert(h))
    }
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn block_reverted
//@ props: C17
//@ attr: #[verifier::spinoff_prover]
//@ spec:
    requires old(self).pool(), height >= 1
    ensures final(self).pool(), final(self).reverted(*old(self), height)
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
    proof { assert(O.outbox.evs() + back_evs(Seq::empty()) =~= O.outbox.evs()); }
//@ loop 0 it=it:
    invariant
        it.seq() == TS, TS == O.to_revert(height), self.pool(),
        self.frame(O), self.remaining == O.remaining, self.outbox.wrs() == O.outbox.wrs(), self.received@ == O.received@.remove(height), self.confirmed@ == O.confirmed@.remove(height), self.estimator == est_back(O.estimator, (height - 1) as u64),
        self.mempool@ == back(O.mempool@, TS.take(it.index@)), offered_all(O.peers@, self.peers@, TS.take(it.index@)), self.outbox.evs() == O.outbox.evs() + back_evs(TS.take(it.index@)),
//@ loop_before 0:
    let ghost TS = transactions@;
    proof { assert(TS.take(0) =~= Seq::empty()); assert(O.outbox.evs() + back_evs(TS.take(0)) =~= O.outbox.evs()); }
//@ loop_start 0:
    broadcast use lemma_push;
    proof {
        let n = it.index@; let t = TS[n]; let ev = Event::TxStatusChanged { txid: txid_of(t), status: TxStatus::Reverted { transaction: t } };
        assert(TS.take(n + 1).drop_last() =~= TS.take(n)); assert(TS.take(n + 1).last() == t);
        assert(back_evs(TS.take(n + 1)) =~= back_evs(TS.take(n)).push(ev));
        assert(O.outbox.evs() + back_evs(TS.take(n + 1)) =~= (O.outbox.evs() + back_evs(TS.take(n))).push(ev));
    }
//@ loop_after 0:
    proof { assert(TS.take(TS.len() as int) =~= TS); }
//@@ end
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn process_received
//@ props: C17
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ subst: vec![] =>> Vec::new()
//@ subst: while let Some((height, block)) = self.received.keys().min().cloned().and_then(|h| self.received.remove(&h).map(|b| (h, b))) { =>> while !self.received.is_empty() { let (height, block) = self.received.pop_min().unwrap();
//@ subst: for peer in self.peers.values_mut() =>> let (vs, Ghost(ks)) = self.peers.values_mut(); let ghost VS = vs@; for peer in vs
//@ subst: self.confirmed.entry(height).or_default().push(transaction.clone()) =>> self.confirmed.push_at(height, transaction.clone())
//@ spec:
    requires old(self).pool()
    ensures final(self).pool(), final(self).processed(*old(self), r@), forall|h: Height| #[trigger] final(self).confirmed@.contains_key(h) ==> old(self).confirmed@.contains_key(h) || old(self).received@.contains_key(h)
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
//@ loop 0:
    invariant
        O == *old(self), O.pool(), self.pool(), O.remaining@ == Map::<BlockHash, Option<LocalTime>>::empty(),
        self.frame(O), self.remaining == O.remaining, self.last_tick == O.last_tick, self.outbox.wrs() == O.outbox.wrs(),
        forall|i: int, j: int| 0 <= i < j < hs.len() ==> hs[i] < hs[j],
        forall|h: Height| #[trigger] O.received@.contains_key(h) <==> hs.contains(h) || self.received@.contains_key(h),
        forall|h: Height| #[trigger] self.received@.contains_key(h) ==> self.received@[h] == O.received@[h] && forall|i: int| 0 <= i < hs.len() ==> hs[i] < h,
        self.st(confirmed@) == blocks_step(O.st(Seq::empty()), O.received@, hs),
        pruned(O.peers@, self.peers@, self.mempool@),
        forall|h: Height| #[trigger] self.confirmed@.contains_key(h) ==> O.confirmed@.contains_key(h) || O.received@.contains_key(h),
        forall|w: Wtxid| #[trigger] self.mempool@.contains_key(w) ==> O.mempool@.contains_key(w) && self.mempool@[w] == O.mempool@[w],
    decreases self.received@.dom().len(),
//@ loop_before 0:
    let ghost mut hs = Seq::<Height>::empty();
    proof { assert forall|k: PeerId| #[trigger] O.peers@.contains_key(k) implies O.peers@[k].outbox@ == O.peers@[k].outbox@.restrict(O.mempool@.dom()) by { assert(O.peers@[k].outbox@ =~= O.peers@[k].outbox@.restrict(O.mempool@.dom())); } }
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost S0 = blocks_step(O.st(Seq::empty()), O.received@, hs);
    let ghost R0 = self.received@; let ghost B = self.remaining;
//@ loop_end 0:
    proof {
        let hs2 = hs.push(height);
        assert(hs2.drop_last() =~= hs);
        assert forall|h: Height| #[trigger] O.received@.contains_key(h) <==> hs2.contains(h) || self.received@.contains_key(h) by {
            if hs.contains(h) { let i = hs.index_of(h); assert(hs2[i] == h); } assert(hs2[hs.len() as int] == height);
            if hs2.contains(h) { let i = hs2.index_of(h); if i < hs.len() { assert(hs[i] == h); assert(hs.contains(h)); } }
        }
        hs = hs2;
    }
//@ loop_after 0:
    proof { assert(hs.to_set() =~= O.received@.dom()); assert(ascending(hs, O.received@)); assert(self.received@ =~= Map::<Height, Block>::empty()); }
//@ loop 1 it=it:
    invariant
        it.seq() == block.txdata@.map_values(|t: Transaction| &t), hash == block.header.hash, block == BLK, O.received@.contains_key(height),
        O.pool(), self.pool(), self.received@ == R0.remove(height), self.frame(O), self.remaining == O.remaining, self.last_tick == O.last_tick, self.outbox.wrs() == O.outbox.wrs(),
        self.st(confirmed@) == txs_step(S0, BLK, height, it.index@),
        pruned(O.peers@, self.peers@, self.mempool@),
        forall|h: Height| #[trigger] self.confirmed@.contains_key(h) ==> O.confirmed@.contains_key(h) || O.received@.contains_key(h),
        forall|w: Wtxid| #[trigger] self.mempool@.contains_key(w) ==> O.mempool@.contains_key(w) && self.mempool@[w] == O.mempool@[w],
//@ loop_before 1:
    let ghost BLK = block;
    proof { assert(O.received@.contains_key(height)); }
//@ loop_start 1:
    broadcast use lemma_push;
    let ghost M0 = self.mempool@; let ghost P0 = self.peers@;
//@ loop_end 1:
    proof { if !M0.contains_key(wtxid) { assert(M0.remove(wtxid) =~= M0); } assert(*tx == BLK.txdata@[it.index@]); assert(self.st(confirmed@) == tx_step(txs_step(S0, BLK, height, it.index@), *tx, hash, height)); }
//@ loop 2 it=it2:
    invariant
        it2.seq() == VS, ks.len() == VS.len(), lists(ks, P0),
        forall|i: int| 0 <= i < VS.len() ==> *(#[trigger] VS[i]) == P0[ks[i]],
        forall|i: int| 0 <= i < it2.index@ ==> (final(#[trigger] VS[i])).same(*VS[i]) && final(VS[i]).outbox@ == VS[i].outbox@.remove(wtxid),
//@ loop_after 2:
    proof {
        assert forall|k: PeerId| #[trigger] O.peers@.contains_key(k) implies self.peers@[k].same(O.peers@[k]) && self.peers@[k].outbox@ == O.peers@[k].outbox@.restrict(self.mempool@.dom()) by {
            assert(P0.contains_key(k)); assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(*VS[i] == P0[ks[i]]);
            assert(self.peers@[k].outbox@ =~= O.peers@[k].outbox@.restrict(self.mempool@.dom())); }
        assert(self.pool());
    }
//@@ end
    /// the awaited block is in: no longer outstanding, queued if it is on the active chain
    pub open spec fn took(&self, o: Self, block: Block, b: Seq<BlockHash>) -> bool {
        &&& *self == (InventoryManager { remaining: self.remaining, received: self.received, peers: self.peers, ..o })
        &&& self.remaining@ == o.remaining@.remove(block.header.hash)
        &&& self.peers@.dom() == o.peers@.dom() && forall|k: PeerId| #[trigger] o.peers@.contains_key(k) ==> self.peers@[k].same(o.peers@[k]) && self.peers@[k].outbox == o.peers@[k].outbox
        &&& if b.contains(block.header.hash) { exists|h: Height| h < b.len() && #[trigger] b[h as int] == block.header.hash && self.received@ == o.received@.insert(h, block) } else { self.received == o.received }
    }
    pub open spec fn on_block(&self, o: Self, block: Block, b: Seq<BlockHash>, ids: Seq<Txid>) -> bool {
        if !merkle_ok(block) || !o.remaining@.contains_key(block.header.hash) { self.same_state(o) && ids.len() == 0 }
        else { exists|m: Self| #[trigger] m.took(o, block, b) && self.processed(m, ids) }
    }
    pub open spec fn same_state(&self, o: Self) -> bool { *self == (InventoryManager { remaining: self.remaining, ..o }) && self.remaining@ == o.remaining@ }
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn received_block
//@ props: C17
//@ attr: #[verifier::spinoff_prover]
//@ subst: vec![] =>> Vec::new()
//@ subst: for peer in self.peers.values_mut() =>> let (vs, Ghost(ks)) = self.peers.values_mut(); let ghost VS = vs@; for peer in vs
//@ spec:
    requires old(self).wf(tree.bc())
    ensures final(self).wf(tree.bc()), final(self).on_block(*old(self), block, tree.bc(), r@)
//@ entry:
    let ghost O = *self; let ghost BLK = block; let ghost b = tree.bc(); let ghost mut m = *self;
    proof { assert(O.remaining@.remove(BLK.header.hash) =~= O.remaining@ || O.remaining@.contains_key(BLK.header.hash)); }
//@ loop 0 it=it:
    invariant
        it.seq() == VS, ks.len() == VS.len(), lists(ks, O.peers@),
        forall|i: int| 0 <= i < VS.len() ==> *(#[trigger] VS[i]) == O.peers@[ks[i]],
        forall|i: int| 0 <= i < it.index@ ==> (final(#[trigger] VS[i])).same(*VS[i]) && final(VS[i]).outbox == VS[i].outbox,
//@ loop_after 0:
    proof {
        assert forall|k: PeerId| #[trigger] O.peers@.contains_key(k) implies self.peers@[k].same(O.peers@[k]) && self.peers@[k].outbox == O.peers@[k].outbox by {
            assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(*VS[i] == O.peers@[ks[i]]); }
        assert(self.pool());
    }
//@ before `self.process_received()`:
    proof { m = *self; assert(m.took(O, BLK, b)); assert(m.on(b)); }
//@@ end
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn received_getdata
//@ props: C17
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ subst: self.mempool.values().find(|tx| tx.txid() == *txid) =>> find_txid(&self.mempool, txid)
//@ spec:
    requires old(self).pool()
    ensures final(self).pool(), *final(self) == (InventoryManager { peers: final(self).peers, outbox: final(self).outbox, ..*old(self) }), final(self).outbox.drs() == old(self).outbox.drs(),
        final(self).outbox.wrs() == old(self).outbox.wrs() + answers(old(self).mempool@, addr, invs@),
        final(self).peers@.dom() == old(self).peers@.dom(), forall|k: PeerId| k != addr && #[trigger] old(self).peers@.contains_key(k) ==> final(self).peers@[k] == old(self).peers@[k],
        old(self).peers@.contains_key(addr) ==> ({
            let a = acks(old(self).mempool@, addr, old(self).peers@[addr].outbox@, invs@);
            final(self).peers@[addr].outbox@ == a.0 && final(self).outbox.evs() == old(self).outbox.evs() + a.1 }),
        !old(self).peers@.contains_key(addr) ==> final(self).outbox.evs() == old(self).outbox.evs(),
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self; let ghost m = self.mempool@;
    proof { assert(invs@.take(0) =~= Seq::empty()); assert(O.outbox.wrs() + answers(m, addr, invs@.take(0)) =~= O.outbox.wrs()); assert(O.outbox.evs() + acks(m, addr, O.peers@[addr].outbox@, invs@.take(0)).1 =~= O.outbox.evs()); }
//@ loop 0 it=it:
    invariant
        it.seq() == invs@.map_values(|t: Inventory| &t), m == O.mempool@,
        self.pool(), *self == (InventoryManager { peers: self.peers, outbox: self.outbox, ..O }), self.outbox.drs() == O.outbox.drs(),
        self.outbox.wrs() == O.outbox.wrs() + answers(m, addr, invs@.take(it.index@)),
        self.peers@.dom() == O.peers@.dom(), forall|k: PeerId| k != addr && #[trigger] O.peers@.contains_key(k) ==> self.peers@[k] == O.peers@[k],
        O.peers@.contains_key(addr) ==> self.peers@[addr].outbox@ == acks(m, addr, O.peers@[addr].outbox@, invs@.take(it.index@)).0 && self.outbox.evs() == O.outbox.evs() + acks(m, addr, O.peers@[addr].outbox@, invs@.take(it.index@)).1,
        !O.peers@.contains_key(addr) ==> self.outbox.evs() == O.outbox.evs(),
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost n = it.index@; let ghost L = *self;
    proof {
        assert(invs@.take(n + 1).drop_last() =~= invs@.take(n)); assert(invs@.take(n + 1).last() == *inv);
        let w = answers(m, addr, invs@.take(n)); let e = acks(m, addr, O.peers@[addr].outbox@, invs@.take(n));
        match tx_of(m, *inv) { Some(t) => {
            let x = (addr, NetworkMessage::Tx(t)); assert(O.outbox.wrs() + w.push(x) =~= (O.outbox.wrs() + w).push(x));
            let y = Event::TxStatusChanged { txid: txid_of(t), status: TxStatus::Acknowledged { peer: addr } }; assert(O.outbox.evs() + e.1.push(y) =~= (O.outbox.evs() + e.1).push(y));
            if !e.0.contains_key(wtxid_of(t)) { assert(e.0.remove(wtxid_of(t)) =~= e.0); }
        }, None => {} }
    }
//@ loop_end 0:
    proof {
        if O.peers@.contains_key(addr) { match *inv { Inventory::WTx(w) => { if !L.peers@[addr].outbox@.contains_key(w) { assert(L.peers@[addr].outbox@.remove(w) =~= L.peers@[addr].outbox@); } }, _ => {} } }
    }
//@ loop_after 0:
    proof { assert(invs@.take(invs@.len() as int) =~= invs@); }
//@@ end
    pub open spec fn kept(&self, o: Self, ks: Seq<PeerId>) -> bool {
        forall|k: PeerId| #[trigger] self.peers@.contains_key(k) <==> o.peers@.contains_key(k) && !o.peers@[k].late(o.clock.now(), o.timeout)
    }
    pub open spec fn serves(p: Map<PeerId, Peer>) -> bool { exists|k: PeerId| #[trigger] p.contains_key(k) && has_services(p[k].services, ServiceFlags::NETWORK) }
    /// one round of the timer
    pub open spec fn ticked(&self, o: Self, ks: Seq<PeerId>, qs: Seq<BlockHash>, w1: Seq<(PeerId, NetworkMessage)>, w2: Seq<(PeerId, NetworkMessage)>) -> bool {
        let now = o.clock.now();
        &&& lists(ks, o.peers@) && self.outbox.wrs() == o.outbox.wrs() + w1 + w2 && offers(ks, o.peers@, now, o.timeout, w1)
        &&& self.outbox.evs() == o.outbox.evs() + timed_out(late_ones(ks, o.peers@, now, o.timeout))
        &&& self.kept(o, ks) && forall|k: PeerId| #[trigger] self.peers@.contains_key(k) ==> self.peers@[k].ticked(o.peers@[k], now, o.timeout)
        // exactly the blocks last requested too long ago (or not yet) are requested, if any peer serves blocks
        &&& qs.no_duplicates() && forall|h: BlockHash| #[trigger] qs.contains(h) <==> o.remaining@.contains_key(h) && since(now, o.remaining@[h]) >= 15000
        &&& if Self::serves(self.peers@) { block_asks(qs, self.peers@, w2) } else { w2.len() == 0 }
        &&& self.remaining@.dom() == o.remaining@.dom() && forall|h: BlockHash| #[trigger] o.remaining@.contains_key(h) ==> self.remaining@[h] == (if Self::serves(self.peers@) && qs.contains(h) { Some(now) } else { o.remaining@[h] })
    }
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn timer_expired
//@ props: C17
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(100)]
//@ subst: unwrap_or_default() =>> unwrap_or(LocalTime { millis: 0 })
//@ subst: .retain(|h, _| height - h <= TRANSACTION_PRUNE_DEPTH) =>> .retain_kv(|h: &Height, _v: &Vec<Transaction>| -> (b: bool) requires *h <= height ensures b == (height - *h <= 12) { height - *h <= TRANSACTION_PRUNE_DEPTH })
//@ subst: for (addr, peer) in &mut *self.peers { =>> let (vs, Ghost(ks)) = self.peers.iter_mut_vec(); let ghost VS = vs@; let ghost CF = self.confirmed; for (addr, peer) in vs {
//@ subst: for wtxid in peer.outbox.keys() =>> let it_keys = peer.outbox.keys_vec(); let ghost WS = it_keys@; for wtxid in it_keys
//@ subst: self.mempool[wtxid] =>> self.mempool.at(&wtxid)
//@ subst: .iter_mut().filter(|(_, t)| now - t.unwrap_or(LocalTime { millis: 0 }) >= REQUEST_TIMEOUT) =>> .iter_mut_filter(|_h: &BlockHash, t: &Option<LocalTime>| -> (b: bool) ensures b == (since(now, *t) >= 15000) { now - t.unwrap_or(LocalTime { millis: 0 }) >= REQUEST_TIMEOUT })
//@ subst: let queue = =>> let (queue, Ghost(qs)) =
//@ subst: .sample_with(|_, p| p.services.has(ServiceFlags::NETWORK)) =>> .sample_with(|_a: &PeerId, p: &Peer| -> (b: bool) ensures b == has_services(p.services, ServiceFlags::NETWORK) { p.services.has(ServiceFlags::NETWORK) })
//@ subst: vec![Inventory::Block(*block_hash)] =>> one(Inventory::Block(*block_hash))
//@ spec:
    requires old(self).wf(tree.bc())
    ensures final(self).wf(tree.bc()), final(self).frame(*old(self)), final(self).mempool == old(self).mempool, final(self).received == old(self).received, final(self).estimator == old(self).estimator,
        // only deeply buried confirmations are forgotten
        forall|h: Height| #[trigger] final(self).confirmed@.contains_key(h) <==> old(self).confirmed@.contains_key(h) && tree.bc().len() - 1 - h <= 12,
        forall|h: Height| #[trigger] final(self).confirmed@.contains_key(h) ==> final(self).confirmed@[h] == old(self).confirmed@[h],
        exists|ks: Seq<PeerId>, qs: Seq<BlockHash>, w1: Seq<(PeerId, NetworkMessage)>, w2: Seq<(PeerId, NetworkMessage)>| #[trigger] final(self).ticked(*old(self), ks, qs, w1, w2)
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
    let ghost T = O.timeout;
    let ghost P0 = O.peers@;
    proof { tree.lemma_bc(); }
//@ loop 0 it=it:
    invariant
        it.seq() == VS, ks.len() == VS.len(), lists(ks, P0), O.pool(), P0 == O.peers@, T == O.timeout, now == O.clock.now(),
        self.timeout == T, self.mempool == O.mempool, self.confirmed == CF, self.received == O.received, self.remaining == O.remaining, self.estimator == O.estimator, self.clock == O.clock, self.rng == O.rng,
        self.outbox.evs() == O.outbox.evs(), self.outbox.drs() == O.outbox.drs(),
        forall|i: int| 0 <= i < VS.len() ==> *(#[trigger] VS[i]).0 == ks[i] && *VS[i].1 == P0[ks[i]] && P0.contains_key(ks[i]),
        forall|i: int| 0 <= i < it.index@ ==> (final((#[trigger] VS[i]).1)).ticked(*VS[i].1, now, T),
        disconnect@ == late_ones(ks.take(it.index@), P0, now, T),
        self.outbox.wrs() == O.outbox.wrs() + w1, offers(ks.take(it.index@), P0, now, T, w1),
//@ loop_before 0:
    let ghost mut w1: Seq<(PeerId, NetworkMessage)> = Seq::empty();
    proof { assert(ks.take(0) =~= Seq::empty()); assert(O.outbox.wrs() + w1 =~= O.outbox.wrs());
        assert forall|i: int| 0 <= i < VS.len() implies P0.contains_key(ks[i]) && *(#[trigger] VS[i]).0 == ks[i] by { assert(ks.to_set().contains(ks[i])); } }
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost n = it.index@; let ghost a = *peer; let ghost o0 = self.outbox;
    proof { assert(*VS[n].0 == ks[n]); assert(ks.take(n + 1).drop_last() =~= ks.take(n)); assert(ks.take(n + 1).last() == ks[n]); }
//@ loop_end 0:
    proof {
        if a.tried(now, T) {
            let x = self.outbox.wrs().last();
            assert(O.outbox.wrs() + w1.push(x) =~= (O.outbox.wrs() + w1).push(x));
            assert(w1.push(x).drop_last() =~= w1);
            assert(x.0 == ks[n] && x.1 is Inv && names(x.1->Inv_0@, a));
            w1 = w1.push(x);
        }
        assert(offers(ks.take(n + 1), P0, now, T, w1));
    }
//@ loop_after 0:
    proof { assert(ks.take(ks.len() as int) =~= ks); }
    let ghost P1 = self.peers@;
    let ghost LATE = disconnect@;
    proof {
        assert forall|k: PeerId| #[trigger] P0.contains_key(k) implies P1[k].ticked(P0[k], now, T) by { assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(*VS[i].0 == ks[i]); }
    }
//@ loop 1 it=it1:
    invariant
        it1.seq() == WS, lists(WS, a.outbox@), peer.outbox == a.outbox, self.mempool == O.mempool, O.pool(), a == P0[ks[n]], P0 == O.peers@, P0.contains_key(ks[n]), a.wtxidrelay,
        invs@ =~= WS.take(it1.index@).map_values(|w: Wtxid| if a.wtxidrelay { Inventory::WTx(w) } else { Inventory::Transaction(a.outbox@[w]) }),
//@ loop_start 1:
    proof { let j = it1.index@; assert(WS.take(j + 1) =~= WS.take(j).push(WS[j])); assert(WS.to_set().contains(WS[j])); assert(a.outbox@.contains_key(WS[j])); }
//@ loop_after 1:
    proof { assert(WS.take(WS.len() as int) =~= WS); assert(names(invs@, a)); }
//@ loop 2 it=it2:
    invariant
        it2.seq() == WS, lists(WS, a.outbox@), peer.outbox == a.outbox, self.mempool == O.mempool, O.pool(), a == P0[ks[n]], P0 == O.peers@, P0.contains_key(ks[n]), !a.wtxidrelay,
        invs@ =~= WS.take(it2.index@).map_values(|w: Wtxid| if a.wtxidrelay { Inventory::WTx(w) } else { Inventory::Transaction(a.outbox@[w]) }),
//@ loop_start 2:
    proof { let j = it2.index@; assert(WS.take(j + 1) =~= WS.take(j).push(WS[j])); assert(WS.to_set().contains(WS[j])); assert(a.outbox@.contains_key(WS[j])); }
//@ loop_after 2:
    proof { assert(WS.take(WS.len() as int) =~= WS); assert(names(invs@, a)); }
//@ loop 3 it=it3:
    invariant
        it3.seq() == LATE, self.timeout == T, self.mempool == O.mempool, self.confirmed == CF, self.received == O.received, self.remaining == O.remaining, self.estimator == O.estimator, self.clock == O.clock, self.rng == O.rng,
        self.outbox.drs() == O.outbox.drs(), self.outbox.wrs() == O.outbox.wrs() + w1, self.outbox.evs() == O.outbox.evs() + timed_out(LATE.take(it3.index@)),
        forall|k: PeerId| #[trigger] self.peers@.contains_key(k) <==> P1.contains_key(k) && !LATE.take(it3.index@).contains(k),
        forall|k: PeerId| #[trigger] self.peers@.contains_key(k) ==> self.peers@[k] == P1[k],
//@ loop_before 3:
    proof { assert(LATE.take(0) =~= Seq::empty()); assert(O.outbox.evs() + timed_out(LATE.take(0)) =~= O.outbox.evs()); lemma_late(ks, P0, now, T); }
//@ loop_start 3:
    broadcast use lemma_push;
    proof {
        let j = it3.index@; assert(LATE.take(j + 1) =~= LATE.take(j).push(LATE[j]));
        let e = Event::PeerTimedOut { addr: LATE[j] };
        assert(timed_out(LATE.take(j + 1)) =~= timed_out(LATE.take(j)).push(e));
        assert(O.outbox.evs() + timed_out(LATE.take(j + 1)) =~= (O.outbox.evs() + timed_out(LATE.take(j))).push(e));
        lemma_push_contains(LATE.take(j), LATE[j]);
    }
//@ loop_after 3:
    let ghost P2 = self.peers@;
    let ghost R0 = self.remaining@;
    proof { assert(LATE.take(LATE.len() as int) =~= LATE); assert(self.kept(O, ks)); assert(self.pool()); }
//@ loop 4 it=it4:
    invariant
        it4.seq() == QS, QS.len() == qs.len(), self.peers@ == P2, now == O.clock.now(),
        self.timeout == T, self.mempool == O.mempool, self.confirmed == CF, self.received == O.received, self.estimator == O.estimator, self.clock == O.clock, self.rng == O.rng,
        self.outbox.drs() == O.outbox.drs(), self.outbox.wrs() == O.outbox.wrs() + w1 + w2, self.outbox.evs() == O.outbox.evs() + timed_out(LATE),
        forall|i: int| 0 <= i < QS.len() ==> *(#[trigger] QS[i]).0 == qs[i] && *QS[i].1 == R0[qs[i]],
        forall|i: int| 0 <= i < it4.index@ ==> *final((#[trigger] QS[i]).1) == (if Self::serves(P2) { Some(now) } else { R0[qs[i]] }),
        if Self::serves(P2) { block_asks(qs.take(it4.index@), P2, w2) } else { w2.len() == 0 },
//@ loop_before 4:
    let ghost QS = queue@;
    let ghost mut w2: Seq<(PeerId, NetworkMessage)> = Seq::empty();
    proof { assert(qs.take(0) =~= Seq::empty()); assert(O.outbox.wrs() + w1 + w2 =~= O.outbox.wrs() + w1); }
//@ loop_start 4:
    broadcast use lemma_push;
    let ghost j = it4.index@;
    proof { assert(*QS[j].0 == qs[j]); assert(qs.take(j + 1) =~= qs.take(j).push(qs[j])); }
//@ loop_end 4:
    proof {
        if Self::serves(P2) {
            let x = self.outbox.wrs().last();
            assert(O.outbox.wrs() + w1 + w2.push(x) =~= (O.outbox.wrs() + w1 + w2).push(x));
            w2 = w2.push(x);
        }
    }
//@ loop_after 4:
    proof {
        assert(qs.take(qs.len() as int) =~= qs);
        assert forall|h: BlockHash| #[trigger] qs.contains(h) <==> O.remaining@.contains_key(h) && since(now, O.remaining@[h]) >= 15000 by {
            if qs.contains(h) { let i = qs.index_of(h); assert(*QS[i].0 == qs[i]); } }
        assert forall|h: BlockHash| #[trigger] O.remaining@.contains_key(h) implies self.remaining@[h] == (if Self::serves(P2) && qs.contains(h) { Some(now) } else { O.remaining@[h] }) by {
            if qs.contains(h) { let i = qs.index_of(h); assert(*QS[i].0 == qs[i]); } }
        assert(self.ticked(O, ks, qs, w1, w2));
    }
//@@ end
    pub open spec fn forgot(&self, o: Self, hash: BlockHash) -> bool { *self == (InventoryManager { remaining: self.remaining, ..o }) && self.remaining@ == o.remaining@.remove(hash) }
    pub open spec fn left(&self, o: Self, h: Height, hash: BlockHash) -> bool { exists|x: Self| #[trigger] x.forgot(o, hash) && self.reverted(x, h) }
    /// blocks that left the chain are no longer awaited and what they confirmed is reverted, from the tip down
    pub open spec fn states(ss: Seq<Self>, o: Self, rev: Seq<(Height, BlockHeader)>, n: int) -> bool {
        &&& ss.len() == n + 1 && ss[0] == o
        &&& forall|i: int| 0 <= i < n ==> (#[trigger] ss[i + 1]).left(ss[i], rev[i].0, rev[i].1.hash)
    }
//@@ fn p2p/src/fsm/invmgr.rs | impl InventoryManager / fn received_event
//@ props: C17
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ sig: pub fn received_event<T: BlockReader>(&mut self, event: Event, tree: &T, Ghost(b0): Ghost<Seq<BlockHash>>)
//@ subst: message.as_ref() =>> &*message
//@ spec:
    requires
        old(self).wf(b0),
        event is BlockHeadersImported ==> reverted_from(event->BlockHeadersImported_reverted@, b0, tree.bc()),
        !(event is BlockHeadersImported) ==> tree.bc() == b0,
    ensures
        final(self).wf(tree.bc()),
        (match event {
            Event::PeerNegotiated { addr, services, relay, wtxid_relay, .. } => final(self).frame(*old(self)) && final(self).mempool == old(self).mempool && final(self).remaining == old(self).remaining && final(self).received == old(self).received
                && final(self).outbox.evs() == old(self).outbox.evs() && final(self).peers@ == old(self).peers@.insert(addr, final(self).peers@[addr]) && final(self).peers@[addr].outbox@.dom() == old(self).mempool@.dom() && final(self).peers@[addr].wtxidrelay == wtxid_relay && final(self).peers@[addr].relay == relay && final(self).peers@[addr].services == services,
            Event::PeerDisconnected { addr, .. } => *final(self) == (InventoryManager { peers: final(self).peers, ..*old(self) }) && final(self).peers@ == old(self).peers@.remove(addr),
            Event::BlockHeadersImported { reverted, .. } => exists|ss: Seq<Self>, ids: Seq<Txid>| #[trigger] Self::states(ss, *old(self), reverted@, reverted@.len() as int) && #[trigger] final(self).processed(ss.last(), ids),
            Event::MessageReceived { from, message } => (match *message {
                NetworkMessage::Block(block) => exists|ids: Seq<Txid>| #[trigger] final(self).on_block(*old(self), block, b0, ids),
                NetworkMessage::GetData(invs) => final(self).outbox.wrs() == old(self).outbox.wrs() + answers(old(self).mempool@, from, invs@) && final(self).mempool == old(self).mempool && final(self).remaining == old(self).remaining && final(self).received == old(self).received
                    && (old(self).peers@.contains_key(from) ==> ({ let a = acks(old(self).mempool@, from, old(self).peers@[from].outbox@, invs@); final(self).peers@[from].outbox@ == a.0 && final(self).outbox.evs() == old(self).outbox.evs() + a.1 })),
                _ => *final(self) == *old(self) }),
            _ => *final(self) == *old(self) }),
//@ entry:
    let ghost O = *self; let ghost bc = tree.bc();
    let ghost mut ss = seq![*self]; let ghost mut ids = Seq::<Txid>::empty();
    proof { tree.lemma_bc(); }
//@ loop 0 it=it:
    invariant
        it.seq() == REV, reverted_from(REV, b0, bc), O.wf(b0), self.wf(b0.take(b0.len() - it.index@)), Self::states(ss, O, REV, it.index@), ss.last() == *self,
//@ loop_before 0:
    let ghost REV = reverted@;
    proof { assert(b0.take(b0.len() as int) =~= b0); }
//@ loop_start 0:
    let ghost n = it.index@; let ghost L = *self;
    proof { assert(REV[n].0 == b0.len() - 1 - n && REV[n].1.hash == b0[REV[n].0 as int]); }
//@ loop_end 0:
    proof {
        assert(X.forgot(L, REV[n].1.hash)); assert(self.reverted(X, REV[n].0)); assert(self.left(L, REV[n].0, REV[n].1.hash));
        let s2 = ss.push(*self);
        assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] s2[i + 1]).left(s2[i], REV[i].0, REV[i].1.hash) by { if i < n { assert(s2[i + 1] == ss[i + 1]); assert(s2[i] == ss[i]); } else { assert(s2[i] == ss.last()); } }
        ss = s2;
        let t = b0.take(b0.len() - n); let u = b0.take(b0.len() - (n + 1));
        assert(self.on(u)) by { assert forall|h: Height| #[trigger] self.received@.contains_key(h) implies h < u.len() && self.received@[h].header.hash == u[h as int] && merkle_ok(self.received@[h]) by { assert(L.received@.contains_key(h)); } 
            assert forall|h: Height| #[trigger] self.confirmed@.contains_key(h) implies h < u.len() by { assert(L.confirmed@.contains_key(h)); } }
    }
//@ before `self.block_reverted(height)`:
    let ghost X = *self;
//@ loop_after 0:
    proof { assert(self.on(bc)) by { let t = b0.take(b0.len() - REV.len()); assert forall|h: Height| #[trigger] self.received@.contains_key(h) implies h < bc.len() && self.received@[h].header.hash == bc[h as int] && merkle_ok(self.received@[h]) by { assert(t[h as int] == bc.take(b0.len() - REV.len())[h as int]); } } }
//@@ end
}
} // verus!
fn main() {}
