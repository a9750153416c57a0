// p2p/src/fsm.rs: the node as a whole: who gets what
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub type BlockTime = u32;
pub type TimeOffset = i64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_set.rs
//@@ include shim_keys.rs
//@@ include shim_it.rs
}
use dep::*;
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>) ensures r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@, r is Some ==> old(self)@.len() > 0 && r->0 == old(self)@[0] && final(self)@ == old(self)@.drop_first() { unimplemented!() }
}
//@@ include shim_time.rs
pub struct BlockFilter {}
#[derive(Copy, Clone)]
pub struct FilterHash { pub x: u64 }
#[derive(Copy, Clone)]
pub struct FilterHeader { pub x: u64 }
//@@ include shim_fsm.rs
//@@ include shim_out.rs
#[derive(Copy, Clone)]
pub struct Uint256 { pub x: [u64; 4] }
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub struct RangeInclusive<T> { pub a: T, pub b: T }
pub struct NonEmpty<T> { pub head: T, pub tail: Vec<T> }
impl<T> NonEmpty<T> {
    pub open spec fn sq(&self) -> Seq<T> { seq![self.head] + self.tail@ }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Option<NonEmpty<T>>) ensures (r is Some) == (v@.len() > 0), r is Some ==> r->0.sq() == v@ { unimplemented!() }
}
pub mod tree { pub struct Error { pub x: u64 } }
pub struct ImportResult { pub x: u64 }
pub struct GetFiltersError { pub x: u64 }
pub mod chan {
    use vstd::prelude::*;
    /// the sending end of a channel
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Sender<T> { x: Vec<T> }
    /// this was sent (and only `send` makes it so)
    pub uninterp spec fn sent<T>(s: Sender<T>, v: T) -> bool;
    impl<T> Sender<T> { #[verifier::external_body] pub fn send(&self, v: T) -> (r: Result<(), u8>) ensures sent(*self, v) { unimplemented!() } }
}
use chan::sent;
impl PartialEq for Link { #[verifier::external_body] fn eq(&self, o: &Link) -> bool { unimplemented!() } }
pub mod network {
    use vstd::prelude::*;
    #[derive(Copy, Clone)]
    pub struct Network { pub x: u8 }
    pub uninterp spec fn magic_of(n: Network) -> u32;
    impl Network { #[verifier::external_body] pub fn magic(&self) -> (r: u32) ensures r == magic_of(*self) { unimplemented!() } }
}
pub mod peer { pub enum Source { Imported } }
pub struct RawNetworkMessage { pub magic: u32, pub payload: NetworkMessage }
/// `Cow<RawNetworkMessage>`
pub struct CowMsg { pub m: RawNetworkMessage }
impl CowMsg {
    #[verifier::external_body]
    pub fn cmd(&self) -> &'static str { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: RawNetworkMessage) ensures r == self.m { unimplemented!() }
}
impl Event { #[verifier::external_body] pub fn clone(&self) -> (r: Event) ensures r == *self { unimplemented!() } }
impl NetworkMessage { #[verifier::external_body] pub fn clone(&self) -> (r: NetworkMessage) ensures r == *self { unimplemented!() } }
/// the user's hooks; what `on_message` answers
#[verifier::external_body]
pub struct Hooks { x: u64 }
pub uninterp spec fn allows(h: Hooks, a: PeerId, m: NetworkMessage) -> bool;
impl Hooks { #[verifier::external_body] pub fn on_message(&self, a: PeerId, m: &NetworkMessage, o: &Outbox) -> (r: Result<(), &'static str>) ensures r is Ok == allows(*self, a, *m) { unimplemented!() } }
#[verifier::external_body]
pub struct PeerPredicate { x: u64 }
pub uninterp spec fn chosen(q: PeerPredicate, p: Peer) -> bool;
impl PeerPredicate { #[verifier::external_body] pub fn call(&self, p: Peer) -> (r: bool) ensures r == chosen(*self, p) { unimplemented!() } }
/// a query of the user's
#[verifier::external_body]
pub struct Query { x: u64 }
pub uninterp spec fn asked<T>(q: Query, t: T) -> bool;
impl Query { #[verifier::external_body] pub fn ask<T>(&self, t: &T) ensures asked(*self, *t) { unimplemented!() } }
/// the block tree: its readers' contracts are properties C04 and C08
pub trait BlockTree: BlockReader {
    spec fn work(&self) -> Uint256;
    fn chain_work(&self) -> (r: Uint256) ensures r == self.work();
}
pub trait AdjustedClock: Clock {
    fn set(&mut self, t: LocalTime) ensures final(self).now() == t;
}
pub trait Filters: Sized { spec fn tipf(&self) -> Height; fn height(&self) -> (r: Height) ensures r == self.tipf(); }
//@@ struct p2p/src/fsm/peermgr.rs | struct Connection
//@ subst: net::SocketAddr =>> SocketAddr
//@@ end
//@@ enum p2p/src/fsm/peermgr.rs | enum HandshakeState
//@@ end
//@@ struct p2p/src/fsm/peermgr.rs | struct PeerInfo
//@@ end
impl PeerInfo {
    pub open spec fn done(&self) -> bool { self.state is ReceivedVerack }
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerInfo / fn is_negotiated
//@ spec:
    ensures r == self.done()
//@@ end
}
//@@ struct p2p/src/fsm.rs | struct Peer
//@ subst: net::SocketAddr =>> SocketAddr
//@@ end
//@@ enum p2p/src/fsm.rs | enum CommandError
//@@ end
//@@ enum p2p/src/fsm.rs | enum Command
//@ subst: net::SocketAddr =>> SocketAddr
//@ subst: Arc<dyn Fn(&dyn BlockReader) + Send + Sync> =>> Query
//@ subst: fn(Peer) -> bool =>> PeerPredicate
//@@ end
/// what a part of the node is told to do, events apart
pub enum Call {
    Initialize, Timer, Attempted(SocketAddr), Connected(SocketAddr, SocketAddr, Link, Height), Disconnected(SocketAddr, Disconnect<DisconnectReason>),
    Whitelist(SocketAddr), Connect(SocketAddr), Disconnect(SocketAddr, DisconnectReason),
    ImportHeaders(Seq<BlockHeader>), ImportAddresses(Seq<(BlockTime, Address)>, peer::Source), GetFilters(RangeInclusive<Height>), Rescan(Bound<Height>, Bound<Height>, Seq<Script>),
    Watch(Seq<Script>), WatchTransaction(Transaction), GetBlock(BlockHash), Announce(Transaction),
}

#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct PeerManager<C> { x0: Vec<C> }
impl<C> PeerManager<C> {
    /// events heard
    pub uninterp spec fn heard(&self) -> Seq<Event>;
    /// everything else it was told
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    /// what it wants done
    pub uninterp spec fn queue(&self) -> Seq<Io>;
    /// it heard nothing, and asks for more only
    pub open spec fn deaf(&self, o: Self) -> bool { self.heard() == o.heard() && ext(o.queue(), self.queue()) }
    pub open spec fn told(&self, o: Self, c: Call) -> bool { self.deaf(o) && self.calls() == o.calls().push(c) }
    pub open spec fn hears(&self, o: Self, e: Event) -> bool { self.heard() == o.heard().push(e) && self.calls() == o.calls() && ext(o.queue(), self.queue()) }
    pub open spec fn took(&self, o: Self) -> bool { self.heard() == o.heard() && self.calls() == o.calls() && o.queue().len() > 0 && self.queue() == o.queue().drop_first() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Io>) ensures r is None ==> old(self).queue().len() == 0 && *final(self) == *old(self), r is Some ==> r->0 == old(self).queue()[0] && final(self).took(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn received_event<T: BlockReader>(&mut self, e: Event, tree: &T) ensures final(self).hears(*old(self), e) { unimplemented!() }
    #[verifier::external_body]
    pub fn timer_expired<P>(&mut self, addrs: &mut AddressManager<P, C>) ensures final(self).told(*old(self), Call::Timer), final(addrs).deaf(*old(addrs)), final(addrs).calls() == old(addrs).calls() { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize<P>(&mut self, addrs: &mut AddressManager<P, C>) ensures final(self).told(*old(self), Call::Initialize), final(addrs).deaf(*old(addrs)), final(addrs).calls() == old(addrs).calls() { unimplemented!() }
    #[verifier::external_body]
    pub fn peer_attempted(&mut self, a: &SocketAddr) ensures final(self).told(*old(self), Call::Attempted(*a)) { unimplemented!() }
    #[verifier::external_body]
    pub fn peer_connected(&mut self, a: SocketAddr, local: SocketAddr, link: Link, h: Height) ensures final(self).told(*old(self), Call::Connected(a, local, link, h)) { unimplemented!() }
    #[verifier::external_body]
    pub fn peer_disconnected<P>(&mut self, a: &SocketAddr, addrs: &mut AddressManager<P, C>, reason: Disconnect<DisconnectReason>) ensures final(self).told(*old(self), Call::Disconnected(*a, reason)), final(addrs).deaf(*old(addrs)), final(addrs).calls() == old(addrs).calls() { unimplemented!() }
    #[verifier::external_body]
    pub fn whitelist(&mut self, a: SocketAddr) -> (r: bool) ensures final(self).told(*old(self), Call::Whitelist(a)) { unimplemented!() }
    #[verifier::external_body]
    pub fn connect(&mut self, a: &SocketAddr) -> (r: bool) ensures final(self).told(*old(self), Call::Connect(*a)) { unimplemented!() }
    #[verifier::external_body]
    pub fn disconnect(&mut self, a: SocketAddr, reason: DisconnectReason) ensures final(self).told(*old(self), Call::Disconnect(a, reason)) { unimplemented!() }
    pub uninterp spec fn connected(&self, a: SocketAddr) -> bool;
    /// peers whose version message was accepted
    pub uninterp spec fn list(&self) -> Seq<(&PeerInfo, &Connection)>;
    #[verifier::external_body]
    pub fn is_connected(&self, a: &SocketAddr) -> (r: bool) ensures r == self.connected(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn peers(&self) -> (r: It<(&PeerInfo, &Connection)>) ensures r@ == self.list() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct SyncManager<C> { x0: Vec<C> }
impl<C> SyncManager<C> {
    /// events heard
    pub uninterp spec fn heard(&self) -> Seq<Event>;
    /// everything else it was told
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    /// what it wants done
    pub uninterp spec fn queue(&self) -> Seq<Io>;
    /// it heard nothing, and asks for more only
    pub open spec fn deaf(&self, o: Self) -> bool { self.heard() == o.heard() && ext(o.queue(), self.queue()) }
    pub open spec fn told(&self, o: Self, c: Call) -> bool { self.deaf(o) && self.calls() == o.calls().push(c) }
    pub open spec fn hears(&self, o: Self, e: Event) -> bool { self.heard() == o.heard().push(e) && self.calls() == o.calls() && ext(o.queue(), self.queue()) }
    pub open spec fn took(&self, o: Self) -> bool { self.heard() == o.heard() && self.calls() == o.calls() && o.queue().len() > 0 && self.queue() == o.queue().drop_first() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Io>) ensures r is None ==> old(self).queue().len() == 0 && *final(self) == *old(self), r is Some ==> r->0 == old(self).queue()[0] && final(self).took(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn received_event<T: BlockTree>(&mut self, e: Event, tree: &mut T) ensures final(self).hears(*old(self), e) { unimplemented!() }
    #[verifier::external_body]
    pub fn timer_expired<T: BlockReader>(&mut self, tree: &T) ensures final(self).told(*old(self), Call::Timer) { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize<T: BlockReader>(&mut self, tree: &T) ensures final(self).told(*old(self), Call::Initialize) { unimplemented!() }
    pub uninterp spec fn imported(&self) -> Result<ImportResult, tree::Error>;
    #[verifier::external_body]
    pub fn import_blocks<T: BlockTree>(&mut self, blocks: Vec<BlockHeader>, tree: &mut T) -> (r: Result<ImportResult, tree::Error>) ensures final(self).told(*old(self), Call::ImportHeaders(blocks@)), r == final(self).imported() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct InventoryManager<C> { x0: Vec<C> }
impl<C> InventoryManager<C> {
    /// events heard
    pub uninterp spec fn heard(&self) -> Seq<Event>;
    /// everything else it was told
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    /// what it wants done
    pub uninterp spec fn queue(&self) -> Seq<Io>;
    /// it heard nothing, and asks for more only
    pub open spec fn deaf(&self, o: Self) -> bool { self.heard() == o.heard() && ext(o.queue(), self.queue()) }
    pub open spec fn told(&self, o: Self, c: Call) -> bool { self.deaf(o) && self.calls() == o.calls().push(c) }
    pub open spec fn hears(&self, o: Self, e: Event) -> bool { self.heard() == o.heard().push(e) && self.calls() == o.calls() && ext(o.queue(), self.queue()) }
    pub open spec fn took(&self, o: Self) -> bool { self.heard() == o.heard() && self.calls() == o.calls() && o.queue().len() > 0 && self.queue() == o.queue().drop_first() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Io>) ensures r is None ==> old(self).queue().len() == 0 && *final(self) == *old(self), r is Some ==> r->0 == old(self).queue()[0] && final(self).took(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn received_event<T: BlockReader>(&mut self, e: Event, tree: &T) ensures final(self).hears(*old(self), e) { unimplemented!() }
    #[verifier::external_body]
    pub fn timer_expired<T: BlockReader>(&mut self, tree: &T) ensures final(self).told(*old(self), Call::Timer) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_block(&mut self, hash: BlockHash) ensures final(self).told(*old(self), Call::GetBlock(hash)) { unimplemented!() }
    pub uninterp spec fn announced_to(&self) -> Seq<PeerId>;
    pub uninterp spec fn submitted(&self, t: Txid) -> Option<Transaction>;
    #[verifier::external_body]
    pub fn announce(&mut self, tx: Transaction) -> (r: Vec<PeerId>) ensures final(self).told(*old(self), Call::Announce(tx)), r@ == final(self).announced_to() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_submitted_tx(&mut self, t: &Txid) -> (r: Option<Transaction>) ensures *final(self) == *old(self), r == old(self).submitted(*t) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct PingManager<C> { x0: Vec<C> }
impl<C> PingManager<C> {
    /// events heard
    pub uninterp spec fn heard(&self) -> Seq<Event>;
    /// everything else it was told
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    /// what it wants done
    pub uninterp spec fn queue(&self) -> Seq<Io>;
    /// it heard nothing, and asks for more only
    pub open spec fn deaf(&self, o: Self) -> bool { self.heard() == o.heard() && ext(o.queue(), self.queue()) }
    pub open spec fn told(&self, o: Self, c: Call) -> bool { self.deaf(o) && self.calls() == o.calls().push(c) }
    pub open spec fn hears(&self, o: Self, e: Event) -> bool { self.heard() == o.heard().push(e) && self.calls() == o.calls() && ext(o.queue(), self.queue()) }
    pub open spec fn took(&self, o: Self) -> bool { self.heard() == o.heard() && self.calls() == o.calls() && o.queue().len() > 0 && self.queue() == o.queue().drop_first() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Io>) ensures r is None ==> old(self).queue().len() == 0 && *final(self) == *old(self), r is Some ==> r->0 == old(self).queue()[0] && final(self).took(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn received_event<T: BlockReader>(&mut self, e: Event, tree: &T) ensures final(self).hears(*old(self), e) { unimplemented!() }
    #[verifier::external_body]
    pub fn timer_expired(&mut self) ensures final(self).told(*old(self), Call::Timer) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(C)]
pub struct AddressManager<P, C> { x0: Vec<P>, x1: Vec<C> }
impl<P, C> AddressManager<P, C> {
    /// events heard
    pub uninterp spec fn heard(&self) -> Seq<Event>;
    /// everything else it was told
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    /// what it wants done
    pub uninterp spec fn queue(&self) -> Seq<Io>;
    /// it heard nothing, and asks for more only
    pub open spec fn deaf(&self, o: Self) -> bool { self.heard() == o.heard() && ext(o.queue(), self.queue()) }
    pub open spec fn told(&self, o: Self, c: Call) -> bool { self.deaf(o) && self.calls() == o.calls().push(c) }
    pub open spec fn hears(&self, o: Self, e: Event) -> bool { self.heard() == o.heard().push(e) && self.calls() == o.calls() && ext(o.queue(), self.queue()) }
    pub open spec fn took(&self, o: Self) -> bool { self.heard() == o.heard() && self.calls() == o.calls() && o.queue().len() > 0 && self.queue() == o.queue().drop_first() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Io>) ensures r is None ==> old(self).queue().len() == 0 && *final(self) == *old(self), r is Some ==> r->0 == old(self).queue()[0] && final(self).took(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn received_event(&mut self, e: Event) ensures final(self).hears(*old(self), e) { unimplemented!() }
    #[verifier::external_body]
    pub fn timer_expired(&mut self) ensures final(self).told(*old(self), Call::Timer) { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize(&mut self) ensures final(self).told(*old(self), Call::Initialize) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, addrs: Vec<(BlockTime, Address)>, source: peer::Source) ensures final(self).told(*old(self), Call::ImportAddresses(addrs@, source)) { unimplemented!() }
}
pub struct Rescan { pub active: bool }
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(C)]
pub struct FilterManager<F, C> { pub filters: F, pub rescan: Rescan, x: Parts<C> }
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Parts<C> { c: Vec<C> }
impl<F, C> FilterManager<F, C> {
    /// events heard
    pub uninterp spec fn heard(&self) -> Seq<Event>;
    /// everything else it was told
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    /// what it wants done
    pub uninterp spec fn queue(&self) -> Seq<Io>;
    /// it heard nothing, and asks for more only
    pub open spec fn deaf(&self, o: Self) -> bool { self.heard() == o.heard() && ext(o.queue(), self.queue()) }
    pub open spec fn told(&self, o: Self, c: Call) -> bool { self.deaf(o) && self.calls() == o.calls().push(c) }
    pub open spec fn hears(&self, o: Self, e: Event) -> bool { self.heard() == o.heard().push(e) && self.calls() == o.calls() && ext(o.queue(), self.queue()) }
    pub open spec fn took(&self, o: Self) -> bool { self.heard() == o.heard() && self.calls() == o.calls() && o.queue().len() > 0 && self.queue() == o.queue().drop_first() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Io>) ensures r is None ==> old(self).queue().len() == 0 && *final(self) == *old(self), r is Some ==> r->0 == old(self).queue()[0] && final(self).took(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn received_event<T: BlockReader, B: BlockSource>(&mut self, e: Event, tree: &T, blocks: &mut B) ensures final(self).hears(*old(self), e), final(blocks).only_asked(*old(blocks)) { unimplemented!() }
    #[verifier::external_body]
    pub fn timer_expired<T: BlockReader>(&mut self, tree: &T) ensures final(self).told(*old(self), Call::Timer) { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize<T: BlockReader>(&mut self, tree: &T) ensures final(self).told(*old(self), Call::Initialize) { unimplemented!() }
    /// the answer to the last question
    pub uninterp spec fn result(&self) -> Result<(), GetFiltersError>;
    pub uninterp spec fn matched(&self) -> Seq<(Height, BlockHash)>;
    #[verifier::external_body]
    pub fn get_cfilters<T: BlockReader>(&mut self, range: RangeInclusive<Height>, tree: &T) -> (r: Result<(), GetFiltersError>) ensures final(self).told(*old(self), Call::GetFilters(range)), r == final(self).result() { unimplemented!() }
    #[verifier::external_body]
    pub fn rescan<T: BlockReader>(&mut self, from: Bound<Height>, to: Bound<Height>, watch: Vec<Script>, tree: &T) -> (r: Vec<(Height, BlockHash)>) ensures final(self).told(*old(self), Call::Rescan(from, to, watch@)), r@ == final(self).matched() { unimplemented!() }
    #[verifier::external_body]
    pub fn watch(&mut self, watch: Vec<Script>) ensures final(self).told(*old(self), Call::Watch(watch@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn watch_transaction(&mut self, tx: &Transaction) ensures final(self).told(*old(self), Call::WatchTransaction(*tx)) { unimplemented!() }
}
/// the inventory manager, as the filter manager sees it
pub trait BlockSource: Sized { spec fn only_asked(&self, o: Self) -> bool; }
impl<C> BlockSource for InventoryManager<C> { open spec fn only_asked(&self, o: Self) -> bool { self.deaf(o) } }
/// a queue and what it grew to
pub open spec fn ext(a: Seq<Io>, b: Seq<Io>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// a peer as the user sees it
pub open spec fn peer_of(p: PeerInfo, c: Connection) -> Peer { Peer { addr: c.addr, local_addr: c.local_addr, link: c.link, since: c.since, height: p.height, services: p.services, user_agent: p.user_agent, relay: p.relay } }
impl Peer {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Peer) ensures r == *self { unimplemented!() }
//@@ fn p2p/src/fsm.rs | impl From for Peer / fn from
//@ sig: pub fn from(x: (&PeerInfo, &Connection)) -> (r: Peer)
//@ entry:
    let peer = x.0; let conn = x.1;
//@ spec:
    ensures r == peer_of(*x.0, *x.1)
//@@ end
}
/// `.map(Peer::from)`
pub fn as_peers(l: It<(&PeerInfo, &Connection)>) -> (r: It<Peer>) ensures r@.len() == l@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == peer_of(*l@[i].0, *l@[i].1)
{ l.map(|x: (&PeerInfo, &Connection)| -> (o: Peer) ensures o == peer_of(*x.0, *x.1) { Peer::from(x) }) }
/// the node's output to the reactor: as its parts', with the network's magic on messages
pub enum FIo { Write(PeerId, RawNetworkMessage), Connect(PeerId), Disconnect(PeerId, DisconnectReason), SetTimer(LocalDuration), Event(Event) }
pub open spec fn wrap(io: Io, magic: u32) -> FIo {
    match io { Io::Write(a, payload) => FIo::Write(a, RawNetworkMessage { magic, payload }), Io::Connect(a) => FIo::Connect(a), Io::Disconnect(a, r) => FIo::Disconnect(a, r), Io::SetTimer(t) => FIo::SetTimer(t), Io::Event(e) => FIo::Event(e) }
}
impl Outbox {
//@@ fn p2p/src/fsm/output.rs | impl Iterator for Outbox / fn next
//@ spec:
    ensures r is None ==> old(self).ios().len() == 0 && final(self).ios() == old(self).ios(), r is Some ==> old(self).ios().len() > 0 && r->0 == old(self).ios()[0] && final(self).ios() == old(self).ios().drop_first(), final(self).version == old(self).version
//@@ end
}
//@@ struct p2p/src/fsm.rs | struct StateMachine
//@ attr: #[verifier::reject_recursive_types(T)]
//@ attr: #[verifier::reject_recursive_types(F)]
//@ attr: #[verifier::reject_recursive_types(P)]
//@ attr: #[verifier::reject_recursive_types(C)]
//@@ end
/// addresses of the chosen ones among the first n
pub open spec fn picked(l: Seq<(&PeerInfo, &Connection)>, n: int, q: spec_fn(Peer) -> bool) -> Seq<PeerId> decreases n {
    if n <= 0 { Seq::empty() } else { let p = peer_of(*l[n - 1].0, *l[n - 1].1); if q(p) { picked(l, n - 1, q).push(p.addr) } else { picked(l, n - 1, q) } }
}
pub open spec fn written(to: Seq<PeerId>, m: NetworkMessage) -> Seq<Io> { Seq::new(to.len(), |i: int| Io::Write(to[i], m)) }
/// exactly the handshaked peers with these services
pub open spec fn wanted(p: PeerInfo, s: ServiceFlags) -> bool { p.done() && has_services(p.services, s) }
pub open spec fn seen(l: Seq<(&PeerInfo, &Connection)>, s: ServiceFlags, p: Peer) -> bool { exists|x: (&PeerInfo, &Connection)| #[trigger] l.contains(x) && wanted(*x.0, s) && p == peer_of(*x.0, *x.1) }
pub open spec fn shown(l: Seq<(&PeerInfo, &Connection)>, s: ServiceFlags, v: Seq<Peer>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> seen(l, s, #[trigger] v[i])
    &&& forall|j: int| 0 <= j < l.len() && wanted(*(#[trigger] l[j]).0, s) ==> v.contains(peer_of(*l[j].0, *l[j].1))
}
pub open spec fn asked_for(o: Seq<Call>, hs: Seq<(Height, BlockHash)>) -> Seq<Call> { o + Seq::new(hs.len(), |i: int| Call::GetBlock(hs[i].1)) }
pub open spec fn stamped(a: Seq<Address>) -> Seq<(BlockTime, Address)> { Seq::new(a.len(), |i: int| (0u32, a[i])) }
/// `.into_iter().map(|a| (BlockTime::default(), a))`
#[verifier::external_body]
pub fn stamp(v: Vec<Address>, t: BlockTime) -> (r: Vec<(BlockTime, Address)>) ensures r@ == Seq::new(v@.len(), |i: int| (t, v@[i])) { unimplemented!() }
pub fn block_time_default() -> (r: BlockTime) ensures r == 0 { 0 }
impl<T: BlockTree, F: Filters, P, C: AdjustedClock> StateMachine<T, F, P, C> {
    /// what each part wants done
    pub open spec fn q(&self, k: int) -> Seq<Io> {
        if k == 0 { self.outbox.ios() } else if k == 1 { self.peermgr.queue() } else if k == 2 { self.syncmgr.queue() } else if k == 3 { self.invmgr.queue() } else if k == 4 { self.pingmgr.queue() } else if k == 5 { self.addrmgr.queue() } else { self.cbfmgr.queue() }
    }
    /// the events each part heard
    pub open spec fn heard(&self, k: int) -> Seq<Event> {
        if k == 1 { self.peermgr.heard() } else if k == 2 { self.syncmgr.heard() } else if k == 3 { self.invmgr.heard() } else if k == 4 { self.pingmgr.heard() } else if k == 5 { self.addrmgr.heard() } else { self.cbfmgr.heard() }
    }
    /// nothing but the parts and the chain changed
    pub open spec fn frame(&self, o: Self) -> bool { self.network == o.network && self.clock == o.clock && self.hooks == o.hooks && self.last_tick == o.last_tick }
    /// every part heard the event once; no part lost output
    pub open spec fn heard_all(&self, o: Self, e: Event) -> bool {
        &&& self.frame(o) && self.outbox == o.outbox
        &&& forall|k: int| 1 <= k <= 6 ==> #[trigger] self.heard(k) == o.heard(k).push(e)
        &&& forall|k: int| 1 <= k <= 6 ==> ext(o.q(k), #[trigger] self.q(k))
    }
    /// the head of part k's queue is this output, and was removed
    pub open spec fn gave(&self, o: Self, k: int, io: FIo) -> bool {
        &&& o.q(k).len() > 0 && io == wrap(o.q(k)[0], network::magic_of(o.network)) && self.frame(o)
        &&& if io is Event {
                &&& forall|j: int| 1 <= j <= 6 ==> #[trigger] self.heard(j) == o.heard(j).push(io->Event_0)
                &&& forall|j: int| 0 <= j <= 6 ==> ext(if j == k { o.q(j).drop_first() } else { o.q(j) }, #[trigger] self.q(j))
            } else {
                &&& self.tree == o.tree
                &&& forall|j: int| 1 <= j <= 6 ==> #[trigger] self.heard(j) == o.heard(j)
                &&& forall|j: int| 0 <= j <= 6 ==> #[trigger] self.q(j) == (if j == k { o.q(j).drop_first() } else { o.q(j) })
            }
    }
//@@ fn p2p/src/fsm.rs | impl StateMachine / fn event
//@ spec:
    ensures final(self).heard_all(*old(self), e)
//@@ end
//@@ fn p2p/src/fsm.rs | impl Iterator for StateMachine / fn next
//@ sig: pub fn next(&mut self) -> (r: Option<FIo>)
//@ subst: output::Io =>> OIo
//@ subst: Io:: =>> FIo::
//@ subst: OIo =>> Io
//@ unchain: next
//@ spec:
    ensures r is None ==> forall|k: int| 0 <= k <= 6 ==> (#[trigger] old(self).q(k)).len() == 0 && final(self).q(k).len() == 0 && final(self).heard(k) == old(self).heard(k),
        r is Some ==> exists|k: int| 0 <= k <= 6 && #[trigger] final(self).gave(*old(self), k, r->0)
//@ exit:
    proof {
        let o = *old(self);
        let k = if o.q(0).len() > 0 { 0int } else if o.q(1).len() > 0 { 1 } else if o.q(2).len() > 0 { 2 } else if o.q(3).len() > 0 { 3 } else if o.q(4).len() > 0 { 4 } else if o.q(5).len() > 0 { 5 } else { 6 };
        if ret__ is Some {
            assert(o.q(k).len() > 0 && ret__->0 == wrap(o.q(k)[0], network::magic_of(o.network)));
            assert(self.gave(o, k, ret__->0));
        }
    }
//@@ end
//@@ fn p2p/src/fsm.rs | impl traits :: StateMachine for StateMachine / fn message_received
//@ sig: pub fn message_received(&mut self, addr: &SocketAddr, msg: CowMsg)
//@ subst: (self.hooks.on_message)(addr, =>> self.hooks.on_message(addr,
//@ spec:
    ensures
        msg.m.magic != network::magic_of(old(self).network) ==> final(self).peermgr.told(old(self).peermgr, Call::Disconnect(*addr, DisconnectReason::PeerMagic(msg.m.magic))) && *final(self) == (StateMachine { peermgr: final(self).peermgr, ..*old(self) }),
        msg.m.magic == network::magic_of(old(self).network) && !(old(self).peermgr.connected(*addr) && allows(old(self).hooks, *addr, msg.m.payload)) ==> *final(self) == *old(self),
        msg.m.magic == network::magic_of(old(self).network) && old(self).peermgr.connected(*addr) && allows(old(self).hooks, *addr, msg.m.payload) ==> exists|e: Event| e is MessageReceived && e->MessageReceived_from == *addr && msg_of(e) == msg.m.payload && #[trigger] final(self).heard_all(*old(self), e),
//@@ end
//@@ fn p2p/src/fsm.rs | impl traits :: StateMachine for StateMachine / fn attempted
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ spec:
    ensures final(self).peermgr.told(old(self).peermgr, Call::Attempted(*addr)), *final(self) == (StateMachine { peermgr: final(self).peermgr, ..*old(self) })
//@@ end
//@@ fn p2p/src/fsm.rs | impl traits :: StateMachine for StateMachine / fn connected
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ spec:
    ensures final(self).peermgr.told(old(self).peermgr, Call::Connected(addr, *local_addr, link, (old(self).tree.bc().len() - 1) as u64)), *final(self) == (StateMachine { peermgr: final(self).peermgr, ..*old(self) })
//@@ end
//@@ fn p2p/src/fsm.rs | impl traits :: StateMachine for StateMachine / fn disconnected
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ sigsubst: nakamoto_net::Disconnect =>> Disconnect
//@ spec:
    ensures final(self).peermgr.told(old(self).peermgr, Call::Disconnected(*addr, reason)), *final(self) == (StateMachine { peermgr: final(self).peermgr, addrmgr: final(self).addrmgr, ..*old(self) }), final(self).addrmgr.deaf(old(self).addrmgr) && final(self).addrmgr.calls() == old(self).addrmgr.calls()
//@@ end
//@@ fn p2p/src/fsm.rs | impl traits :: StateMachine for StateMachine / fn tick
//@ spec:
    ensures final(self).clock.now() == local_time, *final(self) == (StateMachine { clock: final(self).clock, ..*old(self) })
//@@ end
//@@ fn p2p/src/fsm.rs | impl traits :: StateMachine for StateMachine / fn initialize
//@ spec:
    ensures final(self).clock.now() == time, final(self).tree == old(self).tree, final(self).network == old(self).network, final(self).hooks == old(self).hooks,
        final(self).addrmgr.told(old(self).addrmgr, Call::Initialize), final(self).syncmgr.told(old(self).syncmgr, Call::Initialize), final(self).peermgr.told(old(self).peermgr, Call::Initialize), final(self).cbfmgr.told(old(self).cbfmgr, Call::Initialize), final(self).invmgr == old(self).invmgr, final(self).pingmgr == old(self).pingmgr,
        final(self).outbox.evs() == old(self).outbox.evs().push(Event::Initializing).push(Event::Ready { tip: (old(self).tree.bc().len() - 1) as u64, filter_tip: final(self).cbfmgr.filters.tipf(), time })
//@ entry:
    broadcast use lemma_push;
//@@ end
//@@ fn p2p/src/fsm.rs | impl traits :: StateMachine for StateMachine / fn timer_expired
//@ cut: if local_time - self.last_tick >= LocalDuration::from_secs(10) =>> if (local_time - self.last_tick).0 >= 10000 { self.last_tick = local_time; }
//@ spec:
    ensures final(self).addrmgr.told(old(self).addrmgr, Call::Timer), final(self).syncmgr.told(old(self).syncmgr, Call::Timer), final(self).peermgr.told(old(self).peermgr, Call::Timer), final(self).cbfmgr.told(old(self).cbfmgr, Call::Timer), final(self).invmgr.told(old(self).invmgr, Call::Timer), final(self).pingmgr.told(old(self).pingmgr, Call::Timer),
        *final(self) == (StateMachine { addrmgr: final(self).addrmgr, syncmgr: final(self).syncmgr, peermgr: final(self).peermgr, cbfmgr: final(self).cbfmgr, invmgr: final(self).invmgr, pingmgr: final(self).pingmgr, last_tick: final(self).last_tick, ..*old(self) })
//@@ end
//@@ fn p2p/src/fsm.rs | impl StateMachine / fn broadcast
//@ subst: self.peermgr.peers().map(Peer::from) =>> as_peers(self.peermgr.peers()).vec()
//@ spec:
    requires forall|p: &Peer| predicate.requires((p,))
    ensures *final(self) == (StateMachine { outbox: final(self).outbox, ..*old(self) }), final(self).outbox.version == old(self).outbox.version,
        forall|q: spec_fn(Peer) -> bool| (forall|p: Peer, b: bool| predicate.ensures((&p,), b) ==> b == q(p)) ==> r@ == #[trigger] picked(old(self).peermgr.list(), old(self).peermgr.list().len() as int, q),
        final(self).outbox.ios() == old(self).outbox.ios() + written(r@, msg),
//@ entry:
    let ghost O = *self; let ghost L = self.peermgr.list();
    proof { assert(O.outbox.ios() =~= O.outbox.ios() + written(Seq::empty(), msg)); }
//@ loop 0 it=it:
    invariant *self == (StateMachine { outbox: self.outbox, ..O }), self.outbox.version == O.outbox.version, L == O.peermgr.list(), forall|p: &Peer| predicate.requires((p,)),
        it.seq().len() == L.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == peer_of(*L[i].0, *L[i].1),
        forall|q: spec_fn(Peer) -> bool| (forall|p: Peer, b: bool| predicate.ensures((&p,), b) ==> b == q(p)) ==> peers@ == #[trigger] picked(L, it.index@ as int, q),
        self.outbox.ios() == O.outbox.ios() + written(peers@, msg),
//@ loop_start 0:
    let ghost P0 = peers@; let ghost B0 = self.outbox.ios();
//@ loop_end 0:
    proof {
        assert forall|q: spec_fn(Peer) -> bool| (forall|p: Peer, b: bool| predicate.ensures((&p,), b) ==> b == q(p)) implies peers@ == #[trigger] picked(L, it.index@ as int + 1, q) by { assert(P0 == picked(L, it.index@ as int, q)); }
        if peers@.len() > P0.len() { assert(self.outbox.ios() =~= O.outbox.ios() + written(peers@, msg)); }
    }
//@@ end
//@@ fn p2p/src/fsm.rs | impl StateMachine / fn command
//@ subst: query(&self.tree); =>> query.ask(&self.tree);
//@ subst: .map(|(k, v)| (k, *v)) =>> .map(|x: (Height, &BlockHeader)| -> (o: (Height, BlockHeader)) ensures o == (x.0, *x.1) { let k = x.0; let v = x.1; (k, *v) })
//@ subst: .filter(|(p, _)| p.is_negotiated()) =>> .filter(|x: &(&PeerInfo, &Connection)| -> (o: bool) ensures o == x.0.done() { let p = x.0; p.is_negotiated() })
//@ subst: .filter(|(p, _)| p.services.has(services)) =>> .filter(|x: &(&PeerInfo, &Connection)| -> (o: bool) ensures o == has_services(x.0.services, services) { let p = x.0; p.services.has(services) })
//@ subst: .map(Peer::from).collect::<Vec<Peer>>() =>> .map(|x: (&PeerInfo, &Connection)| -> (o: Peer) ensures o == peer_of(*x.0, *x.1) { Peer::from(x) }).collect()
//@ subst: |p| predicate(p.clone()) =>> |p: &Peer| -> (o: bool) ensures o == chosen(predicate, *p) { predicate.call(p.clone()) }
//@ subst: headers.into_iter() =>> headers
//@ subst: addrs.into_iter().map(|a| (BlockTime::default(), a)) =>> stamp(addrs, block_time_default())
//@ spec:
    ensures
        cmd is QueryTree ==> final(self).did(*old(self), cmd),
        cmd is GetBlockByHash ==> final(self).did(*old(self), cmd),
        cmd is GetBlockByHeight ==> final(self).did(*old(self), cmd),
        cmd is GetPeers ==> final(self).did(*old(self), cmd),
        cmd is Connect ==> final(self).did(*old(self), cmd),
        cmd is Disconnect ==> final(self).did(*old(self), cmd),
        cmd is Broadcast ==> final(self).did(*old(self), cmd),
        cmd is ImportHeaders ==> final(self).did(*old(self), cmd),
        cmd is ImportAddresses ==> final(self).did(*old(self), cmd),
        cmd is GetTip ==> final(self).did(*old(self), cmd),
        cmd is RequestFilters ==> final(self).did(*old(self), cmd),
        cmd is RequestBlock ==> final(self).did(*old(self), cmd),
        cmd is SubmitTransaction ==> final(self).did(*old(self), cmd),
        cmd is Rescan ==> final(self).did(*old(self), cmd),
        cmd is Watch ==> final(self).did(*old(self), cmd),
        cmd is GetSubmittedTransaction ==> final(self).did(*old(self), cmd),
//@ entry:
    let ghost O = *self;
//@ loop 0 it=it:
    invariant *self == (StateMachine { invmgr: self.invmgr, cbfmgr: self.cbfmgr, ..O }), self.cbfmgr.told(O.cbfmgr, Call::Rescan(from, to, watch@)), it.seq() == self.cbfmgr.matched(), self.invmgr.deaf(O.invmgr), self.invmgr.calls() == asked_for(O.invmgr.calls(), it.seq().take(it.index@ as int))
//@ loop_start 0:
    let ghost C0 = self.invmgr.calls(); let ghost M = it.seq(); let ghost K = it.index@ as int;
//@ loop_end 0:
    proof { assert(M.take(K + 1)[K] == M[K]); assert(asked_for(O.invmgr.calls(), M.take(K + 1)) =~= asked_for(O.invmgr.calls(), M.take(K)).push(Call::GetBlock(M[K].1))); }
//@ loop_after 0:
    proof { assert(self.cbfmgr.matched().take(self.cbfmgr.matched().len() as int) =~= self.cbfmgr.matched()); }
//@@ end
    pub open spec fn did(&self, o: Self, cmd: Command) -> bool {
        match cmd {
            Command::QueryTree(q) => asked(q, o.tree) && *self == o,
            Command::GetBlockByHash(h, reply) => *self == o && exists|v: Option<(Height, BlockHeader)>| #[trigger] sent(reply, v) && (v is Some) == o.tree.bc().contains(h) && (v is Some ==> (v->0).0 < o.tree.bc().len() && o.tree.bc()[(v->0).0 as int] == h && (v->0).1.hash == h),
            Command::GetBlockByHeight(h, reply) => *self == o && exists|v: Option<BlockHeader>| #[trigger] sent(reply, v) && (v is Some) == (h < o.tree.bc().len()) && (v is Some ==> (v->0).hash == o.tree.bc()[h as int]),
            Command::GetPeers(s, reply) => *self == o && exists|v: Vec<Peer>| #[trigger] sent(reply, v) && shown(o.peermgr.list(), s, v@),
            Command::Connect(a) => self.peermgr.deaf(o.peermgr) && self.peermgr.calls() == o.peermgr.calls().push(Call::Whitelist(a)).push(Call::Connect(a)) && *self == (StateMachine { peermgr: self.peermgr, ..o }),
            Command::Disconnect(a) => self.peermgr.told(o.peermgr, Call::Disconnect(a, DisconnectReason::Command)) && *self == (StateMachine { peermgr: self.peermgr, ..o }),
            Command::Broadcast(m, q, reply) => *self == (StateMachine { outbox: self.outbox, ..o }) && exists|v: Vec<PeerId>| #[trigger] sent(reply, v) && v@ == picked(o.peermgr.list(), o.peermgr.list().len() as int, |p: Peer| chosen(q, p)) && self.outbox.ios() == o.outbox.ios() + written(v@, m),
            Command::ImportHeaders(hs, reply) => self.syncmgr.told(o.syncmgr, Call::ImportHeaders(hs@)) && sent(reply, self.syncmgr.imported()) && *self == (StateMachine { syncmgr: self.syncmgr, tree: self.tree, ..o }),
            Command::ImportAddresses(v) => self.addrmgr.told(o.addrmgr, Call::ImportAddresses(stamped(v@), peer::Source::Imported)) && *self == (StateMachine { addrmgr: self.addrmgr, ..o }),
            Command::GetTip(reply) => *self == o && sent(reply, ((o.tree.bc().len() - 1) as u64, o.tree.tip_header(), o.tree.work())),
            Command::RequestFilters(r, reply) => self.cbfmgr.told(o.cbfmgr, Call::GetFilters(r)) && sent(reply, self.cbfmgr.result()) && *self == (StateMachine { cbfmgr: self.cbfmgr, ..o }),
            Command::RequestBlock(h) => self.invmgr.told(o.invmgr, Call::GetBlock(h)) && *self == (StateMachine { invmgr: self.invmgr, ..o }),
            Command::SubmitTransaction(t, reply) => self.cbfmgr.told(o.cbfmgr, Call::WatchTransaction(t)) && self.invmgr.told(o.invmgr, Call::Announce(t)) && *self == (StateMachine { cbfmgr: self.cbfmgr, invmgr: self.invmgr, ..o })
                && exists|v: Result<NonEmpty<PeerId>, CommandError>| #[trigger] sent(reply, v) && (v is Ok) == (self.invmgr.announced_to().len() > 0) && (v is Ok ==> (v->Ok_0).sq() == self.invmgr.announced_to()),
            Command::Rescan { from, to, watch } => self.cbfmgr.told(o.cbfmgr, Call::Rescan(from, to, watch@)) && self.invmgr.deaf(o.invmgr) && self.invmgr.calls() == asked_for(o.invmgr.calls(), self.cbfmgr.matched()) && *self == (StateMachine { cbfmgr: self.cbfmgr, invmgr: self.invmgr, ..o }),
            Command::Watch { watch } => self.cbfmgr.told(o.cbfmgr, Call::Watch(watch@)) && *self == (StateMachine { cbfmgr: self.cbfmgr, ..o }),
            Command::GetSubmittedTransaction(t, reply) => *self == o && sent(reply, o.invmgr.submitted(t)),
        }
    }
}
fn main() {}
} // verus!
