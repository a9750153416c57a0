// Unit: the client's service (client/src/service.rs) and handle (client/src/client.rs).
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
}
use dep::*;
pub struct Opq { pub x: u64 }
#[derive(Copy, Clone)]
pub struct SocketAddr { pub ip: u128, pub port: u16 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for SocketAddr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &SocketAddr) -> bool { *self == *o }
}
impl PartialEq for SocketAddr { fn eq(&self, o: &SocketAddr) -> (r: bool) { self.ip == o.ip && self.port == o.port } }
pub struct IpAddr { pub x: u128 }
impl IpAddr { pub fn is_unspecified(&self) -> (r: bool) ensures r == (self.x == 0) { self.x == 0 } }
impl SocketAddr {
    pub fn ip(&self) -> (r: IpAddr) ensures r.x == self.ip { IpAddr { x: self.ip } }
    pub fn port(&self) -> (r: u16) ensures r == self.port { self.port }
}
pub mod net { pub use super::SocketAddr; }
pub type PeerId = SocketAddr;
pub type Height = u64;
#[derive(Copy, Clone)]
pub struct LocalTime { pub ms: u128 }
#[derive(Copy, Clone)]
pub struct LocalDuration { pub ms: u128 }
#[derive(Copy, Clone)]
pub struct BlockHash { pub x: u64 }
#[derive(Copy, Clone)]
pub struct Txid { pub x: u64 }
impl Txid { pub fn to_owned(&self) -> (r: Txid) ensures r == *self { *self } }
#[derive(Copy, Clone)]
pub struct BlockHeader { pub x: u64 }
impl BlockHeader { pub uninterp spec fn hash(&self) -> BlockHash; #[verifier::external_body] pub fn block_hash(&self) -> (r: BlockHash) ensures r == self.hash() { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct ServiceFlags { pub x: u64 }
impl ServiceFlags { pub fn into(self) -> (r: ServiceFlags) ensures r == self { self } }
pub struct Uint256 { pub x: u64 }
pub struct Peer { pub x: u64 }
pub struct Script { pub x: u64 }
pub struct Query { pub x: u64 }
#[derive(Copy, Clone)]
pub struct PeerPredicate { pub x: u64 }
pub struct NetworkMessage { pub x: u64 }
pub struct RawNetworkMessage { pub x: u64 }
pub struct GetFiltersError { pub x: u64 }
pub struct ImportResult { pub x: u64 }
pub struct Address { pub x: u64 }
pub struct Transaction { pub x: u64 }
pub mod tree { pub struct Error { pub x: u64 } }
pub struct RangeInclusive<T> { pub start: T, pub end: T }
impl RangeInclusive<u64> { pub fn is_empty(&self) -> (r: bool) ensures r == (self.start > self.end) { self.start > self.end } }
#[derive(Copy, Clone)]
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub mod time { #[derive(Copy, Clone)] pub struct Duration { pub x: u64 } }
pub struct Error { pub x: u64 }
pub mod handle {
    use super::*;
    pub enum Error { GetFilters(GetFiltersError), Command(CommandError), Other(u64) }
}
pub mod chan {
    use vstd::prelude::*;
    use super::handle;
    /// `sent` what was put in; `pipe` which channel it is
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { x: Vec<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: Vec<T> }
    /// what the one who holds the sending end of the channel sends first
    pub uninterp spec fn reply<T>(pipe: int) -> T;
    impl<T> Sender<T> {
        pub uninterp spec fn sent(&self) -> Seq<T>;
        pub uninterp spec fn pipe(&self) -> int;
        /// who gets what is sent
        pub uninterp spec fn goes(&self) -> int;
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Sender<T>) ensures r.goes() == self.goes() { unimplemented!() }
        #[verifier::external_body]
        pub fn send(&mut self, x: T) -> (r: Result<(), handle::Error>) ensures r is Ok ==> final(self).sent() == old(self).sent().push(x), r is Err ==> final(self).sent() == old(self).sent() && r->Err_0 is Other { unimplemented!() }
    }
    impl<T> Receiver<T> {
        pub uninterp spec fn pipe(&self) -> int;
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Receiver<T>) ensures r.pipe() == self.pipe() { unimplemented!() }
        #[verifier::external_body]
        pub fn recv_timeout(&self, d: super::time::Duration) -> (r: Result<T, handle::Error>) ensures r is Ok ==> r->Ok_0 == reply::<T>(self.pipe()), r is Err ==> r->Err_0 is Other { unimplemented!() }
        #[verifier::external_body]
        pub fn recv(&self) -> (r: Result<T, handle::Error>) ensures r is Ok ==> r->Ok_0 == reply::<T>(self.pipe()), r is Err ==> r->Err_0 is Other { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn bounded<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) ensures r.0.pipe() == r.1.pipe(), r.0.sent().len() == 0 { unimplemented!() }
}
pub struct NonEmpty<T> { pub v: Vec<T> }
/// a range of heights, and an iterator over scripts
pub struct Bounds { pub from: Bound<Height>, pub to: Bound<Height> }
#[derive(Copy, Clone)]
pub struct Edge { pub b: Bound<Height> }
impl Edge { pub fn cloned(self) -> (r: Bound<Height>) ensures r == self.b { self.b } }
impl Bounds {
    pub fn start_bound(&self) -> (r: Edge) ensures r.b == self.from { Edge { b: self.from } }
    pub fn end_bound(&self) -> (r: Edge) ensures r.b == self.to { Edge { b: self.to } }
}
#[verifier::external_body]
pub struct Watch { x: u64 }
impl Watch { pub uninterp spec fn all(&self) -> Seq<Script>; #[verifier::external_body] pub fn collect(self) -> (r: Vec<Script>) ensures r@ == self.all() { unimplemented!() } }
//@@ enum p2p/src/fsm.rs | enum CommandError
//@@ end
//@@ enum p2p/src/fsm.rs | enum Command
//@ subst: net::SocketAddr =>> SocketAddr
//@ subst: Arc<dyn Fn(&dyn BlockReader) + Send + Sync> =>> Query
//@ subst: fn(Peer) -> bool =>> PeerPredicate
//@@ end
//@@ enum net/src/lib.rs | enum Link
//@ attr: #[derive(Copy, Clone)]
//@@ end
pub mod std_ { pub mod io { pub struct Error { pub x: u64 } } }
//@@ enum net/src/lib.rs | enum Disconnect
//@ subst: std::io::Error =>> std_::io::Error
//@@ end
//@@ enum net/src/lib.rs | enum Io
//@ subst: Id : PeerId = net::SocketAddr =>> Id
//@@ end
pub struct Ev { pub x: u64 }

// ---- the stream decoder (unit `stream`, property C15): its contract ----
pub enum Front { Msg(RawNetworkMessage, nat), More, Bad }
pub uninterp spec fn front(b: Seq<u8>) -> Front;
/// the messages of a byte string, up to the first incomplete or malformed one
pub open spec fn msgs(b: Seq<u8>) -> Seq<RawNetworkMessage> decreases b.len() {
    match front(b) { Front::Msg(d, n) => if 0 < n <= b.len() { seq![d] + msgs(b.skip(n as int)) } else { Seq::empty() }, _ => Seq::empty() }
}
pub open spec fn rest(b: Seq<u8>) -> Seq<u8> decreases b.len() {
    match front(b) { Front::Msg(d, n) => if 0 < n <= b.len() { rest(b.skip(n as int)) } else { b }, _ => b }
}
pub struct DecodeErr { pub x: u64 }
pub mod p2p {
    use vstd::prelude::*;
    use super::*;
    pub type Command = super::Command;
    pub type Event = Ev;
    pub enum DisconnectReason { DecodeError(Arc<DecodeErr>), Other(u64) }
    pub mod stream {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body]
        pub struct Decoder { x: u64 }
        impl Decoder {
            pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn new(n: usize) -> (r: Decoder) ensures r@.len() == 0 { unimplemented!() }
            #[verifier::external_body]
            pub fn input(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
            #[verifier::external_body]
            pub fn decode_next(&mut self) -> (r: Result<Option<RawNetworkMessage>, DecodeErr>)
                ensures
                    front(old(self)@) matches Front::Msg(d, n) ==> r == Ok::<_, DecodeErr>(Some(d)) && 0 < n <= old(self)@.len() && final(self)@ == old(self)@.skip(n as int),
                    front(old(self)@) is More ==> r == Ok::<Option<RawNetworkMessage>, DecodeErr>(None) && final(self)@ == old(self)@,
                    front(old(self)@) is Bad ==> r is Err && final(self)@ == old(self)@ { unimplemented!() }
        }
    }
    /// the node's configuration: what the client sets, and the rest
    pub struct Config { pub network: Opq, pub domains: Opq, pub connect: Opq, pub user_agent: Opq, pub hooks: Opq, pub limits: Opq, pub services: ServiceFlags, pub rest: Opq }
    impl Config { #[verifier::external_body] pub fn default() -> Config { unimplemented!() } }
}
pub struct Config { pub network: Opq, pub domains: Opq, pub connect: Opq, pub user_agent: Opq, pub hooks: Opq, pub limits: Opq, pub services: ServiceFlags, pub rest: Opq }
/// what the node (units `fsm` and below) is told
pub enum Call {
    Init(LocalTime), Tick(LocalTime), Timer, Cmd(Command), Msg(SocketAddr, RawNetworkMessage), Attempted(SocketAddr),
    Connected(SocketAddr, SocketAddr, Link), Disconnected(SocketAddr, Disconnect<p2p::DisconnectReason>), Drop(SocketAddr),
}
pub type NodeIo = Io<RawNetworkMessage, Ev, p2p::DisconnectReason, SocketAddr>;
pub type WireIo = Io<Vec<u8>, Ev, p2p::DisconnectReason, SocketAddr>;
#[verifier::external_body]
pub struct Machine { x: u64 }
impl Machine {
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    /// what it wants done next
    pub uninterp spec fn out(&self) -> Option<NodeIo>;
    pub uninterp spec fn taken(&self) -> nat;
    pub uninterp spec fn made(&self) -> (Opq, Opq, Opq, Opq, Opq, p2p::Config);
    #[verifier::external_body]
    pub fn new(tree: Opq, filters: Opq, peers: Opq, clock: Opq, rng: Opq, c: p2p::Config) -> (r: Machine) ensures r.calls().len() == 0, r.made() == (tree, filters, peers, clock, rng, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<NodeIo>) ensures r == old(self).out(), final(self).taken() == old(self).taken() + 1, final(self).calls() == old(self).calls() { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize(&mut self, t: LocalTime) ensures final(self).calls() == old(self).calls().push(Call::Init(t)), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn tick(&mut self, t: LocalTime) ensures final(self).calls() == old(self).calls().push(Call::Tick(t)), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn timer_expired(&mut self) ensures final(self).calls() == old(self).calls().push(Call::Timer), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn command(&mut self, c: Command) ensures final(self).calls() == old(self).calls().push(Call::Cmd(c)), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn message_received(&mut self, a: &SocketAddr, m: RawNetworkMessage) ensures final(self).calls() == old(self).calls().push(Call::Msg(*a, m)), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn attempted(&mut self, a: &SocketAddr) ensures final(self).calls() == old(self).calls().push(Call::Attempted(*a)), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn connected(&mut self, a: SocketAddr, l: &SocketAddr, k: Link) ensures final(self).calls() == old(self).calls().push(Call::Connected(a, *l, k)), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn disconnected(&mut self, a: &SocketAddr, d: Disconnect<p2p::DisconnectReason>) ensures final(self).calls() == old(self).calls().push(Call::Disconnected(*a, d)), final(self).taken() == old(self).taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn disconnect(&mut self, a: SocketAddr, d: p2p::DisconnectReason) requires d is DecodeError ensures final(self).calls() == old(self).calls().push(Call::Drop(a)), final(self).taken() == old(self).taken() { unimplemented!() }
}
/// the encoding of a message
pub uninterp spec fn wire(m: RawNetworkMessage) -> Seq<u8>;
impl RawNetworkMessage {
    #[verifier::external_body]
    pub fn consensus_encode(&self, b: &mut Vec<u8>) -> (r: Result<usize, u64>) ensures r is Ok, final(b)@ == old(b)@ + wire(*self), old(b)@.len() == 0 ==> final(b)@ == wire(*self) { unimplemented!() }
}
/// the calls by which messages reach the node
pub open spec fn told(a: SocketAddr, m: Seq<RawNetworkMessage>) -> Seq<Call> { m.map_values(|x: RawNetworkMessage| Call::Msg(a, x)) }
proof fn lemma_told(a: SocketAddr, c: Seq<Call>, d: RawNetworkMessage, m: Seq<RawNetworkMessage>)
    ensures c + told(a, seq![d] + m) == c.push(Call::Msg(a, d)) + told(a, m)
{ assert(c + told(a, seq![d] + m) =~= c.push(Call::Msg(a, d)) + told(a, m)); }
//@@ struct client/src/service.rs | struct Service
//@ subst: Service<T, F, P, C> =>> Service
//@ subst: p2p::StateMachine<T, F, P, C> =>> Machine
//@@ end
impl Service {
//@@ fn client/src/service.rs | impl Service / fn new
//@ props: C24
//@ sig: pub fn new(tree: Opq, filters: Opq, peers: Opq, clock: Opq, rng: Opq, config: Config) -> (r: Self)
//@ subst: p2p::StateMachine::new =>> Machine::new
//@ spec:
    ensures r.inboxes@ == Map::<SocketAddr, p2p::stream::Decoder>::empty(), r.machine.calls().len() == 0,
        // the node runs on what it is given, configured as asked
        r.machine.made().0 == tree, r.machine.made().1 == filters, r.machine.made().2 == peers, r.machine.made().3 == clock, r.machine.made().4 == rng,
        r.machine.made().5.network == config.network, r.machine.made().5.domains == config.domains, r.machine.made().5.connect == config.connect, r.machine.made().5.user_agent == config.user_agent,
        r.machine.made().5.hooks == config.hooks, r.machine.made().5.limits == config.limits, r.machine.made().5.services == config.services,
//@@ end
//@@ fn client/src/service.rs | impl nakamoto_net :: Service for Service / fn command_received
//@ props: C24
//@ sig: fn command_received(&mut self, cmd: Command)
//@ spec:
    ensures final(self).inboxes == old(self).inboxes, final(self).machine.calls() == old(self).machine.calls().push(Call::Cmd(cmd)), final(self).machine.taken() == old(self).machine.taken()
//@@ end
//@@ fn client/src/service.rs | impl StateMachine for Service / fn initialize
//@ props: C24
//@ spec:
    ensures final(self).inboxes == old(self).inboxes, final(self).machine.calls() == old(self).machine.calls().push(Call::Init(time)), final(self).machine.taken() == old(self).machine.taken()
//@@ end
//@@ fn client/src/service.rs | impl StateMachine for Service / fn tick
//@ props: C24
//@ spec:
    ensures final(self).inboxes == old(self).inboxes, final(self).machine.calls() == old(self).machine.calls().push(Call::Tick(local_time)), final(self).machine.taken() == old(self).machine.taken()
//@@ end
//@@ fn client/src/service.rs | impl StateMachine for Service / fn timer_expired
//@ props: C24
//@ spec:
    ensures final(self).inboxes == old(self).inboxes, final(self).machine.calls() == old(self).machine.calls().push(Call::Timer), final(self).machine.taken() == old(self).machine.taken()
//@@ end
//@@ fn client/src/service.rs | impl StateMachine for Service / fn attempted
//@ props: C24
//@ spec:
    ensures final(self).inboxes == old(self).inboxes, final(self).machine.calls() == old(self).machine.calls().push(Call::Attempted(*addr)), final(self).machine.taken() == old(self).machine.taken()
//@@ end
//@@ fn client/src/service.rs | impl StateMachine for Service / fn connected
//@ props: C24
//@ spec:
    ensures final(self).machine.calls() == old(self).machine.calls().push(Call::Connected(addr, *local_addr, link)), final(self).machine.taken() == old(self).machine.taken(),
        // a connection begins with nothing left over from another
        final(self).inboxes@.contains_key(addr) && final(self).inboxes@[addr]@.len() == 0,
        forall|b: SocketAddr| b != addr ==> #[trigger] final(self).inboxes@.contains_key(b) == old(self).inboxes@.contains_key(b) && (final(self).inboxes@.contains_key(b) ==> final(self).inboxes@[b] == old(self).inboxes@[b]),
//@@ end
//@@ fn client/src/service.rs | impl StateMachine for Service / fn disconnected
//@ props: C24
//@ sig: fn disconnected(&mut self, addr: &net::SocketAddr, reason: Disconnect<p2p::DisconnectReason>)
//@ spec:
    ensures final(self).machine.calls() == old(self).machine.calls().push(Call::Disconnected(*addr, reason)), final(self).machine.taken() == old(self).machine.taken(),
        final(self).inboxes@ == old(self).inboxes@.remove(*addr),
//@@ end
//@@ fn client/src/service.rs | impl StateMachine for Service / fn message_received
//@ props: C24
//@ sig: fn message_received(&mut self, addr: &net::SocketAddr, bytes: &[u8])
//@ subst: bytes.borrow() =>> bytes
//@ subst: Cow::Owned(msg) =>> msg
//@ attr: #[verifier::loop_isolation(false)]
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ spec:
    ensures
        final(self).machine.taken() == old(self).machine.taken(),
        // bytes from elsewhere change nothing
        !old(self).inboxes@.contains_key(*addr) ==> final(self).machine.calls() == old(self).machine.calls() && final(self).inboxes@ == old(self).inboxes@,
        // all messages complete by now reach the node, once, in order and from this address; what is incomplete waits; a malformed one ends the connection
        old(self).inboxes@.contains_key(*addr) ==> {
            let b = old(self).inboxes@[*addr]@ + bytes@;
            let c = old(self).machine.calls() + told(*addr, msgs(b));
            &&& final(self).inboxes@.contains_key(*addr) && final(self).inboxes@[*addr]@ == rest(b)
            &&& final(self).machine.calls() == (if front(rest(b)) is Bad { c.push(Call::Drop(*addr)) } else { c })
        },
        forall|b: SocketAddr| b != *addr ==> #[trigger] final(self).inboxes@.contains_key(b) == old(self).inboxes@.contains_key(b) && (final(self).inboxes@.contains_key(b) ==> final(self).inboxes@[b] == old(self).inboxes@[b]),
//@ entry:
    let ghost c0 = self.machine.calls(); let ghost b0 = if self.inboxes@.contains_key(*addr) { self.inboxes@[*addr]@ + bytes@ } else { bytes@ };
//@ loop 0:
    invariant self.machine.taken() == old(self).machine.taken(), c0 + told(*addr, msgs(b0)) == self.machine.calls() + told(*addr, msgs(inbox@)), rest(inbox@) == rest(b0)
//@ loop_start 0:
    proof { match front(inbox@) { Front::Msg(d, n) => { lemma_told(*addr, self.machine.calls(), d, msgs(inbox@.skip(n as int))); } _ => { assert(self.machine.calls() + told(*addr, msgs(inbox@)) =~= self.machine.calls()); } } }
//@ loop_after 0:
    proof { assert(self.machine.calls() + told(*addr, msgs(inbox@)) =~= self.machine.calls()); }
//@@ end
//@@ fn client/src/service.rs | impl Iterator for Service / fn next
//@ props: C24
//@ sig: fn next(&mut self) -> (r: Option<WireIo>)
//@ spec:
    ensures final(self).inboxes == old(self).inboxes, final(self).machine.calls() == old(self).machine.calls(), final(self).machine.taken() == old(self).machine.taken() + 1,
        match old(self).machine.out() {
            None => r is None,
            Some(Io::Write(a, m)) => r matches Some(Io::Write(b, w)) && b == a && w@ == wire(m),
            Some(Io::Event(e)) => r == Some(WireIo::Event(e)),
            Some(Io::Connect(a)) => r == Some(WireIo::Connect(a)),
            Some(Io::Disconnect(a, d)) => r == Some(WireIo::Disconnect(a, d)),
            Some(Io::SetTimer(d)) => r == Some(WireIo::SetTimer(d)),
        }
//@@ end
}
// ---- the handle: commands to the node, and what comes back ----
pub struct Block { pub x: u64 }
pub struct BlockFilter { pub x: u64 }
pub mod fsm {
    use super::*;
    /// those events the handle waits for, with the fields it reads
    pub enum Event { PeerConnected { addr: SocketAddr, link: Link }, PeerDisconnected { addr: SocketAddr }, Other(u64) }
}
pub use fsm::Event;
/// wakes the node's thread: what it finds waiting then
#[verifier::external_body]
pub struct W { x: u64 }
impl W {
    /// whom it wakes
    pub uninterp spec fn wakes(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: W) ensures r.wakes() == self.wakes() { unimplemented!() }
    pub uninterp spec fn seen(&self) -> Seq<Command>;
    #[verifier::external_body]
    pub fn wake_for(&mut self, c: &chan::Sender<Command>) -> (r: Result<(), handle::Error>) ensures r is Ok ==> final(self).seen() == c.sent(), r is Err ==> r->Err_0 is Other { unimplemented!() }
    pub uninterp spec fn told_to_stop(&self) -> bool;
    #[verifier::external_body]
    pub fn wake_for_stop(&mut self, c: &chan::Sender<()>) -> (r: Result<(), handle::Error>) requires c.sent().len() > 0 ensures r is Ok ==> final(self).told_to_stop() { unimplemented!() }
}
pub mod event {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Subscriber<T> { x: Vec<T> }
    /// what is published from the subscription on
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Feed<T> { x: Vec<T> }
    impl<T> Feed<T> {
        pub uninterp spec fn all(&self) -> Seq<T>;
        /// the commands sent before it began
        pub uninterp spec fn since(&self) -> Seq<Command>;
        pub uninterp spec fn of(&self) -> Subscriber<T>;
    }
    impl<T> Subscriber<T> {
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Subscriber<T>) ensures r.source() == self.source() { unimplemented!() }
        /// whose events they are
        pub uninterp spec fn source(&self) -> int;
        #[verifier::external_body]
        pub fn subscribe_at(&self, c: &chan::Sender<Command>) -> (r: Feed<T>) ensures r.since() == c.sent(), r.of() == *self { unimplemented!() }
    }
    /// `f` gave this for one event, and nothing for those before it
    pub open spec fn first<F: Fn(Event) -> Option<T>, T>(s: Seq<Event>, f: F, t: T) -> bool {
        exists|i: int| 0 <= i < s.len() && f.ensures((#[trigger] s[i],), Some(t)) && forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] s[j],), None)
    }
    /// `wait` with a function that keeps no state (what the proof of `waiting::wait` below says of any function, read for such a one)
    #[verifier::external_body]
    pub fn wait<F: Fn(Event) -> Option<T>, T>(events: &Feed<Event>, f: F, timeout: time::Duration) -> (r: Result<T, handle::Error>)
        requires forall|e: Event| f.requires((e,))
        ensures r is Ok ==> first(events.all(), f, r->Ok_0)
    { unimplemented!() }
}
/// waiting for an event (net/src/event.rs), for any function, also one that keeps state
pub mod waiting {
    use vstd::prelude::*;
    pub mod chan {
        use vstd::prelude::*;
        pub enum RecvTimeoutError { Timeout, Disconnected }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct Receiver<T> { x: Vec<T> }
        impl<T> Receiver<T> {
            /// what was taken from it, and whether nothing more can come
            pub uninterp spec fn taken(&self) -> Seq<T>;
            pub uninterp spec fn closed(&self) -> bool;
            #[verifier::external_body]
            pub fn recv_timeout(&mut self, d: super::time::Duration) -> (r: Result<T, RecvTimeoutError>)
                ensures r is Ok ==> final(self).taken() == old(self).taken().push(r->Ok_0), r is Err ==> final(self).taken() == old(self).taken(),
                    r is Err && r->Err_0 is Disconnected ==> final(self).closed() { unimplemented!() }
        }
    }
    pub mod time {
        use vstd::prelude::*;
        #[derive(Copy, Clone)]
        pub struct Duration { pub x: u64 }
        impl Duration { pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>) ensures r == (if self.x >= o.x { Some(Duration { x: (self.x - o.x) as u64 }) } else { None::<Duration> }) { if self.x >= o.x { Some(Duration { x: self.x - o.x }) } else { None } } }
        #[derive(Copy, Clone)]
        pub struct Instant { pub x: u64 }
        /// so much time had passed since then, at some moment of the call
        pub uninterp spec fn passed(i: Instant, d: Duration) -> bool;
        /// the call began then
        pub uninterp spec fn begun(i: Instant) -> bool;
        impl Instant {
            #[verifier::external_body]
            pub fn now() -> (r: Instant) ensures begun(r) { unimplemented!() }
            #[verifier::external_body]
            pub fn elapsed(&self) -> (r: Duration) ensures passed(*self, r) { unimplemented!() }
        }
    }
    pub trait Look<E, T>: Sized {
        spec fn seen(&self) -> Seq<E>;
        spec fn said(&self) -> Seq<Option<T>>;
        fn look(&mut self, e: E) -> (r: Option<T>)
            ensures final(self).seen() == old(self).seen().push(e), final(self).said() == old(self).said().push(r);
    }
    pub open spec fn nones<T>(s: Seq<Option<T>>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> (#[trigger] s[i]) is None }
//@@ fn net/src/event.rs | fn wait
//@ props: C24
//@ sig: pub fn wait<E, F: Look<E, T>, T>(events: &mut chan::Receiver<E>, f: &mut F, timeout: time::Duration) -> (r: Result<T, chan::RecvTimeoutError>)
//@ subst: f(event) =>> f.look(event)
//@ attr: #[verifier::loop_isolation(false)]
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ spec:
    requires old(f).seen() == old(events).taken(), old(f).said().len() == old(f).seen().len()
    ensures
        // the function sees every event taken, in order; it said nothing to all of them but the last, and its answer to that one is returned
        final(f).seen() == final(events).taken(), final(f).said().len() == final(f).seen().len(), final(f).said().len() >= old(f).said().len(),
        r is Ok ==> final(f).said().len() > old(f).said().len() && final(f).said().last() == Some(r->Ok_0) && nones(final(f).said(), old(f).said().len() as int, final(f).said().len() - 1),
        r is Err ==> nones(final(f).said(), old(f).said().len() as int, final(f).said().len() as int),
        // it gives up only when the time is up, or when nothing can come any more
        r is Err && r->Err_0 is Timeout ==> exists|i: time::Instant, d: time::Duration| #[trigger] time::passed(i, d) && time::begun(i) && d.x > timeout.x,
        r is Err && r->Err_0 is Disconnected ==> final(events).closed(),
//@ loop 0:
    invariant f.seen() == events.taken(), f.said().len() == f.seen().len(), f.said().len() >= old(f).said().len(), nones(f.said(), old(f).said().len() as int, f.said().len() as int), time::begun(start)
//@@ end
}
//@@ struct client/src/client.rs | struct Handle
//@ subst: <W: Waker> =>>
//@@ end
/// one command was sent, the node was woken after that, and nothing else changed
pub open spec fn asked(h: Handle, o: Handle, c: Command) -> bool {
    h.commands.sent() == o.commands.sent().push(c) && h.waker.seen() == h.commands.sent() && kept(h, o)
}
pub open spec fn kept(h: Handle, o: Handle) -> bool { h.events == o.events && h.blocks == o.blocks && h.filters == o.filters && h.subscriber == o.subscriber && h.timeout == o.timeout && h.shutdown == o.shutdown && h.listening == o.listening }
/// the address is meant: itself, or any with its port if it has no IP address
pub open spec fn meant(a: SocketAddr, addr: SocketAddr) -> bool { a == addr || (addr.ip == 0 && a.port == addr.port) }
impl Handle {
//@@ fn client/src/client.rs | impl Handle / fn _command
//@ props: C24
//@ sig: fn _command(&mut self, cmd: Command) -> (r: Result<(), handle::Error>)
//@ subst: self.waker.wake() =>> self.waker.wake_for(&self.commands)
//@ spec:
    ensures r is Ok ==> asked(*final(self), *old(self), cmd), kept(*final(self), *old(self)), r is Err ==> r->Err_0 is Other
//@@ end
//@@ fn client/src/client.rs | impl Handle / fn set_timeout
//@ props: C24
//@ spec:
    ensures final(self).timeout == timeout, final(self).events == old(self).events, final(self).commands == old(self).commands
//@@ end
//@@ fn client/src/client.rs | impl Handle / fn get_peers
//@ props: C24
//@ sig: pub fn get_peers(&mut self, services: ServiceFlags) -> (r: Result<Vec<Peer>, handle::Error>)
//@ spec:
    ensures r is Ok ==> exists|c: chan::Sender<Vec<Peer>>| #[trigger] asked(*final(self), *old(self), Command::GetPeers(services, c)) && r->Ok_0 == chan::reply::<Vec<Peer>>(c.pipe())
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn get_tip
//@ props: C24
//@ sig: fn get_tip(&mut self) -> (r: Result<(Height, BlockHeader, Uint256), handle::Error>)
//@ spec:
    ensures r is Ok ==> exists|c: chan::Sender<(Height, BlockHeader, Uint256)>| #[trigger] asked(*final(self), *old(self), Command::GetTip(c)) && r->Ok_0 == chan::reply::<(Height, BlockHeader, Uint256)>(c.pipe())
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn get_block
//@ props: C24
//@ sig: fn get_block(&mut self, hash: &BlockHash) -> (r: Result<Option<(Height, BlockHeader)>, handle::Error>)
//@ spec:
    ensures r is Ok ==> exists|c: chan::Sender<Option<(Height, BlockHeader)>>| #[trigger] asked(*final(self), *old(self), Command::GetBlockByHash(*hash, c)) && r->Ok_0 == chan::reply::<Option<(Height, BlockHeader)>>(c.pipe())
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn get_block_by_height
//@ props: C24
//@ sig: fn get_block_by_height(&mut self, height: Height) -> (r: Result<Option<BlockHeader>, handle::Error>)
//@ spec:
    ensures kept(*final(self), *old(self)), r is Ok ==> exists|c: chan::Sender<Option<BlockHeader>>| #[trigger] asked(*final(self), *old(self), Command::GetBlockByHeight(height, c)) && r->Ok_0 == chan::reply::<Option<BlockHeader>>(c.pipe())
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn request_block
//@ props: C24
//@ sig: fn request_block(&mut self, hash: &BlockHash) -> (r: Result<(), handle::Error>)
//@ spec:
    ensures r is Ok ==> asked(*final(self), *old(self), Command::RequestBlock(*hash))
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn request_filters
//@ props: C24
//@ sig: fn request_filters(&mut self, range: RangeInclusive<Height>) -> (r: Result<(), handle::Error>)
//@ subst: receive.recv()?.map_err(handle::Error::GetFilters) =>> match receive.recv()? { Ok(x) => Ok(x), Err(e) => Err(handle::Error::GetFilters(e)) }
//@ spec:
    // (asking for an empty range is a mistake of the caller's)
    requires range.start <= range.end
    ensures r is Ok ==> exists|c: chan::Sender<Result<(), GetFiltersError>>| #[trigger] asked(*final(self), *old(self), Command::RequestFilters(range, c)) && chan::reply::<Result<(), GetFiltersError>>(c.pipe()) is Ok,
        r is Err && r->Err_0 is GetFilters ==> exists|c: chan::Sender<Result<(), GetFiltersError>>| #[trigger] asked(*final(self), *old(self), Command::RequestFilters(range, c)) && chan::reply::<Result<(), GetFiltersError>>(c.pipe()) == Err::<(), GetFiltersError>(r->Err_0->GetFilters_0),
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn command
//@ props: C24
//@ sig: fn command(&mut self, cmd: Command) -> (r: Result<(), handle::Error>)
//@ spec:
    ensures r is Ok ==> asked(*final(self), *old(self), cmd), kept(*final(self), *old(self)), r is Err ==> r->Err_0 is Other
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn blocks
//@ props: C24
//@ sig: fn blocks(&self) -> (r: event::Feed<(Block, Height)>)
//@ subst: .subscribe() =>> .subscribe_at(&self.commands)
//@ spec:
    ensures r.of() == self.blocks
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn filters
//@ props: C24
//@ sig: fn filters(&self) -> (r: event::Feed<(BlockFilter, BlockHash, Height)>)
//@ subst: .subscribe() =>> .subscribe_at(&self.commands)
//@ spec:
    ensures r.of() == self.filters
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn events
//@ props: C24
//@ sig: fn events(&self) -> (r: event::Feed<Event>)
//@ subst: .subscribe() =>> .subscribe_at(&self.commands)
//@ spec:
    ensures r.of() == self.subscriber
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn broadcast
//@ props: C24
//@ sig: fn broadcast(&mut self, msg: NetworkMessage, predicate: PeerPredicate) -> (r: Result<Vec<net::SocketAddr>, handle::Error>)
//@ spec:
    ensures r is Ok ==> exists|c: chan::Sender<Vec<PeerId>>| #[trigger] asked(*final(self), *old(self), Command::Broadcast(msg, predicate, c)) && r->Ok_0 == chan::reply::<Vec<PeerId>>(c.pipe())
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn connect
//@ props: C24
//@ sig: fn connect(&mut self, addr: net::SocketAddr) -> (r: Result<Link, handle::Error>)
//@ subst: .subscribe() =>> .subscribe_at(&self.commands)
//@ subst: .map_err(handle::Error::from) =>>
//@ closure 0: |e: Event| -> (x: Option<Link>) ensures x == (match e { Event::PeerConnected { addr: a, link } => if meant(a, addr) { Some(link) } else { None }, _ => None })
//@ spec:
    ensures r is Ok ==> asked(*final(self), *old(self), Command::Connect(addr)),
        // the first such connection reported since before the command
        r is Ok ==> exists|s: event::Feed<Event>, i: int| s.of() == old(self).events && s.since() == old(self).commands.sent() && 0 <= i < s.all().len()
            && (#[trigger] s.all()[i] matches Event::PeerConnected { addr: a, link: l } && meant(a, addr) && l == r->Ok_0)
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn disconnect
//@ props: C24
//@ sig: fn disconnect(&mut self, addr: net::SocketAddr) -> (r: Result<(), handle::Error>)
//@ subst: .subscribe() =>> .subscribe_at(&self.commands)
//@ closure 0: |e: Event| -> (x: Option<()>) ensures x == (match e { Event::PeerDisconnected { addr: a } => if meant(a, addr) { Some(()) } else { None }, _ => None })
//@ spec:
    ensures r is Ok ==> asked(*final(self), *old(self), Command::Disconnect(addr)),
        r is Ok ==> exists|s: event::Feed<Event>, i: int| s.of() == old(self).events && s.since() == old(self).commands.sent() && 0 <= i < s.all().len()
            && (#[trigger] s.all()[i] matches Event::PeerDisconnected { addr: a } && meant(a, addr))
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn import_headers
//@ props: C24
//@ sig: fn import_headers(&mut self, headers: Vec<BlockHeader>) -> (r: Result<Result<ImportResult, tree::Error>, handle::Error>)
//@ spec:
    ensures r is Ok ==> exists|c: chan::Sender<Result<ImportResult, tree::Error>>| #[trigger] asked(*final(self), *old(self), Command::ImportHeaders(headers, c)) && r->Ok_0 == chan::reply::<Result<ImportResult, tree::Error>>(c.pipe())
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn import_addresses
//@ props: C24
//@ sig: fn import_addresses(&mut self, addrs: Vec<Address>) -> (r: Result<(), handle::Error>)
//@ spec:
    ensures r is Ok ==> asked(*final(self), *old(self), Command::ImportAddresses(addrs))
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn submit_transaction
//@ props: C24
//@ sig: fn submit_transaction(&mut self, tx: Transaction) -> (r: Result<NonEmpty<net::SocketAddr>, handle::Error>)
//@ subst: receive.recv()?.map_err(handle::Error::Command) =>> match receive.recv()? { Ok(x) => Ok(x), Err(e) => Err(handle::Error::Command(e)) }
//@ spec:
    ensures r is Ok ==> exists|c: chan::Sender<Result<NonEmpty<PeerId>, CommandError>>| #[trigger] asked(*final(self), *old(self), Command::SubmitTransaction(tx, c)) && chan::reply::<Result<NonEmpty<PeerId>, CommandError>>(c.pipe()) == Ok::<NonEmpty<PeerId>, CommandError>(r->Ok_0),
        r is Err && r->Err_0 is Command ==> exists|c: chan::Sender<Result<NonEmpty<PeerId>, CommandError>>| #[trigger] asked(*final(self), *old(self), Command::SubmitTransaction(tx, c)) && chan::reply::<Result<NonEmpty<PeerId>, CommandError>>(c.pipe()) == Err::<NonEmpty<PeerId>, CommandError>(r->Err_0->Command_0),
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn get_submitted_transaction
//@ props: C24
//@ sig: fn get_submitted_transaction(&mut self, txid: &Txid) -> (r: Result<Option<Transaction>, handle::Error>)
//@ spec:
    ensures r is Ok ==> exists|c: chan::Sender<Option<Transaction>>| #[trigger] asked(*final(self), *old(self), Command::GetSubmittedTransaction(*txid, c)) && r->Ok_0 == chan::reply::<Option<Transaction>>(c.pipe())
//@@ end
//@@ fn client/src/client.rs | impl Clone for Handle / fn clone
//@ props: C24
//@ sig: fn clone(&self) -> (r: Self)
//@ spec:
    ensures r.commands.goes() == self.commands.goes(), r.shutdown.goes() == self.shutdown.goes(), r.waker.wakes() == self.waker.wakes(), r.timeout == self.timeout,
        r.events.source() == self.events.source(), r.blocks.source() == self.blocks.source(), r.filters.source() == self.filters.source(), r.subscriber.source() == self.subscriber.source(),
        r.listening.pipe() == self.listening.pipe(),
//@@ end
//@@ fn client/src/client.rs | impl Handle / fn listening
//@ props: C24
//@ sig: pub fn listening(&mut self) -> (r: Result<net::SocketAddr, handle::Error>)
//@ spec:
    ensures *final(self) == *old(self), r is Ok ==> r->Ok_0 == chan::reply::<SocketAddr>(old(self).listening.pipe())
//@@ end
//@@ fn client/src/handle.rs | trait Handle / fn rescan
//@ props: C24
//@ sig: fn rescan(&mut self, range: Bounds, watch: Watch) -> (r: Result<(), handle::Error>)
//@ spec:
    ensures r is Ok ==> exists|w: Vec<Script>| w@ == watch.all() && #[trigger] asked(*final(self), *old(self), Command::Rescan { from: range.from, to: range.to, watch: w })
//@@ end
//@@ fn client/src/handle.rs | trait Handle / fn watch
//@ props: C24
//@ sig: fn watch(&mut self, watch: Watch) -> (r: Result<(), handle::Error>)
//@ spec:
    ensures r is Ok ==> exists|w: Vec<Script>| w@ == watch.all() && #[trigger] asked(*final(self), *old(self), Command::Watch { watch: w })
//@@ end
//@@ fn client/src/client.rs | impl handle :: Handle for Handle / fn shutdown
//@ props: C24
//@ sig: fn shutdown(&mut self) -> (r: Result<(), handle::Error>)
//@ subst: self.waker.wake() =>> self.waker.wake_for_stop(&self.shutdown)
//@ spec:
    ensures r is Ok ==> final(self).shutdown.sent() == old(self).shutdown.sent().push(()) && final(self).waker.told_to_stop()
//@@ end
}
} // verus!
fn main() {}
