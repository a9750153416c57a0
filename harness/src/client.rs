//! The client as its user sees it (C24): the service between the byte streams and the node, the handle's methods
//! against a stand-in reactor that acts only when it is woken, the event feeds, and a client stopped and started again.
use crate::node::*;
use crate::store::{scratch, Rm};
use crate::util::*;
use crossbeam_channel as chan;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_chain::BlockReader;
use nakamoto_client::handle::{self, Handle as _};
use nakamoto_client::{Client, Config, Handle, Service};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::consensus::{encode, Encodable};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{Transaction, Txid};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::BlockFilter;
use nakamoto_common::block::time::{AdjustedTime, LocalTime, RefClock};
use nakamoto_common::block::tree::{self, ImportResult};
use nakamoto_common::block::{BlockHash, BlockHeader};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_net::{error, event, Disconnect, Io, Link, Publisher, Reactor, Service as NetService, StateMachine, Waker};
use nakamoto_p2p::fsm::{Command, CommandError, DisconnectReason, Event, GetFiltersError, Hooks, Peer, PeerId};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::net::SocketAddr;
use std::ops::Bound;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const T: &str = "C24";
/// how long to wait for something that has to happen; only ever used up when it does not
const LONG: Duration = Duration::from_secs(20);
fn sa(i: u64) -> SocketAddr { format!("44.{}.3.2:{}", i, 8333 + i % 3).parse().unwrap() }
fn cut(s: String) -> String { s.chars().take(160).collect() }

// ------------------------------------------------------------------ the service
fn some_msg(c: &mut Case) -> NetworkMessage {
    match c.rng.below(9) {
        0 => NetworkMessage::Ping(c.rng.u64()),
        1 => NetworkMessage::Pong(c.rng.u64()),
        2 => NetworkMessage::Verack,
        3 => NetworkMessage::GetAddr,
        4 => NetworkMessage::SendHeaders,
        5 => { let n = c.rng.usize(4); NetworkMessage::Inv((0..n).map(|_| Inventory::Transaction(Txid::hash(&c.rng.bytes(4)))).collect()) }
        6 => { let n = c.rng.usize(40); NetworkMessage::Headers((0..n).map(|_| Network::Regtest.genesis()).collect()) }
        7 => NetworkMessage::FeeFilter(c.rng.below(1 << 40) as i64),
        _ => { let n = c.rng.usize(5); NetworkMessage::Addr((0..n).map(|i| (i as u32, Address::new(&sa(i as u64), ServiceFlags::NETWORK))).collect()) }
    }
}
fn bytes_of(magic: u32, m: &NetworkMessage) -> Vec<u8> { let mut v = vec![]; RawNetworkMessage { magic, payload: m.clone() }.consensus_encode(&mut v).unwrap(); v }
struct Wire { stream: VecDeque<u8>, buf: Vec<u8>, quiet: bool }

pub fn service(c: &mut Case) {
    let net = *c.rng.pick(&[Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet]);
    let params = Params::new(Network::Regtest.into());
    let w = World::new();
    let tree = BlockCache::from(Memory::new(NonEmpty::new(w.get(&w.genesis).block.header)), params, &[]).unwrap();
    let g = w.get(&w.genesis);
    let fc = FilterCache::load(Memory::new(NonEmpty::new(StoredHeader { hash: g.fhash, header: g.fheader }))).unwrap();
    let now = LocalTime::from_secs(1_700_000_000);
    let heard: Arc<Mutex<Vec<(PeerId, NetworkMessage)>>> = Arc::default();
    let h2 = heard.clone();
    // everything that arrives is recorded and, but for the handshake, otherwise ignored
    let pass = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let p2 = pass.clone();
    let hooks = Hooks { on_message: Arc::new(move |a, m, _| { h2.lock().unwrap().push((a, m.clone())); if p2.load(std::sync::atomic::Ordering::SeqCst) { Ok(()) } else { Err("recorded") } }), ..Hooks::default() };
    let connect: Vec<SocketAddr> = (0..c.rng.usize(3)).map(|i| format!("45.{}.7.9:8333", i).parse().unwrap()).collect();
    let cfg = Config { network: net, connect: connect.clone(), hooks, services: ServiceFlags::NETWORK, user_agent: "/verif:1/", ..Config::default() };
    let mut s = Service::new(tree, fc, HashMap::new(), RefClock::from(AdjustedTime::<PeerId>::new(now)), fastrand::Rng::with_seed(c.rng.u64()), cfg);
    s.initialize(now);
    let mut dialled: Vec<SocketAddr> = vec![];
    while let Some(o) = s.next() { if let Io::Connect(a) = o { dialled.push(a); } }
    for a in &connect { c.check(dialled.iter().filter(|x| *x == a).count() == 1, T, || format!("the configured peer {} is not dialled once: {:?}", a, dialled)); }
    let mut peers: BTreeMap<SocketAddr, Wire> = BTreeMap::new();
    // the version the node announces is the one configured
    if let Some(a) = connect.first() {
        s.attempted(a);
        s.connected(*a, &sa(200), Link::Outbound);
        peers.insert(*a, Wire { stream: VecDeque::new(), buf: vec![], quiet: false });
        let mut ok = false;
        while let Some(o) = s.next() {
            if let Io::Write(b, w) = o {
                if let Ok(RawNetworkMessage { magic, payload: NetworkMessage::Version(v) }) = encode::deserialize::<RawNetworkMessage>(&w) {
                    ok = b == *a && magic == net.magic() && v.user_agent == "/verif:1/" && v.services == ServiceFlags::NETWORK;
                }
            }
        }
        c.check(ok, T, || "no version message as configured on an outbound connection".into());
        pass.store(true, std::sync::atomic::Ordering::SeqCst);
        let v = version_msg(ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS | ServiceFlags::WITNESS, 0, c.rng.u64(), now, true);
        let mut b = bytes_of(net.magic(), &NetworkMessage::Version(v));
        b.extend(bytes_of(net.magic(), &NetworkMessage::Verack));
        for ch in b.chunks(1 + c.rng.usize(40)) { s.message_received(a, Cow::Borrowed(ch)); }
        let ev: Vec<_> = s.by_ref().collect();
        c.check(ev.iter().any(|o| matches!(o, Io::Event(Event::PeerNegotiated { addr, .. }) if addr == a)), T, || "the handshake of a peer does not come about".into());
        pass.store(false, std::sync::atomic::Ordering::SeqCst);
        heard.lock().unwrap().clear();
    }
    let friend = connect.first().cloned();
    let steps = 10 + c.rng.usize(120);
    for _ in 0..steps {
        if !c.fails.is_empty() { return; }
        let a = sa(c.rng.below(4));
        match c.rng.below(12) {
            0 | 1 => {
                if peers.contains_key(&a) {
                    c.op(format!("{} goes", a));
                    peers.remove(&a);
                    s.disconnected(&a, Disconnect::ConnectionError(Arc::new(std::io::ErrorKind::ConnectionReset.into())));
                    // right after that, what is still on the way means nothing
                } else {
                    c.op(format!("{} comes", a));
                    s.connected(a, &sa(200), Link::Inbound);
                    peers.insert(a, Wire { stream: VecDeque::new(), buf: vec![], quiet: false });
                }
                while s.next().is_some() {}
            }
            2 if friend.is_some() => {
                let m = some_msg(c);
                let (tx, rx) = chan::bounded(1);
                c.op(format!("the user sends {} to all", show(&m)));
                s.command_received(Command::Broadcast(m.clone(), |_| true, tx));
                c.check(rx.try_recv().ok() == Some(vec![friend.unwrap()]), T, || "a broadcast is not answered with the peers it went to".into());
                let out: Vec<_> = s.by_ref().collect();
                let wrote: Vec<(SocketAddr, Vec<u8>)> = out.into_iter().filter_map(|o| if let Io::Write(a, b) = o { Some((a, b)) } else { None }).collect();
                c.check(wrote == vec![(friend.unwrap(), bytes_of(net.magic(), &m))], T, || format!("what is written for {} is not its encoding: {:?}", show(&m), wrote));
                c.hit("written");
            }
            2 | 3 => {
                let n = c.rng.below(300) as i64;
                let (tx, rx) = chan::bounded(1);
                c.op("the user asks for the tip");
                s.command_received(Command::GetTip(tx));
                c.check(rx.try_recv().map_or(false, |t| t.0 == 0 && t.1 == w.get(&w.genesis).block.header), T, || format!("a command is not answered ({})", n));
                while s.next().is_some() {}
            }
            _ => {
                let Some(p) = peers.get_mut(&a) else {
                    let m = bytes_of(net.magic(), &some_msg(c));
                    c.op(format!("bytes from {}, which is not connected", a));
                    s.message_received(&a, Cow::Owned(m));
                    let out: Vec<_> = s.by_ref().collect();
                    c.check(heard.lock().unwrap().is_empty() && !out.iter().any(|o| matches!(o, Io::Write(x, _) if *x == a)), T, || format!("bytes from {}, which is not connected, reach the node", a));
                    continue;
                };
                for _ in 0..c.rng.usize(4) {
                    let m = some_msg(c);
                    let magic = if c.rng.chance(1, 60) { 77 } else { net.magic() };
                    let mut b = bytes_of(magic, &m);
                    if c.rng.chance(1, 25) { let k = c.rng.usize(b.len()); b[k] ^= 1 << c.rng.below(8); }
                    p.stream.extend(b);
                }
                let n = match c.rng.below(4) { 0 => 1, 1 => c.rng.usize(30), 2 => p.stream.len(), _ => c.rng.usize(p.stream.len() + 1) }.min(p.stream.len());
                let chunk: Vec<u8> = p.stream.drain(..n).collect();
                c.op(format!("{} bytes from {}", n, a));
                p.buf.extend_from_slice(&chunk);
                let (mut want, mut bad, mut alien) = (vec![], false, false);
                loop {
                    match encode::deserialize_partial::<RawNetworkMessage>(&p.buf) {
                        Ok((m, k)) => { p.buf.drain(..k); if m.magic != net.magic() { alien = true; } else if !alien { want.push(m.payload); } }
                        Err(encode::Error::Io(ref e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
                        Err(_) => { bad = true; break }
                    }
                }
                s.message_received(&a, Cow::Borrowed(&chunk));
                let out: Vec<_> = s.by_ref().collect();
                let got: Vec<(PeerId, NetworkMessage)> = std::mem::take(&mut *heard.lock().unwrap());
                if p.quiet { c.check(got.is_empty() || !bad, T, || format!("messages of {} after a malformed one reach the node: {}", a, cut(format!("{:?}", got)))); continue; }
                c.check(got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| x.0 == a && x.1 == *y), T, || format!("the node hears {} instead of {} from {}", cut(format!("{:?}", got)), cut(format!("{:?}", want)), a));
                let dec = out.iter().filter(|o| matches!(o, Io::Disconnect(x, DisconnectReason::DecodeError(_)) if *x == a)).count();
                let any = out.iter().filter(|o| matches!(o, Io::Disconnect(..))).count();
                if alien { c.hit("other network"); p.quiet = true; }
                else if bad { c.hit("malformed"); p.quiet = true; c.check(dec >= 1, T, || format!("a malformed message of {} does not end the connection", a)); }
                else { c.check(any == 0, T, || format!("a connection is ended though the bytes of {} are fine", a)); }
                if !want.is_empty() { c.hit("messages") }
            }
        }
    }
}

// ------------------------------------------------------------------ the stand-in reactor
/// Handles what waits in the command channel once for each time it is woken.
#[derive(Default)]
struct Desk { wakes: u64, served: u64, late: u64, passes: u64, dead: bool }
#[derive(Clone, Default)]
pub struct Bell(Arc<(Mutex<Desk>, Condvar)>);
impl Bell {
    fn ring(&self) -> u64 { let mut d = self.0 .0.lock().unwrap(); d.wakes += 1; self.0 .1.notify_all(); d.wakes }
    fn served(&self, n: u64) {
        let end = Instant::now() + LONG;
        let mut d = self.0 .0.lock().unwrap();
        while d.served < n && !d.dead && Instant::now() < end { d = self.0 .1.wait_timeout(d, Duration::from_millis(100)).unwrap().0; }
    }
}
impl Waker for Bell { fn wake(&self) -> std::io::Result<()> { let n = self.ring(); self.served(n); Ok(()) } }
thread_local! { static BELL: RefCell<Bell> = RefCell::new(Bell::default()); }
pub struct Sim { bell: Bell, shutdown: chan::Receiver<()>, listening: chan::Sender<SocketAddr> }
impl Reactor for Sim {
    type Waker = Bell;
    fn new(shutdown: chan::Receiver<()>, listening: chan::Sender<SocketAddr>) -> Result<Self, std::io::Error> {
        let bell = Bell::default();
        BELL.with(|b| *b.borrow_mut() = bell.clone());
        Ok(Sim { bell, shutdown, listening })
    }
    fn run<S, E>(&mut self, addrs: &[SocketAddr], mut service: S, mut publisher: E, commands: chan::Receiver<S::Command>) -> Result<(), error::Error>
    where S: NetService, S::DisconnectReason: Into<Disconnect<S::DisconnectReason>>, E: Publisher<S::Event> {
        struct End(Bell);
        impl Drop for End { fn drop(&mut self) { let mut d = self.0 .0 .0.lock().unwrap(); d.dead = true; self.0 .0 .1.notify_all(); } }
        let _end = End(self.bell.clone());
        for a in addrs { self.listening.try_send(*a).ok(); }
        service.initialize(LocalTime::from_secs(1_700_000_000));
        loop {
            while let Some(o) = service.next() { if let Io::Event(e) = o { publisher.publish(e) } }
            let mut d = self.bell.0 .0.lock().unwrap();
            d.passes += 1;
            let since = Instant::now();
            while d.served == d.wakes {
                d = self.bell.0 .1.wait_timeout(d, Duration::from_millis(250)).unwrap().0;
                // a command nobody wakes the node for
                if d.served == d.wakes && !commands.is_empty() && since.elapsed() > Duration::from_secs(8) { d.late += 1; break; }
                if since.elapsed() > Duration::from_secs(300) { return Ok(()); }
            }
            let upto = d.wakes;
            drop(d);
            let stop = self.shutdown.try_recv().is_ok();
            if !stop {
                while let Ok(c) = commands.try_recv() { service.command_received(c); }
                while let Some(o) = service.next() { if let Io::Event(e) = o { publisher.publish(e) } }
            }
            let mut d = self.bell.0 .0.lock().unwrap();
            d.served = d.served.max(upto);
            self.bell.0 .1.notify_all();
            drop(d);
            if stop { return Ok(()); }
        }
    }
    fn waker(&self) -> Bell { self.bell.clone() }
}

// ------------------------------------------------------------------ a node that says what it is told to say
struct Script { before: Vec<Event>, after: Vec<Event>, log: Vec<Said>, tip: (u64, BlockHeader, Uint256), found: Option<(u64, BlockHeader)>, at: Option<BlockHeader>, peers: Vec<Peer>, addrs: Vec<PeerId>, filters: Result<(), GetFiltersError>, import: Option<ImportResult>, tx: Option<Transaction>, queue: Vec<Event> }
#[derive(Debug, Clone, PartialEq)]
enum Said { Tip, Hash(BlockHash), At(u64), Peers(ServiceFlags), Block(BlockHash), Filters(u64, u64), Rescan(Bound<u64>, Bound<u64>, usize), Watch(usize), Cast(String, [bool; 2]), Query, Connect(SocketAddr), Disconnect(SocketAddr), Import(usize), Addrs(usize), Submit(Txid), Submitted(Txid) }
struct Node { s: Arc<Mutex<Script>>, out: VecDeque<Event>, tree: BlockCache<Memory<BlockHeader>> }
impl Iterator for Node { type Item = Io<Vec<u8>, Event, DisconnectReason>; fn next(&mut self) -> Option<Self::Item> { let mut s = self.s.lock().unwrap(); let q: Vec<Event> = s.queue.drain(..).collect(); self.out.extend(q); self.out.pop_front().map(Io::Event) } }
impl StateMachine for Node {
    type Message = [u8];
    type Event = Event;
    type DisconnectReason = DisconnectReason;
    fn message_received(&mut self, _: &SocketAddr, _: Cow<[u8]>) {}
    fn attempted(&mut self, _: &SocketAddr) {}
    fn connected(&mut self, _: SocketAddr, _: &SocketAddr, _: Link) {}
    fn disconnected(&mut self, _: &SocketAddr, _: Disconnect<DisconnectReason>) {}
    fn tick(&mut self, _: LocalTime) {}
    fn timer_expired(&mut self) {}
}
fn peer(a: SocketAddr, out: bool, height: u64, services: ServiceFlags) -> Peer { Peer { addr: a, local_addr: sa(200), link: if out { Link::Outbound } else { Link::Inbound }, since: LocalTime::from_secs(1), height, services, user_agent: String::new(), relay: true } }
impl NetService for Node {
    type Command = Command;
    fn command_received(&mut self, cmd: Command) {
        let mut s = self.s.lock().unwrap();
        let ev: Vec<Event> = s.before.drain(..).collect();
        self.out.extend(ev);
        let said = match cmd {
            Command::GetTip(r) => { r.send(s.tip).ok(); Said::Tip }
            Command::GetBlockByHash(h, r) => { r.send(s.found).ok(); Said::Hash(h) }
            Command::GetBlockByHeight(h, r) => { r.send(s.at).ok(); Said::At(h) }
            Command::GetPeers(f, r) => { r.send(s.peers.clone()).ok(); Said::Peers(f) }
            Command::RequestBlock(h) => Said::Block(h),
            Command::RequestFilters(r, x) => { x.send(match &s.filters { Ok(()) => Ok(()), Err(GetFiltersError::InvalidRange) => Err(GetFiltersError::InvalidRange), Err(_) => Err(GetFiltersError::NotConnected) }).ok(); Said::Filters(*r.start(), *r.end()) }
            Command::Rescan { from, to, watch } => Said::Rescan(from, to, watch.len()),
            Command::Watch { watch } => Said::Watch(watch.len()),
            Command::Broadcast(m, p, r) => { r.send(s.addrs.clone()).ok(); Said::Cast(format!("{:?}", m), [p(peer(sa(1), true, 0, ServiceFlags::NONE)), p(peer(sa(1), false, 0, ServiceFlags::NONE))]) }
            Command::QueryTree(q) => { q(&self.tree); Said::Query }
            Command::Connect(a) => Said::Connect(a),
            Command::Disconnect(a) => Said::Disconnect(a),
            Command::ImportHeaders(h, r) => { r.send(s.import.clone().ok_or(tree::Error::Interrupted)).ok(); Said::Import(h.len()) }
            Command::ImportAddresses(a) => Said::Addrs(a.len()),
            Command::SubmitTransaction(t, r) => { r.send(NonEmpty::from_vec(s.addrs.clone()).ok_or(CommandError::NotConnected)).ok(); Said::Submit(t.txid()) }
            Command::GetSubmittedTransaction(t, r) => { r.send(s.tx.clone()).ok(); Said::Submitted(t) }
        };
        s.log.push(said);
        let ev: Vec<Event> = s.after.drain(..).collect();
        self.out.extend(ev);
    }
}
struct Rig { h: Handle<Bell>, s: Arc<Mutex<Script>>, bell: Bell, w: World, run: Option<std::thread::JoinHandle<bool>> }
impl Rig {
    fn new(c: &mut Case) -> Rig {
        let mut w = World::new();
        let n = 1 + c.rng.usize(10);
        for _ in 0..n { let b = w.best; let mut r = c.rng.clone(); w.mine(&mut r, &b, true); c.rng = r; }
        let b2 = w.branch(&w.best)[c.rng.usize(n)];
        let mut r = c.rng.clone();
        w.mine(&mut r, &b2, true);
        c.rng = r;
        let br = w.branch(&w.best);
        let hs: Vec<BlockHeader> = br.iter().map(|h| w.get(h).block.header).collect();
        let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(hs).unwrap()), Params::new(Network::Regtest.into()), &[]).unwrap();
        let g = w.get(&w.genesis).block.header;
        let s = Arc::new(Mutex::new(Script { before: vec![], after: vec![], log: vec![], tip: (0, g, g.work()), found: None, at: None, peers: vec![], addrs: vec![], filters: Ok(()), import: None, tx: None, queue: vec![] }));
        let client = Client::<Sim>::new().unwrap();
        let h = client.handle();
        let bell = BELL.with(|b| b.borrow().clone());
        let node = Node { s: s.clone(), out: VecDeque::new(), tree };
        let listen = [sa(c.rng.below(9))];
        let run = std::thread::spawn(move || client.run_service(&listen, node).is_ok());
        let mut rig = Rig { h, s, bell, w, run: Some(run) };
        let l = rig.h.listening();
        c.check(l.as_ref().map_or(false, |l| *l == listen[0]), T, || format!("listening() gives {:?}", l.is_ok()));
        rig
    }
    /// have the node emit these now
    fn emit(&self, v: Vec<Event>) { self.s.lock().unwrap().queue.extend(v); let n = self.bell.ring(); self.bell.served(n); }
    fn said(&self) -> Vec<Said> { std::mem::take(&mut self.s.lock().unwrap().log) }
    fn end(mut self, c: &mut Case) {
        let late = self.bell.0 .0.lock().unwrap().late;
        c.check(late == 0, T, || "a command waits without the node being woken".into());
        c.op("shutdown");
        let r = self.h.clone().shutdown();
        let t = Instant::now();
        while !self.run.as_ref().unwrap().is_finished() && t.elapsed() < LONG { std::thread::sleep(Duration::from_millis(1)); }
        let done = self.run.as_ref().unwrap().is_finished();
        c.check(r.is_ok() && done, T, || "shutdown does not stop the node".into());
        if done { let ok = self.run.take().unwrap().join().unwrap_or(false); c.check(ok, T, || "the client ends with an error or a panic".into()); }
        let again = self.h.get_tip();
        c.check(matches!(again, Err(handle::Error::Disconnected)), T, || "a command to a client that is gone does not fail with Disconnected".into());
    }
}
fn negotiated(a: SocketAddr, height: u64, services: ServiceFlags) -> Event { Event::PeerNegotiated { addr: a, link: Link::Outbound, services, persistent: false, height, receiver: Address::new(&a, ServiceFlags::NONE), user_agent: String::new(), version: 70016, relay: true, wtxid_relay: false } }
fn gone(a: SocketAddr) -> Event { Event::PeerDisconnected { addr: a, reason: Disconnect::StateMachine(DisconnectReason::Command) } }
fn came(a: SocketAddr, l: Link) -> Event { Event::PeerConnected { addr: a, local_addr: sa(200), link: l } }
fn noise(c: &mut Case, w: &World) -> Event {
    let n = c.rng.below(1 << 30);
    let v: Vec<BlockHash> = w.branch(&w.best);
    let b = w.get(c.rng.pick(&v)).clone();
    match c.rng.below(8) {
        0 => Event::Scanned { height: n },
        1 => Event::PeerHeightUpdated { height: n },
        2 => Event::FilterReceived { from: sa(1), filter: BlockFilter::new(&b.filter), height: n, block: b.hash },
        3 => Event::BlockProcessed { block: b.block.clone(), height: n, fees: None },
        4 => Event::BlockMatched { height: n, block: b.block.clone() },
        5 => Event::PeerTimedOut { addr: sa(n % 5) },
        6 => Event::FilterProcessed { block: b.hash, height: n, matched: true, valid: true, cached: false },
        _ => Event::BlockConnected { header: b.block.header, height: n },
    }
}

/// Every method: the command the node gets, and what the caller gets back.
pub fn methods(c: &mut Case) {
    let mut rig = Rig::new(c);
    rig.h.set_timeout(LONG);
    let h = rig.h.clone();
    let v: Vec<BlockHash> = { let mut v: Vec<BlockHash> = rig.w.infos.keys().cloned().collect(); v.sort(); v };
    let steps = 5 + c.rng.usize(40);
    for _ in 0..steps {
        if !c.fails.is_empty() { break; }
        let b = rig.w.get(c.rng.pick(&v)).clone();
        let (n, m) = (c.rng.below(1 << 40), c.rng.below(1 << 40));
        let hs = b.block.header;
        let a = sa(c.rng.below(5));
        rig.said();
        { let mut s = rig.s.lock().unwrap(); s.before.clear(); s.after.clear(); }
        let (ok, want): (bool, Option<Said>) = match c.rng.below(22) {
            0 => { c.op("get_tip"); let t = (n, hs, Uint256::from_u64(m).unwrap()); rig.s.lock().unwrap().tip = t; (h.get_tip().ok() == Some(t), Some(Said::Tip)) }
            1 => { c.op("get_block"); let f = if n % 2 == 0 { Some((n, hs)) } else { None }; rig.s.lock().unwrap().found = f; (h.get_block(&b.hash).ok() == Some(f), Some(Said::Hash(b.hash))) }
            2 => { c.op("get_block_by_height"); let f = if n % 2 == 0 { Some(hs) } else { None }; rig.s.lock().unwrap().at = f; (h.get_block_by_height(n).ok() == Some(f), Some(Said::At(n))) }
            3 => {
                c.op("get_peers");
                let p: Vec<Peer> = (0..c.rng.below(4)).map(|i| peer(sa(i), i % 2 == 0, i, ServiceFlags::NETWORK)).collect();
                rig.s.lock().unwrap().peers = p.clone();
                let f = *c.rng.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK, ServiceFlags::COMPACT_FILTERS]);
                (h.get_peers(f).map_or(false, |r| format!("{:?}", r) == format!("{:?}", p)), Some(Said::Peers(f)))
            }
            4 => { c.op("request_block"); (h.request_block(&b.hash).is_ok(), Some(Said::Block(b.hash))) }
            5 => {
                c.op("request_filters");
                let (x, y) = (n.min(m), n.max(m));
                let k = c.rng.below(3);
                rig.s.lock().unwrap().filters = match k { 0 => Ok(()), 1 => Err(GetFiltersError::InvalidRange), _ => Err(GetFiltersError::NotConnected) };
                let r = h.request_filters(x..=y);
                (match (k, &r) { (0, Ok(())) => true, (1, Err(handle::Error::GetFilters(GetFiltersError::InvalidRange))) => true, (2, Err(handle::Error::GetFilters(GetFiltersError::NotConnected))) => true, _ => false }, Some(Said::Filters(x, y)))
            }
            6 => {
                c.op("rescan");
                let k = c.rng.usize(4);
                let watch = (0..k as u64).map(script);
                let (r, f, t) = match c.rng.below(5) {
                    0 => (h.rescan(n..m.max(n + 1), watch), Bound::Included(n), Bound::Excluded(m.max(n + 1))),
                    1 => (h.rescan(n.min(m)..=n.max(m), watch), Bound::Included(n.min(m)), Bound::Included(n.max(m))),
                    2 => (h.rescan(n.., watch), Bound::Included(n), Bound::Unbounded),
                    3 => (h.rescan(..=n, watch), Bound::Unbounded, Bound::Included(n)),
                    _ => (h.rescan(.., watch), Bound::Unbounded, Bound::Unbounded),
                };
                (r.is_ok(), Some(Said::Rescan(f, t, k)))
            }
            7 => { c.op("watch"); let k = c.rng.usize(5); (h.watch((0..k as u64).map(script)).is_ok(), Some(Said::Watch(k))) }
            8 => {
                c.op("broadcast");
                let p: Vec<PeerId> = (0..c.rng.below(4)).map(sa).collect();
                rig.s.lock().unwrap().addrs = p.clone();
                let out = n % 2 == 0;
                let msg = NetworkMessage::Ping(m);
                let r = if out { h.broadcast(msg.clone(), |p| p.is_outbound()) } else { h.broadcast(msg.clone(), |p| !p.is_outbound()) };
                (r.ok() == Some(p), Some(Said::Cast(format!("{:?}", msg), [out, !out])))
            }
            9 => {
                c.op("find_branch");
                let br = rig.w.branch(&rig.w.best);
                let hs: Vec<BlockHeader> = br.iter().map(|h| rig.w.get(h).block.header).collect();
                let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(hs).unwrap()), Params::new(Network::Regtest.into()), &[]).unwrap();
                (h.find_branch(&b.hash).map_or(false, |r| r == tree.find_branch(&b.hash)), Some(Said::Query))
            }
            10 => {
                c.op("query_tree");
                let (tx, rx) = chan::bounded(4);
                let r = h.query_tree(move |t| { tx.send(t.tip().0).ok(); });
                (r.is_ok() && rx.recv_timeout(LONG).ok() == Some(rig.w.best) && rx.recv_timeout(Duration::from_millis(1)).is_err(), Some(Said::Query))
            }
            11 => {
                c.op("import_headers");
                let k = c.rng.usize(3);
                let res = if n % 2 == 0 { Some(ImportResult::TipUnchanged) } else { None };
                rig.s.lock().unwrap().import = res.clone();
                let r = h.import_headers(vec![hs; k]);
                (match (&r, &res) { (Ok(Ok(ImportResult::TipUnchanged)), Some(_)) => true, (Ok(Err(tree::Error::Interrupted)), None) => true, _ => false }, Some(Said::Import(k)))
            }
            12 => { c.op("import_addresses"); let k = c.rng.usize(4); (h.import_addresses((0..k as u64).map(|i| Address::new(&sa(i), ServiceFlags::NONE)).collect()).is_ok(), Some(Said::Addrs(k))) }
            13 => {
                c.op("submit_transaction");
                let t = b.block.txdata[0].clone();
                let p: Vec<PeerId> = (0..c.rng.below(3)).map(sa).collect();
                rig.s.lock().unwrap().addrs = p.clone();
                let r = h.submit_transaction(t.clone());
                (match &r { Ok(l) => l.iter().cloned().collect::<Vec<_>>() == p && !p.is_empty(), Err(handle::Error::Command(CommandError::NotConnected)) => p.is_empty(), _ => false }, Some(Said::Submit(t.txid())))
            }
            14 => {
                c.op("get_submitted_transaction");
                let t = b.block.txdata[0].clone();
                let x = if n % 2 == 0 { Some(t.clone()) } else { None };
                rig.s.lock().unwrap().tx = x.clone();
                (h.get_submitted_transaction(&t.txid()).map_or(false, |r| r == x), Some(Said::Submitted(t.txid())))
            }
            15 => { c.op("command"); (h.command(Command::RequestBlock(b.hash)).is_ok(), Some(Said::Block(b.hash))) }
            16 | 17 => {
                // others come and go around the one that is meant; sometimes it never does
                let any = c.rng.chance(1, 4);
                let target: SocketAddr = if any { SocketAddr::new("0.0.0.0".parse().unwrap(), a.port()) } else { a };
                let coming = n % 2 == 0;
                let mut evs = vec![];
                let mut want: Option<Link> = None;
                for _ in 0..c.rng.usize(6) {
                    let x = sa(c.rng.below(5));
                    let l = if c.rng.chance(1, 2) { Link::Inbound } else { Link::Outbound };
                    let up = c.rng.chance(1, 2);
                    let mine = x == target || (any && x.port() == target.port());
                    if mine && up == coming && want.is_none() { want = Some(l); }
                    evs.push(if up { came(x, l) } else { gone(x) });
                    if c.rng.chance(1, 3) { evs.push(noise(c, &rig.w)); }
                }
                let mut h2 = h.clone();
                if want.is_none() { h2.set_timeout(Duration::from_millis(20)); }
                let k = c.rng.usize(evs.len() + 1);
                { let mut s = rig.s.lock().unwrap(); s.after = evs.split_off(k); s.before = evs; }
                c.op(format!("{} {} -> {:?}", if coming { "connect" } else { "disconnect" }, target, want));
                if coming { let r = h2.connect(target); (match (&r, want) { (Ok(l), Some(w)) => *l == w, (Err(handle::Error::Timeout), None) => true, _ => false }, Some(Said::Connect(target))) }
                else { let r = h2.disconnect(target); (match (&r, want) { (Ok(()), Some(_)) => true, (Err(handle::Error::Timeout), None) => true, _ => false }, Some(Said::Disconnect(target))) }
            }
            18 | 19 => {
                let (count, need) = (c.rng.usize(5), *c.rng.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK, ServiceFlags::COMPACT_FILTERS]));
                let fl = |k: u64| match k % 3 { 0 => ServiceFlags::NETWORK, 1 => ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS, _ => ServiceFlags::NONE };
                let mut now: BTreeMap<SocketAddr, (u64, ServiceFlags)> = BTreeMap::new();
                for i in 0..c.rng.below(5) { let f = fl(c.rng.u64()); if f.has(need) { now.insert(sa(i), (i, f)); } }
                rig.s.lock().unwrap().peers = now.iter().map(|(a, (h, f))| peer(*a, true, *h, *f)).collect();
                let mut want: Option<BTreeSet<(SocketAddr, u64)>> = None;
                let set = |m: &BTreeMap<SocketAddr, (u64, ServiceFlags)>| m.iter().map(|(a, (h, _))| (*a, *h)).collect::<BTreeSet<_>>();
                if now.len() >= count { want = Some(set(&now)); }
                let mut evs = vec![];
                for _ in 0..c.rng.usize(8) {
                    let x = sa(c.rng.below(7));
                    if c.rng.chance(2, 3) {
                        let (hh, f) = (c.rng.below(100), fl(c.rng.u64()));
                        evs.push(negotiated(x, hh, f));
                        if f.has(need) { now.insert(x, (hh, f)); if now.len() >= count && want.is_none() { want = Some(set(&now)); } }
                    } else { evs.push(gone(x)); now.remove(&x); }
                    if c.rng.chance(1, 4) { evs.push(noise(c, &rig.w)); }
                }
                let mut h2 = h.clone();
                if want.is_none() { h2.set_timeout(Duration::from_millis(20)); }
                rig.s.lock().unwrap().after = evs;
                c.op(format!("wait_for_peers({}, {}) -> {:?}", count, need, want));
                let r = h2.wait_for_peers(count, need);
                (match (&r, &want) { (Ok(v), Some(w)) => v.len() == w.len() && v.iter().map(|x| (x.0, x.1)).collect::<BTreeSet<_>>() == *w, (Err(handle::Error::Timeout), None) => true, _ => false }, Some(Said::Peers(need)))
            }
            _ => {
                let br: Vec<BlockHeader> = rig.w.branch(&rig.w.best).iter().map(|h| rig.w.get(h).block.header).collect();
                let at = c.rng.usize(br.len() + 2);
                let known = c.rng.usize(br.len());
                rig.s.lock().unwrap().at = if at <= known { Some(br[at]) } else { None };
                let mut want = if at <= known { Some(br[at].block_hash()) } else { None };
                let mut evs = vec![];
                let mut k = known + 1;
                while k < br.len() && c.rng.chance(4, 5) {
                    let m = (k + 1 + c.rng.usize(4)).min(br.len());
                    let conn: Vec<(u64, BlockHeader)> = (k..m).map(|i| (i as u64, br[i])).collect();
                    if (k..m).contains(&at) { want = Some(br[at].block_hash()); }
                    evs.push(Event::BlockHeadersImported { hash: br[m - 1].block_hash(), height: m as u64 - 1, connected: NonEmpty::from_vec(conn).unwrap(), reverted: vec![], reorg: false });
                    if c.rng.chance(1, 3) { evs.push(noise(c, &rig.w)); }
                    k = m;
                }
                let mut h2 = h.clone();
                if want.is_none() { h2.set_timeout(Duration::from_millis(20)); }
                rig.s.lock().unwrap().after = evs;
                c.op(format!("wait_for_height({}) with {} known -> {}", at, known, want.is_some()));
                let r = h2.wait_for_height(at as u64);
                (match (&r, &want) { (Ok(v), Some(w)) => v == w, (Err(handle::Error::Timeout), None) => true, _ => false }, Some(Said::At(at as u64)))
            }
        };
        let log = rig.said();
        c.check(want.as_ref().map_or(log.is_empty(), |w| log.len() == 1 && log[0] == *w), T, || format!("the node is told {} instead of {:?}", cut(format!("{:?}", log)), want));
        c.check(ok, T, || "the caller gets a wrong answer".into());
        c.hit("calls");
    }
    rig.end(c);
}

/// Subscribers at different times: each gets what is published from then on, once and in order.
pub fn feeds(c: &mut Case) {
    let rig = Rig::new(c);
    let mut h = rig.h.clone();
    h.set_timeout(LONG);
    let mut evs: Vec<(usize, chan::Receiver<Event>, usize)> = vec![];
    let mut blocks: Vec<(usize, chan::Receiver<(nakamoto_common::block::Block, u64)>)> = vec![];
    let mut filts: Vec<(usize, chan::Receiver<(BlockFilter, BlockHash, u64)>)> = vec![];
    let mut all: Vec<Event> = vec![];
    let dbg = |v: &[Event]| v.iter().map(|e| cut(format!("{:?}", e))).collect::<Vec<_>>();
    let steps = 5 + c.rng.usize(30);
    for _ in 0..steps {
        match c.rng.below(7) {
            0 => { evs.push((all.len(), if c.rng.chance(1, 2) { h.events() } else { h.clone().events() }, 0)); }
            1 => blocks.push((all.len(), h.blocks())),
            2 => filts.push((all.len(), h.filters())),
            3 => {
                // someone stops listening
                match c.rng.below(3) { 0 if !evs.is_empty() => { let k = c.rng.usize(evs.len()); evs.swap_remove(k); } 1 if !blocks.is_empty() => { let k = c.rng.usize(blocks.len()); blocks.swap_remove(k); } _ if !filts.is_empty() => { let k = c.rng.usize(filts.len()); filts.swap_remove(k); } _ => {} }
            }
            _ => {
                let v: Vec<Event> = (0..1 + c.rng.usize(5)).map(|_| noise(c, &rig.w)).collect();
                c.op(format!("{} events", v.len()));
                all.extend(v.clone());
                rig.emit(v);
                // one of them reads along
                if !evs.is_empty() {
                    let k = c.rng.usize(evs.len());
                    let (from, rx, read) = &mut evs[k];
                    let got: Vec<Event> = rx.try_iter().collect();
                    let want = &all[*from + *read..];
                    c.check(dbg(&got) == dbg(want), T, || format!("a subscriber gets {} events instead of {}", got.len(), want.len()));
                    *read += got.len();
                }
            }
        }
        if !c.fails.is_empty() { break; }
    }
    for (from, rx, read) in &evs {
        let got: Vec<Event> = rx.try_iter().collect();
        let want = &all[*from + *read..];
        c.check(dbg(&got) == dbg(want), T, || format!("a subscriber gets {} events instead of {}", got.len(), want.len()));
    }
    for (from, rx) in &blocks {
        let got: Vec<(BlockHash, u64)> = rx.try_iter().map(|(b, h)| (b.block_hash(), h)).collect();
        let want: Vec<(BlockHash, u64)> = all[*from..].iter().filter_map(|e| if let Event::BlockProcessed { block, height, .. } = e { Some((block.block_hash(), *height)) } else { None }).collect();
        c.check(got == want, T, || format!("a subscriber to blocks gets {} instead of {}", got.len(), want.len()));
    }
    for (from, rx) in &filts {
        let got: Vec<(Vec<u8>, BlockHash, u64)> = rx.try_iter().map(|(f, b, h)| (f.content, b, h)).collect();
        let want: Vec<(Vec<u8>, BlockHash, u64)> = all[*from..].iter().filter_map(|e| if let Event::FilterReceived { filter, block, height, .. } = e { Some((filter.content.clone(), *block, *height)) } else { None }).collect();
        c.check(got == want, T, || format!("a subscriber to filters gets {} instead of {}", got.len(), want.len()));
    }
    // `wait` sees the events from its call on, without a gap, and stops at the first answer
    let quit = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (q2, s2, b2) = (quit.clone(), rig.s.clone(), rig.bell.clone());
    let feeder = std::thread::spawn(move || { let mut i = 0u64; while !q2.load(std::sync::atomic::Ordering::SeqCst) { s2.lock().unwrap().queue.push(Event::Scanned { height: i }); i += 1; let n = b2.ring(); b2.served(n); } });
    let k = 1 + c.rng.usize(6);
    let mut seen = vec![];
    let r = h.wait(|e| { if let Event::Scanned { height } = e { seen.push(height); if seen.len() == k { return Some(height); } } None });
    quit.store(true, std::sync::atomic::Ordering::SeqCst);
    feeder.join().ok();
    c.check(r.as_ref().ok() == seen.last() && seen.len() == k && seen.windows(2).all(|w| w[1] == w[0] + 1), T, || format!("wait sees {:?} and gives {:?}", seen, r.as_ref().ok()));
    c.hit("events");
    rig.end(c);
}

/// The publish/subscribe channel and `event::wait` on their own.
pub fn emitter(c: &mut Case) {
    let em: event::Emitter<u64> = event::Emitter::default();
    let (mut bc, bs) = event::broadcast(|e: u64, p: &event::Emitter<(u64, u64)>| for i in 0..e % 3 { p.emit((e, i)) });
    let sub = em.subscriber();
    let mut subs: Vec<(chan::Receiver<u64>, VecDeque<u64>)> = vec![];
    let mut bsubs: Vec<(chan::Receiver<(u64, u64)>, VecDeque<(u64, u64)>)> = vec![];
    for _ in 0..5 + c.rng.usize(60) {
        match c.rng.below(8) {
            0 => subs.push((if c.rng.chance(1, 2) { sub.subscribe() } else { em.clone().subscriber().clone().subscribe() }, VecDeque::new())),
            1 => bsubs.push((bs.clone().subscribe(), VecDeque::new())),
            2 if !subs.is_empty() => { let k = c.rng.usize(subs.len()); subs.swap_remove(k); }
            3 if !bsubs.is_empty() => { let k = c.rng.usize(bsubs.len()); bsubs.swap_remove(k); }
            4 | 5 => { let x = c.rng.u64(); em.emit(x); for s in subs.iter_mut() { s.1.push_back(x); } }
            6 => { let x = c.rng.u64(); if c.rng.chance(1, 2) { bc.broadcast(x) } else { bc.publish(x) } for s in bsubs.iter_mut() { for i in 0..x % 3 { s.1.push_back((x, i)); } } }
            _ => if !subs.is_empty() {
                // wait for one of those that are there, or not
                let k = c.rng.usize(subs.len());
                let (rx, want) = &mut subs[k];
                let i = c.rng.usize(want.len() + 1);
                let target = want.get(i).cloned();
                let mut seen = vec![];
                let t0 = Instant::now();
                let d = if target.is_some() { LONG } else { Duration::from_millis(c.rng.below(8)) };
                let r = event::wait(rx, |x| { seen.push(x); if Some(x) == target { Some(x ^ 1) } else { None } }, d);
                let el = t0.elapsed();
                match target {
                    Some(t) => { let n = i + 1; let w: Vec<u64> = want.drain(..n).collect(); c.check(r.ok() == Some(t ^ 1) && seen == w, T, || format!("wait sees {:?} of {:?}", seen, w)); }
                    None => { let w: Vec<u64> = want.iter().cloned().take(seen.len()).collect(); c.check(matches!(r, Err(event::RecvTimeoutError::Timeout)) && seen == w && el >= d, T, || format!("wait does not time out as asked after {:?} but ends after {:?}", d, el)); want.drain(..w.len()); }
                }
            },
        }
        if !c.fails.is_empty() { return; }
    }
    if !c.fails.is_empty() { return; }
    for (rx, w) in &subs { let g: Vec<u64> = rx.try_iter().collect(); c.check(g.iter().eq(w.iter()), T, || format!("a subscriber gets {:?} instead of {:?}", g, w)); }
    for (rx, w) in &bsubs { let g: Vec<(u64, u64)> = rx.try_iter().collect(); c.check(g.iter().eq(w.iter()), T, || format!("a subscriber gets {:?} instead of {:?}", g, w)); }
    if c.rng.chance(1, 40) {
        // a wait ends when its time is up, also while other things happen all the time
        let rx = sub.subscribe();
        let over = std::sync::atomic::AtomicBool::new(false);
        let d = Duration::from_millis(1 + c.rng.below(20));
        let (r, el) = std::thread::scope(|s| {
            s.spawn(|| { let t = Instant::now(); while !over.load(std::sync::atomic::Ordering::SeqCst) && t.elapsed() < Duration::from_secs(12) { em.emit(1); std::thread::sleep(Duration::from_micros(300)); } });
            let t0 = Instant::now();
            let r = event::wait(&rx, |_| None::<()>, d);
            over.store(true, std::sync::atomic::Ordering::SeqCst);
            (r, t0.elapsed())
        });
        c.check(matches!(r, Err(event::RecvTimeoutError::Timeout)) && el >= d && el < Duration::from_secs(8), T, || format!("a wait of {:?} ends after {:?} with {:?}", d, el, r));
        c.hit("busy waits");
    }
    em.clone().close();
    for (rx, _) in &subs { let r = event::wait(rx, |_| None::<()>, LONG); c.check(matches!(r, Err(event::RecvTimeoutError::Disconnected)), T, || "waiting on a closed feed does not end with Disconnected".into()); }
    c.hit("emitters");
}

/// A client on its own directory, stopped and started again: what it knew is what it knows.
pub fn restart(c: &mut Case) {
    let dir = scratch(c, "client");
    let _rm = Rm(dir.clone());
    std::fs::create_dir_all(&dir).unwrap();
    let mut w = World::new();
    let mut known = w.genesis;
    let mut addrs = 0usize;
    for round in 0..1 + c.rng.usize(3) {
        if !c.fails.is_empty() { return; }
        let cfg = Config { network: Network::Regtest, root: dir.clone(), connect: vec![sa(9)], listen: vec![], verify: c.rng.chance(1, 2), ..Config::default() };
        let client = Client::<Sim>::new().unwrap();
        let h = client.handle();
        let (ltx, lrx) = chan::unbounded();
        let t = std::thread::spawn(move || match client.load(cfg, ltx) { Ok(r) => r.run().map_err(|e| format!("it fails: {}", e)), Err(e) => Err(format!("it does not start: {}", e)) });
        let br = w.branch(&known);
        let tip = h.get_tip();
        c.check(tip.as_ref().map_or(false, |t| t.0 == br.len() as u64 - 1 && t.1.block_hash() == known), T, || format!("after a restart the tip is {:?} instead of height {}", tip.as_ref().map(|t| t.0).ok(), br.len() - 1));
        for i in 0..br.len() { let r = h.get_block_by_height(i as u64).ok().flatten(); c.check(r.map(|x| x.block_hash()) == Some(br[i]), T, || format!("after a restart the block at height {} is another", i)); }
        let _ = addrs;
        for _ in 0..c.rng.usize(4) {
            // extend, or fork and overtake
            let br = w.branch(&known);
            let back = c.rng.usize(br.len().min(4));
            let mut at = br[br.len() - 1 - back];
            let n = back + 1 + c.rng.usize(4);
            let mut hs = vec![];
            for _ in 0..n { let mut r = c.rng.clone(); at = w.mine(&mut r, &at, false); c.rng = r; hs.push(w.get(&at).block.header); }
            c.op(format!("{} headers imported, {} reverted", n, back));
            let r = h.import_headers(hs);
            // (whether it is accepted is C03's business)
            let tip = h.get_tip();
            match (&r, &tip) {
                (Ok(Ok(ImportResult::TipChanged { hash, .. })), Ok(t)) => { c.check(t.1.block_hash() == *hash, T, || format!("the tip is {} (height {}), the import says {}, imported was {} (height {})", t.1.block_hash(), t.0, hash, at, w.get(&at).height)); c.hit("imports"); }
                (Ok(_), Ok(_)) => c.hit("not imported"),
                _ => c.fail(T, "no answer"),
            }
            if let Ok(t) = tip { known = t.1.block_hash(); }
            if !w.infos.contains_key(&known) { return; }
        }
        if c.rng.chance(1, 2) { addrs += 1; h.import_addresses(vec![Address::new(&sa(addrs as u64), ServiceFlags::NETWORK)]).ok(); }
        let ok = h.shutdown().is_ok();
        let ended = t.join().unwrap_or(Err("it panics".into()));
        c.check(ok && ended.is_ok(), T, || format!("the client does not end cleanly (round {}): {:?}", round, ended));
        c.op(format!("stopped; there were {} loading events", lrx.try_iter().count()));
        c.hit("runs");
    }
}
