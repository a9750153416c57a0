//! Connections and handshakes: the real `StateMachine`, driven by simulated dials, inbound connections,
//! handshake messages in any order, commands and time, against a model written from the statement of C18.
//! Every input is followed by draining the outputs.
use crate::node::*;
use crate::util::*;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::BlockHeader;
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_common::p2p::Domain;
use nakamoto_net::{Disconnect, Link, StateMachine as _};
use nakamoto_p2p::fsm::{Command, Config, DisconnectReason, Event, Hooks, Io, Limits, PeerId, StateMachine};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::{IpAddr, SocketAddr};
use std::sync::Arc;

type Node = StateMachine<BlockCache<Memory<BlockHeader>>, FilterCache<Memory<StoredHeader>>, HashMap<IpAddr, KnownAddress>, RefClock<AdjustedTime<PeerId>>>;

#[derive(Clone)]
struct Hello { msg: VersionMessage, since: LocalTime, wtxid: bool }
#[derive(Clone)]
enum M {
    Dialing { since: LocalTime },
    Conn { link: Link, since: LocalTime, nonce: Option<u64>, hello: Option<Hello>, done: bool },
    /// `was`: negotiated
    Leaving { reason: DisconnectReason, was: bool },
}
struct World2 {
    sm: Node,
    now: LocalTime,
    height: u64,
    target: usize,
    max_in: usize,
    persistent: Vec<SocketAddr>,
    domains: Vec<Domain>,
    required: ServiceFlags,
    white: BTreeSet<IpAddr>,
    peers: BTreeMap<SocketAddr, M>,
    retry: BTreeMap<SocketAddr, (Option<LocalTime>, u32)>,
    next_in: u32,
    /// last message of ours to have a `version` with this nonce
    nonces: Vec<u64>,
}
#[derive(Default)]
struct Exp { writes: Vec<(SocketAddr, &'static str)>, drops: Vec<(SocketAddr, DisconnectReason)>, /** any of these reasons */ drop_any: Option<(SocketAddr, Vec<DisconnectReason>)>, events: Vec<String>, dials: Vec<SocketAddr>, /** automatic connections allowed */ auto: usize, /** time until the earliest of the deadlines that begin now */ timer: Vec<LocalDuration>, timeouts: bool, anydrop: Option<SocketAddr> }

const AGENT_HOOK: &str = "/refused-by-hook/";
fn same(a: &DisconnectReason, b: &DisconnectReason) -> bool {
    use DisconnectReason::*;
    match (a, b) {
        (PeerMisbehaving(_), PeerMisbehaving(_)) | (PeerTimeout(_), PeerTimeout(_)) | (SelfConnection, SelfConnection) | (ConnectionLimit, ConnectionLimit) | (Command, Command) | (Other(_), Other(_)) => true,
        (PeerProtocolVersion(x), PeerProtocolVersion(y)) => x == y,
        (PeerServices(x), PeerServices(y)) => x == y,
        (PeerHeight(x), PeerHeight(y)) => x == y,
        (PeerMagic(x), PeerMagic(y)) => x == y,
        _ => false,
    }
}
fn local(ip: &IpAddr) -> bool { match ip { IpAddr::V4(a) => a.is_private() || a.is_loopback() || a.is_link_local() || a.is_unspecified(), _ => false } }
fn kind(m: &NetworkMessage) -> Option<&'static str> {
    match m { NetworkMessage::Version(_) => Some("version"), NetworkMessage::Verack => Some("verack"), NetworkMessage::WtxidRelay => Some("wtxidrelay"), NetworkMessage::SendHeaders => Some("sendheaders"), _ => None }
}
fn addr(i: u64) -> SocketAddr {
    if i % 7 == 5 { format!("[2001:4860:4860::{:x}]:18444", i + 1).parse().unwrap() } else if i % 7 == 6 { format!("10.0.{}.1:18444", i).parse().unwrap() } else { format!("44.{}.7.{}:18444", 10 + i, i + 1).parse().unwrap() }
}

impl World2 {
    fn new(c: &mut Case) -> World2 {
        let params = Params::new(Network::Regtest.into());
        let tall = c.rng.chance(1, 8);
        let (w, n) = if tall { (long_world(), 2016 + c.rng.usize(6)) } else { (World::new(), 0) };
        let br = w.branch(&w.best)[..=n].to_vec();
        let hs: Vec<BlockHeader> = br.iter().map(|h| w.get(h).block.header).collect();
        // the node has all filter headers: no requests whose timeouts drop peers
        let fs: Vec<StoredHeader> = w.fs(&br).iter().map(|(hash, header)| StoredHeader { hash: *hash, header: *header }).collect();
        let height = hs.len() as u64 - 1;
        let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(hs).unwrap()), params.clone(), &[]).unwrap();
        let fc = FilterCache::load(Memory::new(NonEmpty::from_vec(fs).unwrap())).unwrap();
        let now = LocalTime::from_secs(1_700_000_000);
        let persistent: Vec<SocketAddr> = if c.rng.chance(1, 2) { let n = 1 + c.rng.below(3); let mut v: Vec<SocketAddr> = (0..n).map(|_| addr(c.rng.below(14))).collect(); v.sort(); v.dedup(); v } else { vec![] };
        let domains = if c.rng.chance(1, 3) { vec![Domain::IPV4] } else { Domain::all() };
        let target = c.rng.usize(5);
        let max_in = c.rng.usize(4);
        let required = if c.rng.chance(1, 4) { ServiceFlags::NONE } else { NET };
        let mut book: HashMap<IpAddr, KnownAddress> = HashMap::new();
        for i in 0..c.rng.below(14) {
            let a = addr(i);
            // (local addresses are never entered in the address book)
            if local(&a.ip()) { continue; }
            let s = *c.rng.pick(&[NET | CF, NET | CF, NET, ServiceFlags::NONE]);
            book.insert(a.ip(), KnownAddress::new(Address::new(&a, s), Source::Imported, Some(now)));
        }
        let mut hooks = Hooks::default();
        hooks.on_version = Arc::new(|_, m: &VersionMessage| if m.user_agent == AGENT_HOOK { Err("hook") } else { Ok(()) });
        let cfg = Config { network: Network::Regtest, params, connect: persistent.clone(), domains: domains.clone(), services: NET, required_services: required, hooks, limits: Limits { max_outbound_peers: target, max_inbound_peers: max_in, ..Limits::default() }, ..Config::default() };
        c.op(format!("node at height {}, outbound target {}, inbound limit {}, persistent {:?}, domains {:?}, required services {}, {} known addresses", height, target, max_in, persistent, domains, required, book.len()));
        let sm = StateMachine::new(tree, fc, book, RefClock::from(AdjustedTime::<PeerId>::new(now)), fastrand::Rng::with_seed(c.rng.u64()), cfg);
        let mut w = World2 { sm, now, height, target, max_in, persistent, domains, required, white: BTreeSet::new(), peers: BTreeMap::new(), retry: BTreeMap::new(), next_in: 0, nonces: vec![] };
        w.sm.initialize(now);
        let dials: Vec<SocketAddr> = w.persistent.iter().filter(|a| w.domains.contains(&Domain::for_address(a))).cloned().collect();
        let mut e = Exp { dials, ..Exp::default() };
        e.auto = w.room();
        w.settle(c, e);
        w
    }
    fn outbound(&self) -> usize { self.peers.values().filter(|m| matches!(m, M::Conn { link: Link::Outbound, .. })).count() }
    fn negotiated_out(&self) -> usize { self.peers.values().filter(|m| matches!(m, M::Conn { link: Link::Outbound, done: true, .. })).count() }
    fn preferred_out(&self) -> usize { self.peers.values().filter(|m| matches!(m, M::Conn { link: Link::Outbound, done: true, hello: Some(h), .. } if h.msg.services.has(NET | CF))).count() }
    /// automatic connections that may be started
    fn room(&self) -> usize {
        if !self.persistent.is_empty() { return 0; }
        let dialing = self.peers.values().filter(|m| matches!(m, M::Dialing { .. })).count();
        let total = dialing + self.outbound();
        let t = self.target;
        let settled = self.preferred_out() + total - self.negotiated_out();
        usize::min((t + t / 2).saturating_sub(total), t.saturating_sub(settled))
    }
    fn backoff(n: u32) -> LocalDuration { LocalDuration::from_secs(u64::min(2u64.saturating_pow(n), 3600)) }

    /// compare what came out with what was due, and update the model with it
    fn settle(&mut self, c: &mut Case, mut e: Exp) {
        let mut writes: Vec<(SocketAddr, &'static str)> = vec![];
        let mut events: Vec<String> = vec![];
        let mut timers = vec![];
        let mut late: Vec<SocketAddr> = vec![];
        let mut auto = 0;
        let mut n = 0;
        while let Some(io) = self.sm.next() {
            n += 1;
            if n > 20_000 { c.fail("C18", "the state machine never stops producing output"); return; }
            match io {
                Io::Write(a, m) => {
                    if let Some(k) = kind(&m.payload) {
                        c.op(format!("  node sends {} to {}", k, a));
                        writes.push((a, k));
                        if let NetworkMessage::Version(v) = &m.payload {
                            self.nonces.push(v.nonce);
                            if self.nonces.len() > 4 { self.nonces.remove(0); }
                            c.check(v.start_height as u64 == self.height && v.version == 70016 && v.services == NET && v.timestamp == self.now.as_secs() as i64, "C18", || format!("our version message is wrong: {:?}", v));
                            if let Some(M::Conn { nonce, link: Link::Outbound, .. }) = self.peers.get_mut(&a) { *nonce = Some(v.nonce); }
                        }
                    }
                }
                Io::Connect(a) => {
                    c.op(format!("  node dials {}", a));
                    c.check(!self.peers.contains_key(&a), "C18", || format!("{} is dialed although there is a connection, an attempt or a disconnection in progress", a));
                    c.check(self.domains.contains(&Domain::for_address(&a)), "C18", || format!("{} is dialed although its address family is disabled", a));
                    if let Some(i) = e.dials.iter().position(|x| *x == a) { e.dials.remove(i); } else { auto += 1; }
                    self.peers.insert(a, M::Dialing { since: self.now });
                    e.timer.push(LocalDuration::from_secs(6));
                }
                Io::Disconnect(a, r) => {
                    c.op(format!("  node disconnects {}: {:?}", a, r));
                    if let Some(i) = e.drops.iter().position(|(x, y)| *x == a && same(y, &r)) { e.drops.remove(i); c.hit("dropped"); }
                    else if e.drop_any.as_ref().map_or(false, |(x, y)| *x == a && y.iter().any(|y| same(y, &r))) { e.drop_any = None; c.hit("refused"); }
                    else if e.timeouts && matches!(r, DisconnectReason::PeerTimeout(_)) && (late.contains(&a) || matches!(self.peers.get(&a), Some(M::Conn { done: true, .. } | M::Leaving { was: true, .. }))) { late.push(a); }
                    else { c.fail("C18", format!("{} is disconnected ({:?}) for no reason, or twice", a, r)); }
                    let was = matches!(self.peers.get(&a), Some(M::Conn { done: true, .. } | M::Leaving { was: true, .. }));
                    self.peers.insert(a, M::Leaving { reason: r, was });
                }
                Io::SetTimer(t) => timers.push(t),
                Io::Event(ev) => {
                    let s = match &ev {
                        Event::PeerConnected { addr, link, .. } => format!("connected {} {:?}", addr, link),
                        Event::PeerDisconnected { addr, .. } => format!("disconnected {}", addr),
                        Event::PeerConnectionFailed { addr, .. } => format!("failed {}", addr),
                        Event::PeerNegotiated { addr, link, services, persistent, user_agent, height, version, relay, wtxid_relay, .. } => format!("negotiated {} {:?} {} {} {} {} {} {} {}", addr, link, services, persistent, user_agent, height, version, relay, wtxid_relay),
                        _ => continue,
                    };
                    c.op(format!("  event {}", s));
                    events.push(s);
                }
            }
        }
        c.check(writes == e.writes, "C18", || format!("handshake messages sent: {:?}, due: {:?}", writes, e.writes));
        c.check(events == e.events, "C18", || format!("reported: {:?}, due: {:?}", events, e.events));
        c.check(e.drops.is_empty() && e.drop_any.is_none(), "C18", || format!("not disconnected: {:?} {:?}", e.drops, e.drop_any));
        c.check(e.dials.is_empty(), "C18", || format!("not connected to: {:?}", e.dials));
        c.check(auto <= e.auto, "C18", || format!("{} connections started on its own initiative, room for {}", auto, e.auto));
        if auto > 0 { c.hit("automatic dials"); }
        for t in &e.timer { c.check(timers.iter().any(|x| x <= t), "C18", || format!("no wake-up within {} requested", t)); }
        late.sort(); late.dedup();
        for a in late { if c.fails.is_empty() { self.leave(c, a, None); } }
    }
    fn trusted(&self, a: &SocketAddr) -> bool { self.white.contains(&a.ip()) || local(&a.ip()) }
    fn connect(&mut self, c: &mut Case, a: SocketAddr) {
        c.op(format!("command: connect {}", a));
        self.white.insert(a.ip());
        let mut e = Exp::default();
        if !self.peers.contains_key(&a) && self.domains.contains(&Domain::for_address(&a)) { e.dials.push(a); }
        self.sm.command(Command::Connect(a));
        self.settle(c, e);
    }
    fn disconnect(&mut self, c: &mut Case, a: SocketAddr) {
        c.op(format!("command: disconnect {}", a));
        let mut e = Exp::default();
        if matches!(self.peers.get(&a), Some(M::Conn { .. })) { e.drops.push((a, DisconnectReason::Command)); }
        self.sm.command(Command::Disconnect(a));
        self.settle(c, e);
    }
    fn established(&mut self, c: &mut Case, a: SocketAddr, link: Link) {
        c.op(format!("{} connected ({:?})", a, link));
        let mut e = Exp { events: vec![format!("connected {} {:?}", a, link)], ..Exp::default() };
        self.peers.insert(a, M::Conn { link, since: self.now, nonce: None, hello: None, done: false });
        self.retry.remove(&a);
        e.timer.push(LocalDuration::from_secs(12));
        match link {
            Link::Outbound => e.writes.push((a, "version")),
            Link::Inbound => if self.peers.values().filter(|m| matches!(m, M::Conn { link: Link::Inbound, .. })).count() > self.max_in { e.drops.push((a, DisconnectReason::ConnectionLimit)); c.hit("above the inbound limit"); },
        }
        self.sm.connected(a, &"44.0.0.1:18444".parse().unwrap(), link);
        self.settle(c, e);
    }
    /// the transport reports the end of a connection or attempt
    fn leave(&mut self, c: &mut Case, a: SocketAddr, fault: Option<bool>) {
        let io = Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        let mut e = Exp::default();
        let r = match (self.peers.remove(&a), fault) {
            (Some(M::Leaving { reason, .. }), None) => { e.events.push(format!("disconnected {}", a)); Disconnect::StateMachine(reason) }
            (Some(M::Dialing { .. }), f) => { e.events.push(format!("failed {}", a)); c.hit("failed dials"); if f == Some(true) { Disconnect::DialError(io) } else { Disconnect::ConnectionError(io) } }
            (Some(_), _) => { e.events.push(format!("disconnected {}", a)); Disconnect::ConnectionError(io) }
            (None, _) => return,
        };
        c.op(format!("{} disconnected: {}", a, r));
        if self.persistent.contains(&a) {
            let n = self.retry.get(&a).map_or(0, |x| x.1);
            let d = Self::backoff(n);
            self.retry.insert(a, (Some(self.now + d), n + 1));
            e.timer.push(d);
            c.hit("persistent peer lost");
        }
        e.auto = if self.persistent.contains(&a) { 0 } else { self.room() };
        self.sm.disconnected(&a, r);
        self.settle(c, e);
    }
    fn message(&mut self, c: &mut Case, a: SocketAddr, m: NetworkMessage, magic: u32) {
        c.op(format!("{} -> {}{}", a, match &m { NetworkMessage::Version(v) => format!("version {} services {} height {} agent {} relay {} nonce {}", v.version, v.services, v.start_height, v.user_agent, v.relay, v.nonce), m => format!("{:?}", m) }, if magic == Network::Regtest.magic() { "" } else { " (another network's magic)" }));
        let mut e = Exp::default();
        let persistent = self.persistent.contains(&a);
        let (target, height, now, trusted, required) = (self.target, self.height, self.now, self.trusted(&a), self.required);
        let full = self.negotiated_out() >= target;
        let selfs: Vec<u64> = self.peers.values().filter_map(|m| match m { M::Conn { nonce: Some(n), .. } => Some(*n), _ => None }).collect();
        if let Some(M::Conn { link, hello, done, .. }) = self.peers.get_mut(&a) {
            if magic != Network::Regtest.magic() { e.drops.push((a, DisconnectReason::PeerMagic(magic))); } else {
                match (&m, &mut *hello, *done) {
                    (NetworkMessage::Version(v), None, _) => {
                        let mut why = vec![];
                        let h = if v.start_height < 0 { 0 } else { v.start_height as u64 };
                        let out = *link == Link::Outbound;
                        if v.version < 70012 { why.push(DisconnectReason::PeerProtocolVersion(v.version)); }
                        if out && !trusted && !v.services.has(required) { why.push(DisconnectReason::PeerServices(v.services)); }
                        if out && !trusted && height > h + 2016 { why.push(DisconnectReason::PeerHeight(h)); c.hit("stale peer"); }
                        if selfs.contains(&v.nonce) { why.push(DisconnectReason::SelfConnection); c.hit("self connection"); }
                        if out && !v.services.has(NET | CF) && full { why.push(DisconnectReason::ConnectionLimit); }
                        if why.is_empty() && v.user_agent == AGENT_HOOK { why.push(DisconnectReason::Other("hook")); c.hit("refused by the hook"); }
                        if why.is_empty() {
                            if !out { e.writes.push((a, "version")); }
                            e.writes.extend([(a, "wtxidrelay"), (a, "verack"), (a, "sendheaders")]);
                            *hello = Some(Hello { msg: v.clone(), since: now, wtxid: false });
                            e.timer.push(LocalDuration::from_secs(12));
                            c.hit("version accepted");
                        } else { e.drop_any = Some((a, why)); }
                    }
                    (NetworkMessage::Version(_), _, _) => c.hit("second version"),
                    (NetworkMessage::Verack, Some(x), false) => {
                        let v = &x.msg;
                        e.events.push(format!("negotiated {} {:?} {} {} {} {} {} {} {}", a, link, v.services, persistent, v.user_agent, i32::max(v.start_height, 0), u32::min(v.version, 70016), v.relay, x.wtxid));
                        *done = true;
                        c.hit("negotiated");
                    }
                    (NetworkMessage::Verack, Some(_), true) => { e.drops.push((a, DisconnectReason::PeerMisbehaving(""))); c.hit("late verack"); }
                    (NetworkMessage::WtxidRelay, Some(x), false) => x.wtxid = true,
                    (NetworkMessage::WtxidRelay, Some(_), true) => { e.drops.push((a, DisconnectReason::PeerMisbehaving(""))); c.hit("late wtxidrelay"); }
                    _ => {}
                }
            }
        }
        self.sm.message_received(&a, Cow::Owned(RawNetworkMessage { magic, payload: m }));
        self.settle(c, e);
    }
    fn time(&mut self, c: &mut Case, d: LocalDuration) {
        self.now = self.now + d;
        c.op(format!("{} later: timer at {} ms", d, (self.now - LocalTime::from_secs(1_700_000_000)).as_millis()));
        self.sm.tick(self.now);
        let mut e = Exp { timeouts: true, ..Exp::default() };
        for (a, m) in &self.peers {
            let over = |t: LocalTime, s: u64| self.now - t >= LocalDuration::from_secs(s);
            let x = match m { M::Dialing { since } => over(*since, 6), M::Conn { since, hello: None, .. } => over(*since, 12), M::Conn { hello: Some(h), done: false, .. } => over(h.since, 12), _ => false };
            if x { e.drops.push((*a, DisconnectReason::PeerTimeout(""))); c.hit("timed out"); }
        }
        for (a, (t, _)) in self.retry.iter_mut() {
            if t.map_or(false, |t| t <= self.now) {
                *t = None;
                if !self.peers.contains_key(a) && self.domains.contains(&Domain::for_address(a)) { e.dials.push(*a); c.hit("retries"); }
            }
        }
        // room is computed on what is left: peers dropped now make room for others
        let leaving: BTreeSet<SocketAddr> = e.drops.iter().map(|x| x.0).collect();
        let saved = self.peers.clone();
        for a in &leaving { self.peers.insert(*a, M::Leaving { reason: DisconnectReason::PeerTimeout(""), was: false }); }
        // negotiated peers may be dropped by other parts of the node in the same step, after which no more connections are started
        e.auto = self.room();
        self.peers = saved;
        self.sm.timer_expired();
        self.settle(c, e);
    }
    fn version(&mut self, c: &mut Case) -> NetworkMessage {
        let services = *c.rng.pick(&[NET | CF, NET | CF, NET | CF, NET, ServiceFlags::NONE, CF]);
        let h: i32 = if c.rng.chance(1, 5) { *c.rng.pick(&[-1, i32::MIN, 0, i32::MAX]) } else { (self.height as i64 + *c.rng.pick(&[0, 0, 0, 5, -2015, -2016, -2017, -2018])) as i32 };
        let nonce = if c.rng.chance(1, 8) && !self.nonces.is_empty() { *c.rng.pick(&self.nonces) } else { c.rng.u64() };
        let mut m = version_msg(services, h, nonce, self.now, c.rng.chance(1, 2));
        m.version = *c.rng.pick(&[70016, 70016, 70016, 70015, 70012, 70011, 0, 70017, u32::MAX]);
        m.timestamp = if c.rng.chance(1, 10) { *c.rng.pick(&[i64::MIN, i64::MAX, 0, -1]) } else { m.timestamp + c.rng.range(-100, 100) };
        if c.rng.chance(1, 12) { m.user_agent = AGENT_HOOK.into(); }
        NetworkMessage::Version(m)
    }
}

pub fn connections(c: &mut Case) {
    let mut w = World2::new(c);
    let steps = 10 + c.rng.usize(60);
    let polite = c.rng.chance(1, 2);
    let prompt = c.rng.chance(1, 2);
    for _ in 0..steps {
        if !c.fails.is_empty() { return; }
        let all: Vec<SocketAddr> = w.peers.keys().cloned().collect();
        let conn: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, M::Conn { .. })).map(|x| *x.0).collect();
        let dialing: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, M::Dialing { .. })).map(|x| *x.0).collect();
        let leaving: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, M::Leaving { .. })).map(|x| *x.0).collect();
        if prompt && !leaving.is_empty() { let a = *c.rng.pick(&leaving); w.leave(c, a, None); continue; }
        match c.rng.below(20) {
            0 => { let a = addr(c.rng.below(14)); w.connect(c, a); }
            1 if !all.is_empty() && c.rng.chance(1, 2) => { let a = *c.rng.pick(&all); w.connect(c, a); }
            1 => { let a = addr(c.rng.below(14)); w.disconnect(c, a); }
            2 if !conn.is_empty() && c.rng.chance(1, 2) => { let a = *c.rng.pick(&conn); w.disconnect(c, a); }
            3 | 4 | 5 if !dialing.is_empty() => {
                let a = *c.rng.pick(&dialing);
                w.sm.attempted(&a);
                if c.rng.chance(4, 5) { w.established(c, a, Link::Outbound); } else { let d = c.rng.chance(1, 2); w.leave(c, a, Some(d)); }
            }
            6 => { w.next_in += 1; let a: SocketAddr = format!("{}.{}.9.9:{}", if c.rng.chance(1, 4) { 10 } else { 44 }, 100 + w.next_in % 100, 40000 + w.next_in).parse().unwrap(); w.established(c, a, Link::Inbound); }
            7 | 8 if !leaving.is_empty() => { let a = *c.rng.pick(&leaving); w.leave(c, a, None); }
            9 if !conn.is_empty() && c.rng.chance(1, 2) => { let a = *c.rng.pick(&conn); w.leave(c, a, Some(false)); }
            10 | 11 => {
                let ms = *c.rng.pick(&[1, 500, 999, 1000, 1001, 2000, 4000, 5999, 6000, 11_999, 12_000, 30_000, 60_000, 130_000, 3_600_000]);
                w.time(c, LocalDuration::from_millis(ms));
            }
            _ if !conn.is_empty() => {
                let a = *c.rng.pick(&conn);
                let next = match &w.peers[&a] { M::Conn { hello: None, .. } => 0, M::Conn { done: false, hello: Some(h), .. } => if h.wtxid || c.rng.chance(1, 2) { 1 } else { 2 }, _ => 3 };
                let k = if polite || c.rng.chance(4, 5) { next } else { c.rng.below(4) };
                let m = match k { 0 => w.version(c), 1 => NetworkMessage::Verack, 2 => NetworkMessage::WtxidRelay, _ => NetworkMessage::SendAddrV2 };
                let magic = if c.rng.chance(1, 60) { 0xdead_beef } else { Network::Regtest.magic() };
                w.message(c, a, m, magic);
            }
            // a message of a peer that is gone or going is ignored
            _ if !all.is_empty() => { let a = *c.rng.pick(&all); let m = w.version(c); w.message(c, a, m, Network::Regtest.magic()); }
            _ => {}
        }
    }
}

/// persistent peers that fail many times in a row: the wait doubles up to the limit
pub fn retries(c: &mut Case) {
    let mut w = World2::new(c);
    if w.persistent.is_empty() { return; }
    for _ in 0..20 + c.rng.usize(60) {
        if !c.fails.is_empty() { return; }
        let leaving: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, M::Leaving { .. })).map(|x| *x.0).collect();
        if !leaving.is_empty() { let a = *c.rng.pick(&leaving); w.leave(c, a, None); continue; }
        let dialing: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, M::Dialing { .. })).map(|x| *x.0).collect();
        if !dialing.is_empty() && c.rng.chance(14, 15) {
            let a = *c.rng.pick(&dialing);
            w.sm.attempted(&a);
            if c.rng.chance(1, 40) { w.established(c, a, Link::Outbound); } else { let d = c.rng.chance(1, 2); w.leave(c, a, Some(d)); }
            continue;
        }
        let conn: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, M::Conn { .. })).map(|x| *x.0).collect();
        if !conn.is_empty() && c.rng.chance(1, 4) { let a = *c.rng.pick(&conn); w.leave(c, a, Some(false)); continue; }
        // to the next wake-up of ours, or just before it, or past it
        let next = w.retry.values().filter_map(|(t, _)| *t).min();
        let d = match next {
            Some(t) if t > w.now => { let d = t - w.now; match c.rng.below(5) { 0 => LocalDuration::from_millis(d.as_millis().saturating_sub(1)), 1 => d + LocalDuration::from_millis(1), 2 => LocalDuration::from_millis(d.as_millis() / 2), _ => d } }
            _ => LocalDuration::from_secs(1),
        };
        w.time(c, d);
    }
}
