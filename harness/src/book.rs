//! The address book: the real `StateMachine` on a peer store we can look into, driven by connections of
//! every kind, `addr` and `getaddr` messages, imported addresses and time, against a model written from
//! the statement of C21. The store is compared with the model after every input and every output.
use crate::node::{version_msg, CF, NET};
use crate::util::*;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::block::store::Genesis;
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::BlockHeader;
use nakamoto_common::network::Network;
use nakamoto_common::p2p::peer::{KnownAddress, Source, Store};
use nakamoto_common::p2p::Domain;
use nakamoto_net::{Disconnect, Link, StateMachine as _};
use nakamoto_p2p::fsm::{Command, Config, DisconnectReason, Event, Io, Limits, PeerId, StateMachine};
use std::borrow::Cow;
use std::cell::{Cell, UnsafeCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::rc::Rc;
use std::sync::Arc;

/// the peer store, shared with the harness (which looks at it only between calls)
struct Shared(Rc<UnsafeCell<HashMap<IpAddr, KnownAddress>>>, Rc<Cell<u64>>);
impl Shared {
    fn m(&self) -> &HashMap<IpAddr, KnownAddress> { unsafe { &*self.0.get() } }
    fn mm(&mut self) -> &mut HashMap<IpAddr, KnownAddress> { unsafe { &mut *self.0.get() } }
}
impl Store for Shared {
    fn get(&self, ip: &IpAddr) -> Option<&KnownAddress> { self.m().get(ip) }
    fn get_mut(&mut self, ip: &IpAddr) -> Option<&mut KnownAddress> { self.mm().get_mut(ip) }
    fn insert(&mut self, ip: IpAddr, ka: KnownAddress) -> bool { Store::insert(self.mm(), ip, ka) }
    fn remove(&mut self, ip: &IpAddr) -> Option<KnownAddress> { self.mm().remove(ip) }
    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&IpAddr, &KnownAddress)> + 'a> { Box::new(self.m().iter()) }
    fn len(&self) -> usize { self.m().len() }
    fn clear(&mut self) { self.mm().clear() }
    fn flush(&mut self) -> std::io::Result<()> { self.1.set(self.1.get() + 1); Ok(()) }
}
type Node = StateMachine<BlockCache<Memory<BlockHeader>>, FilterCache<Memory<StoredHeader>>, Shared, RefClock<AdjustedTime<PeerId>>>;
const T: &str = "C21";

fn local(ip: &IpAddr) -> bool {
    match ip { IpAddr::V4(a) => { let o = a.octets(); o[0] == 10 || o[0] == 127 || (o[0] == 172 && o[1] & 0xf0 == 16) || (o[0] == 192 && o[1] == 168) || (o[0] == 169 && o[1] == 254) || o == [0; 4] } _ => false }
}
fn routable(ip: &IpAddr) -> bool {
    match ip {
        IpAddr::V4(a) => { let o = a.octets(); !local(ip) && o[0] != 0 && o != [255; 4] && o[..3] != [192, 0, 2] && o[..3] != [198, 51, 100] && o[..3] != [203, 0, 113] }
        _ => true,
    }
}
/// the range of an address: its first 16 bits (IPv4) or 32 bits (IPv6), modulo 255
fn range(ip: &IpAddr) -> u64 {
    match ip { IpAddr::V4(a) => { let o = a.octets(); (o[0] as u64 * 256 + o[1] as u64) % 255 } IpAddr::V6(a) => { let s = a.segments(); (s[0] as u64 * 65536 + s[1] as u64) % 255 } }
}
fn same(a: &KnownAddress, b: &KnownAddress) -> bool {
    a.addr == b.addr && a.source == b.source && a.last_success == b.last_success && a.last_sampled == b.last_sampled && a.last_attempt == b.last_attempt && a.last_active == b.last_active
}
fn show(k: &KnownAddress) -> String { format!("{:?} services {} from {:?} success {:?} handed out {:?} attempt {:?} active {:?}", k.addr.socket_addr().ok(), k.addr.services, k.source, k.last_success, k.last_sampled, k.last_attempt, k.last_active) }
const ONION: [u16; 8] = [0xFD87, 0xD87E, 0xEB43, 1, 2, 3, 4, 5];
/// addresses that come up again and again
fn pool(i: u64) -> Address {
    let v4 = |s: &str| -> Address { Address::new(&s.parse::<SocketAddr>().unwrap(), ServiceFlags::NONE) };
    match i {
        0 => v4("44.1.0.1:8333"), 1 => v4("44.1.0.2:8333"), 2 => v4("44.1.0.2:8334"), 3 => v4("44.2.0.1:8333"), 4 => v4("44.2.9.1:18444"),
        // two prefixes that share a range
        5 => v4("1.2.0.1:8333"), 6 => v4("2.1.0.1:8333"),
        7 => v4("[2001:4860:4860::1]:8333"), 8 => v4("[2001:4860:4861::1]:8333"), 9 => v4("[2001:4861::1]:8333"), 10 => v4("[fe80::1]:8333"),
        11 => v4("192.0.0.9:8333"), 12 => v4("192.0.0.10:8333"), 13 => v4("192.0.0.8:8333"), 14 => v4("192.0.2.1:8333"), 15 => v4("198.51.100.7:8333"), 16 => v4("203.0.113.9:8333"),
        17 => v4("10.0.0.1:8333"), 18 => v4("127.0.0.1:8333"), 19 => v4("172.16.0.1:8333"), 20 => v4("172.31.255.1:8333"), 21 => v4("172.32.0.1:8333"), 22 => v4("192.168.1.1:8333"), 23 => v4("169.254.1.1:8333"), 24 => v4("0.1.2.3:8333"), 25 => v4("0.0.0.0:8333"), 26 => v4("255.255.255.255:8333"), 27 => v4("255.255.255.254:8333"),
        28 => Address { services: ServiceFlags::NONE, address: ONION, port: 8333 },
        i => v4(&format!("{}.{}.{}.{}:8333", 50 + i % 5, i % 3, i % 7, 1 + i % 200)),
    }
}
#[derive(Clone)]
enum P { Dialing, Conn { link: Link, hello: bool, done: bool }, Leaving(DisconnectReason) }
struct Answer { to: SocketAddr, ranges: BTreeMap<u64, Vec<(u32, Address)>> }
struct W {
    sm: Node, real: Rc<UnsafeCell<HashMap<IpAddr, KnownAddress>>>, flushes: Rc<Cell<u64>>, now: LocalTime,
    target: usize, required: ServiceFlags, domains: Vec<Domain>, persistent: bool,
    peers: BTreeMap<SocketAddr, P>, inbound: u32,
    // model
    book: BTreeMap<IpAddr, KnownAddress>, bans: BTreeSet<IpAddr>, connected: BTreeSet<SocketAddr>, sources: BTreeSet<SocketAddr>, own: BTreeSet<SocketAddr>,
    idle: LocalTime, request: Option<LocalTime>, last_timer: Option<LocalTime>, saved: u64,
    handed: BTreeSet<SocketAddr>, dial: Option<SocketAddr>, asked: Vec<SocketAddr>, answers: Vec<Answer>, exhausted: bool,
}
trait Ms { fn as_ms(&self) -> u128; }
impl Ms for LocalTime { fn as_ms(&self) -> u128 { (*self - LocalTime::from_secs(0)).as_millis() } }
fn ms(t: Option<LocalTime>) -> u128 { t.map_or(0, |t| t.as_ms()) }

impl W {
    fn new(c: &mut Case) -> W {
        let params = Params::new(Network::Regtest.into());
        let tree = BlockCache::from(Memory::genesis(Network::Regtest), params.clone(), &[]).unwrap();
        let fc = FilterCache::load(Memory::genesis(Network::Regtest)).unwrap();
        let now = LocalTime::from_secs(1_700_000_000);
        let domains = if c.rng.chance(1, 3) { vec![Domain::IPV4] } else { Domain::all() };
        let required = *c.rng.pick(&[NET, NET, NET, ServiceFlags::NONE]);
        let target = c.rng.usize(6);
        let persistent: Vec<SocketAddr> = if c.rng.chance(1, 6) { vec!["44.7.7.7:8333".parse().unwrap()] } else { vec![] };
        let mut m: HashMap<IpAddr, KnownAddress> = HashMap::new();
        let crowd = c.rng.chance(1, 40);
        let n = if crowd { 250 + c.rng.below(20) } else { c.rng.below(12) };
        for i in 0..n {
            let mut a = if crowd { Address::new(&SocketAddr::from(([60, (i % 2) as u8, (i / 200) as u8, 1 + (i % 200) as u8], 8333)), NET) } else { let k = c.rng.below(60); pool(k) };
            if crowd { a.address[6] = u16::from_be_bytes([60, 1]); }
            a.services = *c.rng.pick(&[NET | CF, NET | CF, NET, ServiceFlags::NONE]);
            let ip = match a.socket_addr() { Ok(s) => s.ip(), Err(_) => continue };
            if local(&ip) || !routable(&ip) { continue; }
            let ago = LocalDuration::from_secs(c.rng.below(400));
            let mut opt = |c: &mut Case| if c.rng.chance(1, 4) { Some(LocalTime::from_secs(1_700_000_000 - ago.as_secs())) } else { None };
            let k = KnownAddress { addr: a, source: *c.rng.pick(&[Source::Dns, Source::Imported]), last_success: opt(c), last_sampled: opt(c), last_attempt: opt(c), last_active: opt(c) };
            m.insert(ip, k);
        }
        let cfg = Config { network: Network::Regtest, params, connect: persistent.clone(), domains: domains.clone(), services: NET, required_services: required, limits: Limits { max_outbound_peers: target, max_inbound_peers: 6, ..Limits::default() }, ..Config::default() };
        c.op(format!("node with {} known addresses, outbound target {}, required services {}, domains {:?}, persistent peers {:?}", m.len(), target, required, domains, persistent));
        let before = m.clone();
        let real = Rc::new(UnsafeCell::new(m));
        let flushes = Rc::new(Cell::new(0));
        let sm = StateMachine::new(tree, fc, Shared(real.clone(), flushes.clone()), RefClock::from(AdjustedTime::<PeerId>::new(now)), fastrand::Rng::with_seed(c.rng.u64()), cfg);
        let mut w = W { sm, real, flushes, now, target, required, domains, persistent: !persistent.is_empty(), peers: BTreeMap::new(), inbound: 0, book: BTreeMap::new(), bans: BTreeSet::new(), connected: BTreeSet::new(), sources: BTreeSet::new(), own: BTreeSet::new(), idle: now, request: None, last_timer: None, saved: 1, handed: BTreeSet::new(), dial: persistent.first().cloned(), asked: vec![], answers: vec![], exhausted: false };
        // the known addresses, at most 256 of each range
        let mut per: BTreeMap<u64, usize> = BTreeMap::new();
        for ip in before.keys() { *per.entry(range(ip)).or_insert(0) += 1; }
        for (k, n) in per {
            let kept = w.real().keys().filter(|i| range(i) == k).count();
            c.check(kept == usize::min(n, 256), T, || format!("of {} known addresses in one range, {} are kept at start", n, kept));
            if n > 256 { c.hit("full range at start"); }
        }
        for (ip, k) in w.real() { match before.get(ip) { Some(b) if same(b, k) => {} b => c.fail(T, format!("the entry of {} changed at start: {:?}", ip, b.map(show))) } }
        w.book = w.real().iter().map(|(k, v)| (*k, v.clone())).collect();
        w.sm.initialize(now);
        w.sampled(c, "start", true);
        w.drain(c);
        w
    }
    fn real(&self) -> &HashMap<IpAddr, KnownAddress> { unsafe { &*self.real.get() } }
    fn linked(&self, ip: &IpAddr) -> bool { self.connected.iter().any(|a| a.ip() == *ip) }
    fn unused(&self, ip: &IpAddr, k: &KnownAddress) -> bool { (k.last_attempt.is_none() || k.last_success.is_some()) && self.idle.as_ms().saturating_sub(ms(k.last_sampled)) >= 180_000 && !self.linked(ip) }
    fn eligible(&self, ip: &IpAddr, k: &KnownAddress) -> bool { k.addr.socket_addr().map_or(false, |a| self.domains.contains(&Domain::for_address(&a))) && self.unused(ip, k) }
    /// no less than what the node counts (it may still count those that it is disconnecting)
    fn outbound(&self) -> usize { self.peers.values().filter(|p| !matches!(p, P::Conn { link: Link::Inbound, .. })).count() }
    fn compare(&self, c: &mut Case, when: &str) {
        let r = self.real();
        for (ip, k) in &self.book {
            match r.get(ip) {
                None => c.fail(T, format!("after {}: {} is no longer in the address book", when, ip)),
                Some(x) => c.check(same(x, k), T, || format!("after {}: {} is {} and should be {}", when, ip, show(x), show(k))),
            }
        }
        for ip in r.keys() { c.check(self.book.contains_key(ip), T, || format!("after {}: {} is in the address book and should not be", when, ip)); }
    }
    /// which addresses were handed out to the connection manager; `runs`: it did look for peers to connect to
    fn sampled(&mut self, c: &mut Case, when: &str, runs: bool) {
        let mut got: Vec<IpAddr> = vec![];
        for (ip, k) in self.real() {
            let m = match self.book.get(ip) { Some(m) => m, None => continue };
            if k.last_sampled != m.last_sampled { got.push(*ip); }
        }
        got.sort();
        let elig: Vec<IpAddr> = self.book.iter().filter(|(ip, k)| self.eligible(ip, k)).map(|x| *x.0).collect();
        let has = |ip: &IpAddr, s: ServiceFlags| self.book[ip].addr.services.has(s);
        for ip in &got {
            c.op(format!("  address {} handed out", ip));
            c.check(elig.contains(ip), T, || format!("{} is handed out although it may not: {}; connected {:?}", ip, show(&self.book[ip]), self.connected));
            c.check(self.real()[ip].last_sampled == Some(self.idle), T, || format!("{} is marked as handed out at {:?}", ip, self.real()[ip].last_sampled));
            for s in [NET | CF, self.required] {
                if !has(ip, s) { c.check(elig.iter().all(|e| !has(e, s) || got.contains(e)), T, || format!("{} (services {}) is handed out although there are addresses with services {}", ip, self.book[ip].addr.services, s)); }
            }
            c.hit("handed out");
        }
        let dials = got.len();
        if runs && !self.persistent && self.outbound() + dials < self.target {
            c.check(elig.len() == got.len(), T, || format!("{}: {} outbound connections of {}, but of the addresses {:?} only {:?} are handed out", when, self.outbound(), self.target, elig, got));
        }
        for ip in got { let i = self.idle; let k = self.book.get_mut(&ip).unwrap(); k.last_sampled = Some(i); let a = k.addr.socket_addr().ok(); self.handed.extend(a); }
        self.compare(c, when);
    }
    fn idled(&mut self) { self.idle = self.now; self.saved += 1; }
    fn learn(&mut self, c: &mut Case, l: &[(u32, Address)], src: Source) {
        let mut fuzzy: BTreeMap<u64, (BTreeMap<IpAddr, Vec<KnownAddress>>, IpAddr)> = BTreeMap::new();
        for (t, a) in l {
            let s = match a.socket_addr() { Ok(s) => s, Err(_) => continue };
            let ip = s.ip();
            let worthy = a.services.has(self.required) && !a.services.has(ServiceFlags::GETUTXO) && !a.services.has(ServiceFlags::BLOOM)
                && (*t != 0 || src == Source::Imported) && *t as u128 * 1000 <= self.idle.as_ms() + 3_600_000
                && self.domains.contains(&Domain::for_address(&s)) && !self.own.contains(&s) && !self.bans.contains(&ip) && routable(&ip) && !local(&ip);
            if !worthy { c.hit("address refused"); continue; }
            let k = KnownAddress { addr: a.clone(), source: src, last_success: None, last_sampled: None, last_attempt: None, last_active: if *t == 0 { None } else { Some(LocalTime::from_secs(*t as u64)) } };
            let r = range(&ip);
            if let Some(f) = fuzzy.get_mut(&r) { f.0.entry(ip).or_default().push(k); f.1 = ip; continue; }
            if self.book.contains_key(&ip) { c.hit("address known"); continue; }
            let n = self.book.keys().filter(|i| range(i) == r).count();
            if n < 256 { self.book.insert(ip, k); c.hit("address learned"); } else {
                c.hit("range full");
                let mut m: BTreeMap<IpAddr, Vec<KnownAddress>> = self.book.iter().filter(|(i, _)| range(i) == r).map(|(i, k)| (*i, vec![k.clone()])).collect();
                m.insert(ip, vec![k]);
                fuzzy.insert(r, (m, ip));
            }
        }
        for (r, (m, last)) in fuzzy {
            let now: Vec<(IpAddr, KnownAddress)> = self.real().iter().filter(|(i, _)| range(i) == r).map(|(i, k)| (*i, k.clone())).collect();
            c.check(now.len() == 256, T, || format!("a full range holds {} addresses after one more", now.len()));
            c.check(now.iter().any(|x| x.0 == last), T, || format!("{} was not entered in a full range", last));
            for (i, k) in &now { c.check(m.get(i).map_or(false, |v| v.iter().any(|x| same(x, k))), T, || format!("{} is in a full range as {}", i, show(k))); }
            self.book.retain(|i, _| range(i) != r);
            self.book.extend(now);
        }
    }
    fn apply(&mut self, c: &mut Case, e: &Event) {
        let now = self.now;
        match e {
            Event::PeerConnecting { addr, .. } => { if let Some(k) = self.book.get_mut(&addr.ip()) { k.last_attempt = Some(now); } }
            Event::PeerConnected { addr, .. } => { if routable(&addr.ip()) && !local(&addr.ip()) { self.connected.insert(*addr); } }
            Event::PeerNegotiated { addr, link, services, receiver, .. } => {
                if let Ok(a) = receiver.socket_addr() { self.own.insert(a); }
                if self.connected.contains(addr) {
                    if *link == Link::Outbound { self.sources.insert(*addr); }
                    if let Some(k) = self.book.get_mut(&addr.ip()) {
                        if k.last_success.is_none() { self.asked.push(*addr); c.hit("asked for addresses"); }
                        k.last_success = Some(now);
                        k.last_active = Some(now);
                        k.addr.services = *services;
                    }
                }
            }
            Event::PeerDisconnected { addr, reason } => {
                if self.connected.remove(addr) {
                    self.sources.remove(addr);
                    use DisconnectReason::*;
                    if let Disconnect::StateMachine(r) = reason {
                        if !matches!(r, ConnectionLimit | PeerTimeout(_) | PeerHeight(_)) { self.bans.insert(addr.ip()); self.book.remove(&addr.ip()); c.hit("banned"); }
                    }
                }
            }
            Event::AddressBookExhausted => { c.check(self.exhausted, T, || "the address book is reported as used up, which it is not".into()); self.exhausted = false; }
            _ => {}
        }
    }
    fn drain(&mut self, c: &mut Case) {
        let mut n = 0;
        while let Some(io) = self.sm.next() {
            n += 1;
            if n > 20_000 { c.fail(T, "the state machine never stops producing output"); return; }
            match io {
                Io::Write(a, m) => match m.payload {
                    NetworkMessage::GetAddr => {
                        c.op(format!("  node asks {} for addresses", a));
                        match self.asked.iter().position(|x| *x == a) { Some(i) => { self.asked.remove(i); } None => c.fail(T, format!("{} is asked for addresses out of turn", a)) }
                    }
                    NetworkMessage::Addr(l) => {
                        c.op(format!("  node tells {} {} addresses", a, l.len()));
                        let i = match self.answers.iter().position(|x| x.to == a) { Some(i) => i, None => { c.fail(T, format!("{} is told addresses it did not ask for", a)); continue; } };
                        let w = self.answers.remove(i);
                        let mut left = w.ranges;
                        let total = left.len();
                        for (t, x) in &l {
                            let r = x.socket_addr().map(|s| range(&s.ip())).unwrap_or(999);
                            c.check(left.remove(&r).map_or(false, |v| v.contains(&(*t, x.clone()))), T, || format!("{} is told about {:?} (last active {}), which is not one address per range of our book", a, x, t));
                        }
                        c.check(left.is_empty(), T, || format!("{} is told {} addresses, there are {} ranges", a, l.len(), total));
                        c.hit("getaddr answered");
                    }
                    _ => {}
                },
                Io::Connect(a) => {
                    c.op(format!("  node dials {}", a));
                    if self.dial == Some(a) { self.dial = None; } else if !(self.persistent && a.to_string() == "44.7.7.7:8333") { c.check(self.handed.remove(&a), T, || format!("{} is dialed without having been taken from the address book", a)); }
                    self.peers.insert(a, P::Dialing);
                }
                Io::Disconnect(a, r) => { c.op(format!("  node disconnects {}: {:?}", a, r)); if self.peers.contains_key(&a) { self.peers.insert(a, P::Leaving(r)); } }
                Io::Event(e) => {
                    if matches!(e, Event::PeerConnecting { .. } | Event::PeerConnected { .. } | Event::PeerNegotiated { .. } | Event::PeerDisconnected { .. } | Event::AddressBookExhausted) {
                        let s = format!("{:?}", e);
                        c.op(format!("  event {}", s));
                        self.apply(c, &e);
                        self.compare(c, &s);
                    }
                }
                Io::SetTimer(_) => {}
            }
            if !c.fails.is_empty() { return; }
        }
        self.handed.clear();
        self.dial = None;
        self.compare(c, "all of this");
        c.check(self.asked.is_empty(), T, || format!("not asked for addresses: {:?}", self.asked));
        c.check(self.answers.is_empty(), T, || format!("getaddr of {:?} is not answered", self.answers.iter().map(|a| a.to).collect::<Vec<_>>()));
        c.check(!self.exhausted, T, || "the address book is used up, which is not reported".into());
        c.check(self.flushes.get() == self.saved, T, || format!("the address book was saved {} times, not {}", self.flushes.get(), self.saved));
    }
    fn message(&mut self, c: &mut Case, a: SocketAddr, m: NetworkMessage, magic: u32) {
        let live = matches!(self.peers.get(&a), Some(P::Conn { .. })) && magic == Network::Regtest.magic();
        c.op(format!("{} -> {}{}", a, match &m { NetworkMessage::Addr(l) => format!("addr of {}: {}", l.len(), l.iter().take(4).map(|(t, x)| format!("{} {:?} {}", t, x.socket_addr().ok(), x.services)).collect::<Vec<_>>().join(", ")), NetworkMessage::Version(v) => format!("version {} services {} receiver {:?}", v.version, v.services, v.receiver.socket_addr().ok()), m => format!("{:?}", m) }, if live { "" } else { " (ignored)" }));
        self.sm.message_received(&a, Cow::Owned(RawNetworkMessage { magic, payload: m.clone() }));
        if live {
            let now = self.now;
            if let Some(k) = self.book.get_mut(&a.ip()) { k.last_active = Some(now); }
            match &m {
                NetworkMessage::Addr(l) if !l.is_empty() && l.len() <= 1000 => self.learn(c, l, Source::Peer(a)),
                NetworkMessage::GetAddr => {
                    let mut ranges: BTreeMap<u64, Vec<(u32, Address)>> = BTreeMap::new();
                    for (ip, k) in &self.book { ranges.entry(range(ip)).or_default().push((k.last_active.map_or(0, |t| t.as_secs() as u32), k.addr.clone())); }
                    self.answers.push(Answer { to: a, ranges });
                }
                NetworkMessage::Version(_) => if let Some(P::Conn { hello, .. }) = self.peers.get_mut(&a) { *hello = true },
                NetworkMessage::Verack => if let Some(P::Conn { done, hello: true, .. }) = self.peers.get_mut(&a) { *done = true },
                _ => {}
            }
        }
        self.compare(c, "the message");
        self.drain(c);
    }
    fn version(&mut self, c: &mut Case) -> NetworkMessage {
        let services = *c.rng.pick(&[NET | CF, NET | CF, NET | CF, NET, ServiceFlags::NONE]);
        let nonce = c.rng.u64();
        let mut m = version_msg(services, 0, nonce, self.now, true);
        m.version = *c.rng.pick(&[70016, 70016, 70016, 70016, 70011]);
        let k = c.rng.below(40);
        if c.rng.chance(1, 2) { m.receiver = pool(k); } else { m.receiver = Address::new(&"44.0.0.1:18444".parse().unwrap(), NET); }
        NetworkMessage::Version(m)
    }
    fn some(&self, c: &mut Case) -> Address {
        let k = c.rng.below(60);
        let mut a = pool(k);
        a.services = *c.rng.pick(&[NET | CF, NET | CF, NET | CF, NET, NET, ServiceFlags::NONE, CF, NET | ServiceFlags::BLOOM, NET | CF | ServiceFlags::GETUTXO, NET | ServiceFlags::WITNESS, NET | CF | ServiceFlags::BLOOM | ServiceFlags::GETUTXO]);
        if c.rng.chance(1, 10) { if let Some(o) = self.own.iter().next() { a = Address::new(o, a.services); } }
        if c.rng.chance(1, 6) { let v: Vec<&IpAddr> = self.bans.iter().collect(); if !v.is_empty() { let ip = **c.rng.pick(&v); a = Address::new(&SocketAddr::new(ip, 8333 + c.rng.below(2) as u16), a.services); } }
        a
    }
    fn list(&mut self, c: &mut Case) -> Vec<(u32, Address)> {
        let now = self.now.as_secs() as u32;
        let lim = (self.idle.as_ms() / 1000) as u32 + 3600;
        if c.rng.chance(1, 25) {
            // enough to fill a range
            let n = *c.rng.pick(&[0usize, 200, 257, 300, 999, 1000, 1001]);
            let (x, y) = *c.rng.pick(&[(60u8, 1u8), (61, 2), (1, 2), (2, 1)]);
            let from = c.rng.below(400) as usize;
            return (from..from + n).map(|i| (now - i as u32, Address::new(&SocketAddr::new(IpAddr::V4(Ipv4Addr::new(x, y, (i / 250) as u8, (i % 250) as u8)), 8333), NET | CF))).collect();
        }
        (0..c.rng.below(6)).map(|_| {
            let t = if c.rng.chance(2, 3) { now - c.rng.below(5000) as u32 } else { *c.rng.pick(&[0, 1, now, lim, lim + 1, lim - 1, u32::MAX, now + 100]) };
            (t, self.some(c))
        }).collect()
    }
    fn established(&mut self, c: &mut Case, a: SocketAddr, link: Link) {
        c.op(format!("{} connected ({:?})", a, link));
        self.peers.insert(a, P::Conn { link, hello: false, done: false });
        self.sm.connected(a, &"44.0.0.1:18444".parse().unwrap(), link);
        self.drain(c);
    }
    fn leave(&mut self, c: &mut Case, a: SocketAddr, dial: bool) {
        let io = Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        let r = match self.peers.remove(&a) {
            Some(P::Leaving(r)) => Disconnect::StateMachine(r),
            Some(P::Dialing) if dial => Disconnect::DialError(io),
            Some(_) => Disconnect::ConnectionError(io),
            None => return,
        };
        c.op(format!("{} disconnected: {}", a, r));
        self.sm.disconnected(&a, r);
        self.sampled(c, "the disconnection", true);
        self.drain(c);
    }
    fn time(&mut self, c: &mut Case, d: LocalDuration) {
        self.now = self.now + d;
        c.op(format!("{} later: timer at {} ms", d, (self.now - LocalTime::from_secs(1_700_000_000)).as_millis()));
        self.sm.tick(self.now);
        if self.now.as_ms() - ms(self.request) >= 60_000 && self.book.iter().all(|(ip, k)| !self.unused(ip, k)) {
            self.exhausted = true;
            self.request = Some(self.now);
            self.asked.extend(self.sources.iter().cloned());
            c.hit("book used up");
        }
        if self.now.as_ms() - self.idle.as_ms() >= 60_000 { self.idled(); }
        let runs = self.last_timer.map_or(false, |t| self.now.as_ms() - t.as_ms() >= 60_000);
        self.last_timer = Some(self.now);
        self.sm.timer_expired();
        self.sampled(c, "the timer", runs);
        self.drain(c);
    }
}

pub fn book(c: &mut Case) {
    let mut w = W::new(c);
    let steps = 10 + c.rng.usize(80);
    let calm = c.rng.chance(1, 2);
    for _ in 0..steps {
        if !c.fails.is_empty() { return; }
        let conn: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, P::Conn { .. })).map(|x| *x.0).collect();
        let dialing: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, P::Dialing)).map(|x| *x.0).collect();
        let leaving: Vec<SocketAddr> = w.peers.iter().filter(|(_, m)| matches!(m, P::Leaving(_))).map(|x| *x.0).collect();
        if !leaving.is_empty() && c.rng.chance(2, 3) { let a = *c.rng.pick(&leaving); w.leave(c, a, false); continue; }
        match c.rng.below(24) {
            0 => { let k = c.rng.below(60); if let Ok(a) = pool(k).socket_addr() { c.op(format!("command: connect {}", a)); if !w.peers.contains_key(&a) { w.dial = Some(a); } w.sm.command(Command::Connect(a)); w.drain(c); } }
            1 if !conn.is_empty() => { let a = *c.rng.pick(&conn); c.op(format!("command: disconnect {}", a)); w.sm.command(Command::Disconnect(a)); w.drain(c); }
            2 | 3 => {
                let l: Vec<Address> = (0..1 + c.rng.below(5)).map(|_| w.some(c)).collect();
                c.op(format!("command: import addresses {:?}", l.iter().map(|a| (a.socket_addr().ok(), a.services)).collect::<Vec<_>>()));
                w.sm.command(Command::ImportAddresses(l.clone()));
                let l: Vec<(u32, Address)> = l.into_iter().map(|a| (0, a)).collect();
                w.learn(c, &l, Source::Imported);
                w.compare(c, "the import");
                w.drain(c);
                c.hit("imports");
            }
            4..=7 if !dialing.is_empty() => {
                let a = *c.rng.pick(&dialing);
                w.sm.attempted(&a);
                if c.rng.chance(4, 5) { w.established(c, a, Link::Outbound); } else { let d = c.rng.chance(1, 2); w.leave(c, a, d); }
            }
            8 => {
                w.inbound += 1;
                let k = c.rng.below(60);
                if let Ok(a) = pool(k).socket_addr() { let a = SocketAddr::new(a.ip(), 40000 + w.inbound as u16); w.established(c, a, Link::Inbound); }
            }
            9 if !conn.is_empty() && c.rng.chance(1, 2) => { let a = *c.rng.pick(&conn); w.leave(c, a, false); }
            10 | 11 => {
                let ms = if calm { *c.rng.pick(&[500, 1000, 5000, 10_000, 60_000]) } else { *c.rng.pick(&[1, 1000, 30_000, 59_999, 60_000, 60_001, 119_999, 120_000, 179_999, 180_000, 180_001, 3_600_000]) };
                w.time(c, LocalDuration::from_millis(ms));
            }
            _ if !conn.is_empty() => {
                let a = *c.rng.pick(&conn);
                let (hello, done) = match &w.peers[&a] { P::Conn { hello, done, .. } => (*hello, *done), _ => (false, false) };
                let m = if !hello && c.rng.chance(9, 10) { w.version(c) } else if !done && c.rng.chance(9, 10) { NetworkMessage::Verack } else {
                    match c.rng.below(12) { 0..=5 => NetworkMessage::Addr(w.list(c)), 6..=8 => NetworkMessage::GetAddr, 9 => NetworkMessage::Ping(c.rng.u64()), 10 => NetworkMessage::Verack, _ => NetworkMessage::SendAddrV2 }
                };
                let magic = if c.rng.chance(1, 60) { 0xdead_beef } else { Network::Regtest.magic() };
                w.message(c, a, m, magic);
            }
            _ if !dialing.is_empty() => { let a = *c.rng.pick(&dialing); let m = NetworkMessage::Addr(w.list(c)); w.message(c, a, m, Network::Regtest.magic()); }
            _ => {}
        }
    }
}
