//! The node as a whole: what a message, a timer or a command reaches, what comes back, and what leaves the node.
//! Peers are honest; messages of another network, from strangers, and refused by the user's hook are mixed in,
//! and every command is issued with its reply compared to what the history says it must be.
use crate::chaos::answer;
use crate::node::*;
use crate::util::*;
use crossbeam_channel as chan;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::GetCFHeaders;
use nakamoto_common::bitcoin::{OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::tree::ImportResult;
use nakamoto_common::block::{BlockHash, BlockHeader};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::KnownAddress;
use nakamoto_net::{Disconnect, Link, StateMachine as _};
use nakamoto_p2p::fsm::{Command, CommandError, Config, DisconnectReason, Event, GetFiltersError, Hooks, Io, Limits, Peer, PeerId, StateMachine};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::net::{IpAddr, SocketAddr};
use std::sync::{Arc, Mutex};

type Node = StateMachine<BlockCache<Memory<BlockHeader>>, FilterCache<Memory<StoredHeader>>, HashMap<IpAddr, KnownAddress>, RefClock<AdjustedTime<PeerId>>>;
#[derive(Clone)]
struct Pr { mute: bool, link: Link, since: LocalTime, local: SocketAddr, version: Option<(ServiceFlags, i32, bool, String)>, up: bool }
#[derive(Default)]
struct Hook { refuse: bool, calls: Vec<(PeerId, String)> }
struct G { sm: Node, w: World, net: Network, now: LocalTime, peers: BTreeMap<SocketAddr, Pr>, dialing: BTreeSet<SocketAddr>, n: u64, tip: BlockHash, txs: BTreeMap<Txid, Transaction>, hook: Arc<Mutex<Hook>>, todo: VecDeque<(SocketAddr, NetworkMessage)>, sync: bool, asked: BTreeSet<BlockHash> }

const T: &str = "C22";
fn io_str(i: &Io) -> String { match i { Io::Write(a, m) => format!("write {} to {}", show(&m.payload), a), Io::Connect(a) => format!("dial {}", a), Io::Disconnect(a, r) => format!("disconnect {} ({:?})", a, r), Io::SetTimer(t) => format!("timer {:?}", t), Io::Event(e) => { let s = format!("{:?}", e); format!("event {}", s.chars().take(120).collect::<String>()) } } }
fn ios(v: &[Io]) -> String { format!("[{}]", v.iter().map(io_str).collect::<Vec<_>>().join("; ")) }

impl G {
    fn new(c: &mut Case) -> G {
        let params = Params::new(Network::Regtest.into());
        let mut w = World::new();
        let n = 1 + c.rng.usize(12);
        for _ in 0..n { let b = w.best; let mut r = c.rng.clone(); w.mine(&mut r, &b, true); c.rng = r; }
        let br = w.branch(&w.best);
        let known = c.rng.usize(br.len());
        let hs: Vec<BlockHeader> = br[..=known].iter().map(|h| w.get(h).block.header).collect();
        let fs: Vec<StoredHeader> = w.fs(&br[..=known]).iter().map(|(hash, header)| StoredHeader { hash: *hash, header: *header }).collect();
        let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(hs).unwrap()), params.clone(), &[]).unwrap();
        let fc = FilterCache::load(Memory::new(NonEmpty::from_vec(fs).unwrap())).unwrap();
        let now = LocalTime::from_secs(1_700_000_000);
        let net = *c.rng.pick(&[Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet]);
        let connect: Vec<SocketAddr> = (0..c.rng.usize(3)).map(|i| format!("45.{}.7.9:8333", i).parse().unwrap()).collect();
        let hook: Arc<Mutex<Hook>> = Arc::default();
        let h2 = hook.clone();
        let hooks = Hooks { on_message: Arc::new(move |a, m, _| { let mut h = h2.lock().unwrap(); h.calls.push((a, show(m))); if h.refuse { Err("refused") } else { Ok(()) } }), ..Hooks::default() };
        c.op(format!("node on {:?} with {} of {} blocks, persistent peers {:?}", net, known, br.len() - 1, connect));
        let cfg = Config { network: net, params, connect: connect.clone(), services: NET, hooks, limits: Limits { max_outbound_peers: 3, max_inbound_peers: 6, ..Limits::default() }, ..Config::default() };
        let sm = StateMachine::new(tree, fc, HashMap::new(), RefClock::from(AdjustedTime::<PeerId>::new(now)), fastrand::Rng::with_seed(c.rng.u64()), cfg);
        let mut g = G { sm, w, net, now, peers: BTreeMap::new(), dialing: BTreeSet::new(), n: 0, tip: br[known], txs: BTreeMap::new(), hook, todo: VecDeque::new(), sync: false, asked: BTreeSet::new() };
        g.sm.initialize(now);
        let o = g.out(c);
        for a in &connect { c.check(o.iter().filter(|i| matches!(i, Io::Connect(x) if x == a)).count() == 1, T, || format!("on initialisation the node does not dial its configured peer {} once: {}", a, ios(&o))); }
        c.check(o.iter().filter(|i| matches!(i, Io::Event(Event::Initializing))).count() == 1, T, || format!("no single Initializing event: {}", ios(&o)));
        c.check(o.iter().filter(|i| matches!(i, Io::Event(Event::Ready { tip, filter_tip, time }) if *tip == known as u64 && *filter_tip == known as u64 && *time == now)).count() == 1, T, || format!("no single Ready event for height {}: {}", known, ios(&o)));
        g.settle(c);
        g
    }
    fn height(&self) -> u64 { self.w.get(&self.tip).height }
    fn peer(&self, a: &SocketAddr) -> Option<Peer> {
        let p = self.peers.get(a)?;
        let (services, h, relay, ua) = p.version.clone()?;
        Some(Peer { addr: *a, local_addr: p.local, link: p.link, since: p.since, height: h as u64, services, user_agent: ua, relay })
    }
    fn negotiated(&self) -> Vec<SocketAddr> { self.peers.iter().filter(|x| x.1.up).map(|x| *x.0).collect() }
    /// everything the node wants done, and doing it
    fn out(&mut self, c: &mut Case) -> Vec<Io> {
        let mut o: Vec<Io> = vec![];
        while let Some(i) = self.sm.next() { o.push(i); if o.len() > 20_000 { c.fail(T, "the state machine never stops producing output"); return o; } }
        for i in &o {
            match i {
                Io::Write(a, m) => {
                    c.check(m.magic == self.net.magic(), T, || format!("{} was sent with magic {:x}, not the network's {:x}", show(&m.payload), m.magic, self.net.magic()));
                    if let NetworkMessage::GetHeaders(_) = m.payload { self.sync = true; }
                    if self.peers.contains_key(a) && !(self.peers[a].mute && matches!(m.payload, NetworkMessage::Inv(_))) { for r in answer(&self.w, self.tip, &m.payload) { self.todo.push_back((*a, r)); } }
                }
                Io::Connect(a) => { c.op(format!("  node dials {}", a)); self.dialing.insert(*a); self.sm.attempted(a); }
                _ => {}
            }
        }
        // what the parts report about a peer reaches the one that deals with it
        for i in &o {
            let (a, ok): (&SocketAddr, fn(&DisconnectReason) -> bool) = match i { Io::Event(Event::PeerTimedOut { addr }) => (addr, |r| matches!(r, DisconnectReason::PeerTimeout(_))), Io::Event(Event::PeerMisbehaved { addr, .. }) => (addr, |r| matches!(r, DisconnectReason::PeerMisbehaving(_))), _ => continue };
            if !self.peers.contains_key(a) { continue; }
            c.hit("reported peers");
            c.check(o.iter().any(|i| matches!(i, Io::Disconnect(x, r) if x == a && ok(r))), T, || format!("{}, but {} is not disconnected for it: {}", io_str(i), a, ios(&o)));
        }
        for i in &o {
            if let Io::Disconnect(a, r) = i {
                c.op(format!("  node disconnects {}: {:?}", a, r));
                self.dialing.remove(a);
                if self.peers.remove(a).is_some() { self.todo.retain(|x| x.0 != *a); self.gone(c, *a, Disconnect::StateMachine(r.clone())); }
            }
        }
        o
    }
    /// the transport reports the end of a connection
    fn gone(&mut self, c: &mut Case, a: SocketAddr, r: Disconnect<DisconnectReason>) {
        self.sm.disconnected(&a, r);
        let o = self.out(c);
        c.check(o.iter().filter(|i| matches!(i, Io::Event(Event::PeerDisconnected { addr, .. }) if *addr == a)).count() == 1, T, || format!("the end of the connection with {} is not reported once: {}", a, ios(&o)));
    }
    fn send(&mut self, a: SocketAddr, magic: u32, m: &NetworkMessage) { self.sm.message_received(&a, Cow::Owned(RawNetworkMessage { magic, payload: m.clone() })); }
    /// a message the node accepts
    fn say(&mut self, c: &mut Case, a: SocketAddr, m: NetworkMessage) -> Vec<Io> {
        c.op(format!("{} -> {}", a, show(&m)));
        self.hook.lock().unwrap().calls.clear();
        self.send(a, self.net.magic(), &m);
        let calls = std::mem::take(&mut self.hook.lock().unwrap().calls);
        c.check(calls == vec![(a, show(&m))], T, || format!("the user's hook was called for {:?}", calls));
        self.out(c)
    }
    /// the peers answer what they were asked
    fn settle(&mut self, c: &mut Case) {
        let mut n = 0;
        while let Some((a, m)) = self.todo.pop_front() {
            n += 1;
            if n > 2000 || !c.fails.is_empty() { return; }
            if !self.peers.contains_key(&a) { continue; }
            if let NetworkMessage::Headers(_) = m { self.sync = false; }
            self.say(c, a, m);
        }
    }
    fn up(&mut self, c: &mut Case, a: SocketAddr, link: Link) {
        c.op(format!("{} connected ({:?})", a, link));
        self.dialing.remove(&a);
        let local: SocketAddr = "44.0.0.1:18444".parse().unwrap();
        self.peers.insert(a, Pr { mute: c.rng.chance(1, 5), link, since: self.now, local, version: None, up: false });
        self.sm.connected(a, &local, link);
        let o = self.out(c);
        c.check(o.iter().filter(|i| matches!(i, Io::Event(Event::PeerConnected { addr, .. }) if *addr == a)).count() == 1, T, || format!("the connection of {} is not reported once: {}", a, ios(&o)));
    }
    fn version(&mut self, c: &mut Case, a: SocketAddr) {
        let s = *c.rng.pick(&[NET | CF, NET | CF, NET | CF, NET]);
        let (h, relay, n) = (c.rng.below(self.height() + 1) as i32, c.rng.chance(2, 3), c.rng.u64());
        let mut v = version_msg(s, h, n, self.now, relay);
        v.user_agent = format!("/peer{}/", self.n);
        let ua = v.user_agent.clone();
        if let Some(p) = self.peers.get_mut(&a) { p.version = Some((s, h, relay, ua)); }
        self.say(c, a, NetworkMessage::Version(v));
    }
    fn verack(&mut self, c: &mut Case, a: SocketAddr) {
        let o = self.say(c, a, NetworkMessage::Verack);
        c.check(o.iter().filter(|i| matches!(i, Io::Event(Event::PeerNegotiated { addr, .. }) if *addr == a)).count() == 1, T, || format!("the handshake with {} is not reported once: {}", a, ios(&o)));
        c.check(o.iter().filter(|i| matches!(i, Io::Write(x, m) if *x == a && matches!(m.payload, NetworkMessage::Ping(_)))).count() == 1, T, || format!("{} is not pinged after its handshake: {}", a, ios(&o)));
        if let Some(p) = self.peers.get_mut(&a) { p.up = true; }
    }
    fn probe(&mut self, c: &mut Case, a: SocketAddr) {
        let br = self.w.branch(&self.tip);
        let to = |o: &Vec<Io>, f: &dyn Fn(&NetworkMessage) -> bool| o.iter().filter(|i| matches!(i, Io::Write(x, m) if *x == a && f(&m.payload))).count();
        match c.rng.below(10) {
            0 => { let n = c.rng.u64(); let o = self.say(c, a, NetworkMessage::Ping(n)); c.check(to(&o, &|m| matches!(m, NetworkMessage::Pong(k) if *k == n)) == 1, T, || format!("a ping was not answered once: {}", ios(&o))); }
            1 => { let o = self.say(c, a, NetworkMessage::GetAddr); c.check(to(&o, &|m| matches!(m, NetworkMessage::Addr(_))) == 1, T, || format!("a getaddr was not answered once: {}", ios(&o))); }
            2 => if !self.sync && br.len() > 1 {
                let o = self.say(c, a, NetworkMessage::GetHeaders(GetHeadersMessage { version: 1, locator_hashes: vec![br[0]], stop_hash: BlockHash::all_zeros() }));
                let hs: Vec<BlockHeader> = br[1..].iter().map(|h| self.w.get(h).block.header).collect();
                c.check(to(&o, &|m| matches!(m, NetworkMessage::Headers(v) if *v == hs)) == 1, T, || format!("a getheaders was not answered once: {}", ios(&o)));
            },
            3 => if self.filters_synced() {
                let o = self.say(c, a, NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: 0, start_height: 0, stop_hash: self.tip }));
                c.check(to(&o, &|m| matches!(m, NetworkMessage::CFHeaders(v) if v.stop_hash == self.tip && v.filter_hashes.len() == br.len())) == 1, T, || format!("a getcfheaders was not answered once: {}", ios(&o)));
            },
            4 => if let Some((id, tx)) = self.txs.iter().next_back().map(|(i, t)| (*i, t.clone())) {
                let o = self.say(c, a, NetworkMessage::GetData(vec![Inventory::Transaction(id)]));
                c.check(to(&o, &|m| matches!(m, NetworkMessage::Tx(t) if *t == tx)) == 1, T, || format!("a submitted transaction was not served once: {}", ios(&o)));
            },
            5 => { c.hit("misbehaviour"); let m = NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: 7, start_height: 0, stop_hash: self.tip }); let o = self.say(c, a, m); c.check(o.iter().any(|i| matches!(i, Io::Event(Event::PeerMisbehaved { addr, .. }) if *addr == a)), T, || format!("asking for filters of an unknown type went by: {}", ios(&o))); }
            6 => for _ in 0..5 { self.wake(c, 61_000); self.settle(c); },
            _ => { self.say(c, a, NetworkMessage::MemPool); }
        }
    }
    /// every filter header is known when a peer could be asked for it and answered
    fn filters_synced(&mut self) -> bool {
        let (s, r) = chan::unbounded();
        let h = self.height();
        self.sm.command(Command::RequestFilters(h..=h, s));
        let ok = matches!(r.try_recv(), Ok(Ok(())));
        ok
    }
    fn tx(&mut self, c: &mut Case) -> Transaction {
        Transaction { version: 2, lock_time: PackedLockTime(c.rng.u64() as u32), input: vec![TxIn { previous_output: OutPoint::new(Txid::hash(&c.rng.bytes(5)), 0), script_sig: Script::new(), sequence: Sequence::MAX, witness: Witness::new() }], output: vec![TxOut { value: 1000, script_pubkey: script(c.rng.below(14)) }] }
    }
    fn command(&mut self, c: &mut Case) {
        let br = self.w.branch(&self.tip);
        let all = self.w.branch(&self.w.best);
        fn one<T: std::fmt::Debug>(c: &mut Case, r: chan::Receiver<T>, ok: impl FnOnce(&T) -> bool, what: String) {
            let v: Vec<T> = r.try_iter().collect();
            c.check(v.len() == 1 && ok(&v[0]), T_, || format!("{}: replied {:?}", what, v));
        }
        const T_: &str = T;
        c.op(format!("(height {})", self.height()));
        match c.rng.below(15) {
            0 => { let (s, r) = chan::unbounded(); let h = c.rng.below(all.len() as u64 + 2); c.hit("GetBlockByHeight"); self.sm.command(Command::GetBlockByHeight(h, s)); let e = br.get(h as usize).map(|x| self.w.get(x).block.header); one(c, r, |v| *v == e, format!("GetBlockByHeight({})", h)); }
            1 => { let (s, r) = chan::unbounded(); let i = c.rng.usize(all.len()); let h = if c.rng.chance(1, 6) { BlockHash::all_zeros() } else { all[i] }; c.hit("GetBlockByHash"); self.sm.command(Command::GetBlockByHash(h, s)); let e = br.iter().position(|x| *x == h).map(|k| (k as u64, self.w.get(&h).block.header)); one(c, r, |v| *v == e, format!("GetBlockByHash({})", h)); }
            2 => { let (s, r) = chan::unbounded(); c.hit("GetTip"); self.sm.command(Command::GetTip(s)); let mut work = self.w.get(&br[0]).block.header.work(); for h in &br[1..] { work = work + self.w.get(h).block.header.work(); } let e = (self.height(), self.w.get(&self.tip).block.header, work); one(c, r, |v| *v == e, "GetTip".into()); }
            3 => {
                let (s, r) = chan::unbounded();
                let f = *c.rng.pick(&[NET, CF, NET | CF, ServiceFlags::NONE]);
                c.hit("GetPeers");
                self.sm.command(Command::GetPeers(f, s));
                let mut e: Vec<String> = self.negotiated().iter().filter_map(|a| self.peer(a)).filter(|p| p.services.has(f)).map(|p| format!("{:?}", p)).collect();
                e.sort();
                let es = e.clone();
                one(c, r, move |v: &Vec<Peer>| { let mut v: Vec<String> = v.iter().map(|p| format!("{:?}", p)).collect(); v.sort(); v == e }, format!("GetPeers({:?}), expected {:?}", f, es));
            }
            4 => {
                let a = self.addr(c);
                let known = self.peers.contains_key(&a) || self.dialing.contains(&a);
                c.op(format!("command: connect {}", a)); c.hit("Connect");
                self.sm.command(Command::Connect(a));
                let o = self.out(c);
                c.check(o.iter().filter(|i| matches!(i, Io::Connect(x) if *x == a)).count() == (!known) as usize && !o.iter().any(|i| matches!(i, Io::Disconnect(..) | Io::Write(..))), T, || format!("command to connect to {} ({}): {}", a, if known { "known" } else { "new" }, ios(&o)));
            }
            5 => {
                let a = self.addr(c);
                let known = self.peers.contains_key(&a);
                c.op(format!("command: disconnect {}", a)); c.hit("Disconnect");
                self.sm.command(Command::Disconnect(a));
                let o = self.out(c);
                c.check(if known { o.len() == 1 && matches!(&o[0], Io::Disconnect(x, DisconnectReason::Command) if *x == a) } else { o.is_empty() }, T, || format!("command to disconnect from {} ({}): {}", a, if known { "connected" } else { "not connected" }, ios(&o)));
            }
            6 => {
                let (s, r) = chan::unbounded();
                let f: fn(Peer) -> bool = *c.rng.pick(&[(|_| true) as fn(Peer) -> bool, |_| false, |p| p.is_outbound(), |p| p.relay, |p| p.height > 2, |p| p.services.has(CF)]);
                let m = NetworkMessage::Ping(c.rng.u64());
                c.hit("Broadcast");
                c.op("command: broadcast");
                self.sm.command(Command::Broadcast(m.clone(), f, s));
                let e: BTreeSet<SocketAddr> = self.peers.keys().filter_map(|a| self.peer(a)).filter(|p| f(p.clone())).map(|p| p.addr).collect();
                let o = self.out(c);
                let w: Vec<SocketAddr> = o.iter().filter_map(|i| match i { Io::Write(a, x) if x.payload == m => Some(*a), _ => None }).collect();
                c.check(w.len() == e.len() && w.iter().cloned().collect::<BTreeSet<_>>() == e && o.len() == w.len(), T, || format!("broadcast to {:?}: {}", e, ios(&o)));
                one(c, r, |v| *v == w, format!("Broadcast (to {:?})", w));
                self.todo.clear();
            }
            7 => {
                let (s, r) = chan::unbounded();
                let k = br.len() + 1 + c.rng.usize(3);
                let hs: Vec<BlockHeader> = all[br.len().min(all.len())..k.min(all.len())].iter().map(|h| self.w.get(h).block.header).collect();
                if hs.is_empty() { return; }
                c.op(format!("command: import {} header(s)", hs.len())); c.hit("ImportHeaders");
                self.sm.command(Command::ImportHeaders(hs.clone(), s));
                let last = hs.last().unwrap().block_hash();
                self.tip = last;
                one(c, r, |v| matches!(v, Ok(ImportResult::TipChanged { hash, .. }) if *hash == last), "ImportHeaders".into());
                let o = self.out(c);
                c.check(o.iter().filter(|i| matches!(i, Io::Event(Event::BlockHeadersImported { .. }))).count() == 1, T, || format!("an import is not reported once: {}", ios(&o)));
                self.settle(c);
            }
            8 => {
                let (s, r) = chan::unbounded();
                let tx = if c.rng.chance(1, 4) && !self.txs.is_empty() { self.txs.values().next().unwrap().clone() } else { self.tx(c) };
                c.op(format!("command: submit {}", tx.txid())); c.hit("SubmitTransaction");
                self.txs.insert(tx.txid(), tx.clone());
                self.sm.command(Command::SubmitTransaction(tx, s));
                let e: BTreeSet<SocketAddr> = self.negotiated().into_iter().filter(|a| self.peers[a].version.as_ref().map_or(false, |v| v.2)).collect();
                let es = e.clone();
                one(c, r, move |v: &Result<NonEmpty<PeerId>, CommandError>| match v { Ok(v) => v.len() == e.len() && v.iter().cloned().collect::<BTreeSet<_>>() == e, Err(CommandError::NotConnected) => e.is_empty() }, format!("SubmitTransaction, expected {:?}", es));
                let o = self.out(c);
                c.check(!o.iter().any(|i| matches!(i, Io::Disconnect(..) | Io::Connect(..))), T, || ios(&o));
            }
            9 => { let (s, r) = chan::unbounded(); let id = if c.rng.chance(1, 3) || self.txs.is_empty() { Txid::all_zeros() } else { let v: Vec<Txid> = self.txs.keys().cloned().collect(); *c.rng.pick(&v) }; c.hit("GetSubmittedTransaction"); self.sm.command(Command::GetSubmittedTransaction(id, s)); let e = self.txs.get(&id).cloned(); one(c, r, |v| *v == e, format!("GetSubmittedTransaction({})", id)); }
            10 => {
                let n = Arc::new(Mutex::new(vec![]));
                let n2 = n.clone();
                c.hit("QueryTree");
                self.sm.command(Command::QueryTree(Arc::new(move |t| n2.lock().unwrap().push((t.height(), t.tip().0)))));
                let v = n.lock().unwrap().clone();
                c.check(v == vec![(self.height(), self.tip)], T, || format!("a query saw {:?}, expected ({}, {})", v, self.height(), self.tip));
            }
            11 => {
                let (s, r) = chan::unbounded();
                let (a, b) = (c.rng.below(self.height() + 1), c.rng.below(self.height() + 1));
                let cf = self.negotiated().iter().any(|a| self.peers[a].link == Link::Outbound && self.peers[a].version.as_ref().map_or(false, |v| v.0.has(CF)));
                let synced = self.filters_synced();
                self.out(c);
                c.op(format!("command: filters {}..={}", a, b)); c.hit("RequestFilters");
                self.sm.command(Command::RequestFilters(a..=b, s));
                one(c, r, |v| match v { Ok(()) => cf && a <= b, Err(GetFiltersError::NotConnected) => !cf, Err(GetFiltersError::InvalidRange) => cf && (a > b || !synced) }, format!("RequestFilters({}..={}), outbound filter peers: {}", a, b, cf));
                let o = self.out(c);
                c.check(cf && a <= b || o.is_empty(), T, || ios(&o));
                self.todo.clear();
            }
            12 => {
                // a block of the chain, asked for once
                let h = *c.rng.pick(&br);
                if self.peers.is_empty() || !self.asked.insert(h) { return; }
                c.op(format!("command: block {}", h)); c.hit("RequestBlock");
                self.sm.command(Command::RequestBlock(h));
                self.out(c);
                let any = !self.negotiated().is_empty();
                let o = self.wake(c, 1000);
                let k = o.iter().filter(|i| matches!(i, Io::Write(_, m) if m.payload == NetworkMessage::GetData(vec![Inventory::Block(h)]))).count();
                c.check(k == any as usize, T, || format!("block {} requested by the user was asked for {} times: {}", h, k, ios(&o)));
                if !any { self.asked.remove(&h); }
                self.settle(c);
            }
            13 => {
                self.n += 1;
                let a: SocketAddr = format!("46.{}.3.3:8333", self.n).parse().unwrap();
                c.op(format!("command: import address {}", a)); c.hit("ImportAddresses");
                self.sm.command(Command::ImportAddresses(vec![Address::new(&a, NET | CF)]));
                let o = self.out(c);
                c.check(!o.iter().any(|i| matches!(i, Io::Write(..) | Io::Disconnect(..))), T, || ios(&o));
                if let Some(p) = self.negotiated().first().cloned() {
                    let o = self.say(c, p, NetworkMessage::GetAddr);
                    c.check(o.iter().any(|i| matches!(i, Io::Write(x, m) if *x == p && matches!(&m.payload, NetworkMessage::Addr(v) if v.iter().any(|y| y.1.socket_addr().ok() == Some(a))))), T, || format!("imported address {} is not known: {}", a, ios(&o)));
                }
            }
            _ => { c.hit("Watch"); self.sm.command(Command::Watch { watch: vec![script(c.rng.below(14))] }); let o = self.out(c); c.check(o.is_empty(), T, || format!("watching a script made the node: {}", ios(&o))); }
        }
    }
    fn wake(&mut self, c: &mut Case, ms: u64) -> Vec<Io> {
        self.now = self.now + LocalDuration::from_millis(ms as u128);
        c.op(format!("+ {} ms, timer", ms));
        self.sm.tick(self.now);
        self.sm.timer_expired();
        self.out(c)
    }
    fn addr(&mut self, c: &mut Case) -> SocketAddr {
        let v: Vec<SocketAddr> = self.peers.keys().chain(self.dialing.iter()).cloned().collect();
        if v.is_empty() || c.rng.chance(1, 3) { self.n += 1; format!("44.{}.7.7:8333", self.n).parse().unwrap() } else { *c.rng.pick(&v) }
    }
    fn any(&mut self, c: &mut Case) -> NetworkMessage {
        match c.rng.below(8) { 0 => NetworkMessage::Verack, 1 => NetworkMessage::Ping(c.rng.u64()), 2 => NetworkMessage::GetAddr, 3 => NetworkMessage::Version(version_msg(NET | CF, 3, c.rng.u64(), self.now, true)), 4 => NetworkMessage::GetHeaders(GetHeadersMessage { version: 1, locator_hashes: vec![self.w.genesis], stop_hash: BlockHash::all_zeros() }), 5 => NetworkMessage::Inv(vec![Inventory::Block(self.w.best)]), 6 => NetworkMessage::Headers(self.w.branch(&self.w.best)[1..].iter().map(|h| self.w.get(h).block.header).collect()), _ => NetworkMessage::GetData(self.txs.keys().map(|t| Inventory::Transaction(*t)).collect()) }
    }
    fn step(&mut self, c: &mut Case) {
        let io = || Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        match c.rng.below(30) {
            0 | 1 => {
                let a = self.addr(c);
                let m = self.any(c);
                let magic = match c.rng.below(4) { 0 => 0, 1 => self.net.magic() ^ (1 << c.rng.below(32)), 2 => self.net.magic().swap_bytes(), _ => { let n = [Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet]; n.iter().map(|x| x.magic()).find(|x| *x != self.net.magic()).unwrap() } };
                if magic == self.net.magic() { return; }
                let on = self.peers.contains_key(&a);
                c.op(format!("{} -> {} with magic {:x}", a, show(&m), magic)); c.hit("wrong magic");
                self.send(a, magic, &m);
                let o = self.out(c);
                c.check(if on { o.len() == 1 && matches!(&o[0], Io::Disconnect(x, DisconnectReason::PeerMagic(k)) if *x == a && *k == magic) } else { o.is_empty() }, T, || format!("after a message of another network from {} ({}): {}", a, if on { "connected" } else { "not connected" }, ios(&o)));
            }
            2 | 3 => {
                let a = if c.rng.chance(1, 2) && !self.dialing.is_empty() { *self.dialing.iter().next().unwrap() } else { self.n += 1; format!("44.{}.7.7:8333", self.n).parse().unwrap() };
                let m = self.any(c);
                c.op(format!("{} (not connected) -> {}", a, show(&m))); c.hit("stranger");
                self.send(a, self.net.magic(), &m);
                let o = self.out(c);
                c.check(o.is_empty(), T, || format!("after a message from {}, which is not connected: {}", a, ios(&o)));
            }
            4 | 5 => {
                let v: Vec<SocketAddr> = self.peers.keys().cloned().collect();
                if v.is_empty() { return; }
                let a = *c.rng.pick(&v);
                let m = self.any(c);
                c.op(format!("{} -> {} (refused by the hook)", a, show(&m))); c.hit("refused");
                self.hook.lock().unwrap().refuse = true;
                self.send(a, self.net.magic(), &m);
                self.hook.lock().unwrap().refuse = false;
                let o = self.out(c);
                c.check(o.is_empty(), T, || format!("after a message from {} refused by the user's hook: {}", a, ios(&o)));
            }
            6..=8 => {
                let v: Vec<SocketAddr> = self.dialing.iter().cloned().collect();
                if !v.is_empty() && c.rng.chance(2, 3) { let a = *c.rng.pick(&v); self.up(c, a, Link::Outbound); }
                else if self.peers.len() < 6 { self.n += 1; let ip = match self.peers.keys().next() { Some(a) if c.rng.chance(1, 3) => a.ip(), _ => format!("44.{}.7.7", self.n).parse().unwrap() }; let a = SocketAddr::new(ip, 30000 + self.n as u16); self.up(c, a, Link::Inbound); }
            }
            9..=13 => {
                let v: Vec<SocketAddr> = self.peers.iter().filter(|p| !p.1.up).map(|p| *p.0).collect();
                if v.is_empty() { return; }
                let a = *c.rng.pick(&v);
                if self.peers[&a].version.is_none() { self.version(c, a); } else { self.verack(c, a); }
                self.settle(c);
            }
            14 => { let v: Vec<SocketAddr> = self.peers.keys().cloned().collect(); if v.is_empty() { return; } let a = *c.rng.pick(&v); c.op(format!("{} is lost", a)); self.peers.remove(&a); self.todo.retain(|x| x.0 != a); self.gone(c, a, Disconnect::ConnectionError(io())); }
            15..=18 => { let v = self.negotiated(); if v.is_empty() { return; } let a = *c.rng.pick(&v); self.probe(c, a); self.settle(c); }
            19 => {
                // peers that said nothing are dropped now
                let v = self.negotiated();
                let o = self.wake(c, 121_000);
                for a in v { c.check(o.iter().filter(|i| matches!(i, Io::Write(x, m) if *x == a && matches!(m.payload, NetworkMessage::Ping(_)))).count() == 1, T, || format!("two minutes later {} is not pinged: {}", a, ios(&o))); }
                self.settle(c);
            }
            _ => self.command(c),
        }
    }
}
pub fn glue(c: &mut Case) {
    let mut g = G::new(c);
    for _ in 0..60 + c.rng.usize(100) {
        g.step(c);
        if !c.fails.is_empty() { return; }
    }
}
