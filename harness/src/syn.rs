//! Header synchronisation: the real `StateMachine` on a tree of headers, with simulated peers that announce,
//! answer, stall and lie, judged step by step by a reference written from the property statement.
use crate::node::*;
use crate::util::*;
use crossbeam_channel as chan;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::FilterCache;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::TxMerkleNode;
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::store::Genesis;
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::tree::BlockReader;
use nakamoto_common::block::{BlockHash, BlockHeader};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::KnownAddress;
use nakamoto_net::{Disconnect, Link, StateMachine as _};
use nakamoto_p2p::fsm::{Command, Config, DisconnectReason, Event, Io, PeerId, StateMachine};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::net::{IpAddr, SocketAddr};
use std::sync::{Arc, Mutex};

type Tree = BlockCache<Memory<BlockHeader>>;
type Filt = FilterCache<Memory<nakamoto_chain::filter::cache::StoredHeader>>;
type Sm = StateMachine<Tree, Filt, HashMap<IpAddr, KnownAddress>, RefClock<AdjustedTime<PeerId>>>;
type Locs = (Vec<BlockHash>, BlockHash);
const NOW: u64 = 1_700_000_000;

/// all headers anyone has mined
#[derive(Clone)]
struct World { hs: Arc<HashMap<BlockHash, (BlockHeader, u64)>>, own: HashMap<BlockHash, (BlockHeader, u64)>, genesis: BlockHash, best: BlockHash }
impl World {
    fn new() -> World {
        let g = Network::Regtest.genesis();
        let mut hs = HashMap::new();
        hs.insert(g.block_hash(), (g, 0));
        World { hs: Arc::new(hs), own: HashMap::new(), genesis: g.block_hash(), best: g.block_hash() }
    }
    fn get(&self, h: &BlockHash) -> Option<&(BlockHeader, u64)> { self.own.get(h).or_else(|| self.hs.get(h)) }
    fn height(&self, h: &BlockHash) -> u64 { self.get(h).unwrap().1 }
    fn mine(&mut self, rng: &mut Rng, parent: &BlockHash, time: u32) -> BlockHash {
        let (p, ph) = *self.get(parent).unwrap();
        let mut h = BlockHeader { version: 1, prev_blockhash: *parent, merkle_root: TxMerkleNode::hash(&rng.u64().to_le_bytes()), time: time.max(p.time + 1), bits: 0x207fffff, nonce: 0 };
        while !crate::chain::pow_ok(&h) { h.nonce += 1; }
        let hash = h.block_hash();
        self.own.insert(hash, (h, ph + 1));
        if ph + 1 > self.height(&self.best.clone()) { self.best = hash; }
        hash
    }
    fn branch(&self, tip: &BlockHash) -> Vec<BlockHash> {
        let mut v = vec![*tip];
        let mut h = *tip;
        while h != self.genesis { h = self.get(&h).unwrap().0.prev_blockhash; v.push(h); }
        v.reverse();
        v
    }
    fn heads(&self, v: &[BlockHash]) -> Vec<BlockHeader> { v.iter().map(|h| self.get(h).unwrap().0).collect() }
}
fn long_world() -> World {
    static W: std::sync::OnceLock<World> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let mut w = World::new();
        let mut r = Rng::new(78);
        for i in 0..4100u64 { let b = w.best; w.mine(&mut r, &b, (NOW - (4100 - i) * 300) as u32); }
        World { hs: Arc::new(w.own.into_iter().chain(w.hs.iter().map(|(k, v)| (*k, *v))).collect()), own: HashMap::new(), ..World { hs: w.hs.clone(), own: HashMap::new(), genesis: w.genesis, best: w.best } }
    }).clone()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ot { Disconnect, Ignore, Retry(usize) }
#[derive(Clone)]
struct P { link: Link, services: ServiceFlags, up: bool, start: u64, tip: BlockHash, inbox: VecDeque<NetworkMessage>, pongs: Vec<u64>,
    /// known to the sync manager, with this height
    reg: Option<u64>, asked: Option<Locs> }
#[derive(Default)]
struct Out { gets: Vec<(SocketAddr, Locs)>, heads: Vec<(SocketAddr, Vec<BlockHash>)>, evs: Vec<String>, synced: Vec<(BlockHash, u64)>, heights: Vec<u64>, bad: Vec<SocketAddr>, drops: BTreeSet<SocketAddr>, joined: Option<SocketAddr>, gone: Vec<SocketAddr> }
struct S {
    sm: Sm, w: World, now: LocalTime, peers: BTreeMap<SocketAddr, P>, next: u32,
    // model
    chain: Vec<BlockHash>, locs: Vec<BlockHash>,
    inflight: BTreeMap<SocketAddr, (Locs, LocalTime, Ot)>,
    tip_update: Option<LocalTime>, sample: Option<LocalTime>, idle: Option<LocalTime>,
}
enum In { Msg(SocketAddr, NetworkMessage), Up(SocketAddr), Down(SocketAddr), Timer, Import(Vec<BlockHeader>) }
fn zero() -> BlockHash { BlockHash::all_zeros() }
fn secs(n: u64) -> LocalDuration { LocalDuration::from_secs(n) }

impl S {
    fn new(c: &mut Case, w: World, known: usize) -> S {
        let params = Params::new(Network::Regtest.into());
        let br = w.branch(&w.best);
        let chain = br[..=known].to_vec();
        let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(w.heads(&chain)).unwrap()), params.clone(), &[]).unwrap();
        let now = LocalTime::from_secs(NOW);
        let cfg = Config { network: Network::Regtest, params, services: NET, ..Config::default() };
        let f = FilterCache::load(Memory::genesis(Network::Regtest)).unwrap();
        let sm = StateMachine::new(tree, f, HashMap::new(), RefClock::from(AdjustedTime::<PeerId>::new(now)), fastrand::Rng::with_seed(c.rng.u64()), cfg);
        let mut s = S { sm, w, now, peers: BTreeMap::new(), next: 1, chain, locs: vec![], inflight: BTreeMap::new(), tip_update: None, sample: None, idle: None };
        c.op(format!("node starts at {} with {} header(s)", now.as_secs(), known));
        s.sm.initialize(now);
        let o = s.drain(c);
        c.check(o.gets.is_empty(), "C16", || "headers are requested without peers".into());
        s.look();
        s.idle = Some(now);
        if s.stale() { s.sample = Some(now); }
        s
    }
    fn height(&self) -> u64 { self.chain.len() as u64 - 1 }
    fn stale(&self) -> bool {
        let t = self.w.get(self.chain.last().unwrap()).unwrap().0.time as u64;
        self.tip_update.map_or(false, |t| t.as_secs() + 1800 < self.now.as_secs()) || t + 7200 <= self.now.as_secs()
    }
    fn best(&self) -> Option<u64> { self.peers.values().filter_map(|p| p.reg).max() }
    fn query<R: Send + 'static>(&mut self, f: impl Fn(&dyn BlockReader) -> R + Send + Sync + 'static) -> R {
        let out = Arc::new(Mutex::new(None));
        let o = out.clone();
        self.sm.command(Command::QueryTree(Arc::new(move |t: &dyn BlockReader| { *o.lock().unwrap() = Some(f(t)); })));
        let r = out.lock().unwrap().take().unwrap();
        r
    }
    /// the node's chain and the locators of its tip
    fn look(&mut self) {
        let (tip, h, l) = self.query(|t| (t.tip().0, t.height(), t.locator_hashes(t.height())));
        if self.chain.last() != Some(&tip) || self.height() != h { self.chain = self.query(|t| t.iter().map(|(_, h)| h.block_hash()).collect()); }
        self.locs = l;
    }
    fn drain(&mut self, c: &mut Case) -> Out {
        let mut o = Out::default();
        let mut n = 0;
        while let Some(io) = self.sm.next() {
            n += 1;
            if n > 100_000 { c.fail("C20", "the state machine never stops producing output"); break; }
            match io {
                Io::Write(a, m) => match m.payload {
                    NetworkMessage::GetHeaders(g) => {
                        c.op(format!("  {} <- getheaders({} locators from {:?}, stop {})", a, g.locator_hashes.len(), g.locator_hashes.first(), g.stop_hash));
                        o.gets.push((a, (g.locator_hashes, g.stop_hash)));
                    }
                    NetworkMessage::Headers(v) => { c.op(format!("  {} <- {} headers", a, v.len())); o.heads.push((a, v.iter().map(|h| h.block_hash()).collect())); }
                    NetworkMessage::Ping(n) => { if let Some(p) = self.peers.get_mut(&a) { p.pongs.push(n); } }
                    NetworkMessage::Version(_) => if let Some(p) = self.peers.get_mut(&a) {
                        if p.link == Link::Outbound { p.inbox.push_back(NetworkMessage::Version(version_msg(p.services, p.start as i32, c.rng.u64(), self.now, true))); }
                        p.inbox.push_back(NetworkMessage::Verack);
                    },
                    _ => {}
                },
                Io::Disconnect(a, r) => {
                    c.op(format!("  node disconnects {}: {}", a, r));
                    if matches!(r, DisconnectReason::PeerTimeout("getheaders")) { o.drops.insert(a); }
                    if self.peers.get(&a).map_or(false, |p| p.up) { self.peers.get_mut(&a).unwrap().up = false; o.gone.push(a); self.sm.disconnected(&a, r.into()); }
                }
                Io::Event(e) => match e {
                    Event::BlockConnected { height, header } => o.evs.push(format!("connected {} {}", height, header.block_hash())),
                    Event::BlockDisconnected { height, header } => o.evs.push(format!("disconnected {} {}", height, header.block_hash())),
                    Event::BlockHeadersImported { reorg, hash, height, connected, reverted } => {
                        c.op(format!("  event: headers imported up to {} {}", height, hash));
                        let f = |v: Vec<(u64, BlockHeader)>| v.into_iter().map(|(h, b)| format!("{} {}", h, b.block_hash())).collect::<Vec<_>>().join(",");
                        o.evs.push(format!("imported {} {} {} +[{}] -[{}]", reorg, height, hash, f(connected.into_iter().collect()), f(reverted)));
                    }
                    Event::BlockHeadersSynced { hash, height } => { c.op(format!("  event: synced at {}", height)); o.synced.push((hash, height)); }
                    Event::PeerHeightUpdated { height } => o.heights.push(height),
                    Event::PeerMisbehaved { addr, reason } => { c.op(format!("  event: {} misbehaved: {}", addr, reason)); o.bad.push(addr); }
                    Event::PeerNegotiated { addr, .. } => o.joined = Some(addr),
                    _ => {}
                },
                _ => {}
            }
        }
        o
    }
    fn live(&self) -> Vec<SocketAddr> { self.peers.iter().filter(|(_, p)| p.up).map(|(a, _)| *a).collect() }
    fn regs(&self) -> Vec<SocketAddr> { self.peers.iter().filter(|(_, p)| p.reg.is_some()).map(|(a, _)| *a).collect() }
    fn candidate(&self, a: &SocketAddr, l: &[BlockHash]) -> bool {
        let p = &self.peers[a];
        p.reg.is_some() && !self.inflight.contains_key(a) && p.link == Link::Outbound && p.asked.as_ref().map_or(true, |x| x.0 != l)
    }
    /// the node asked `a`: note it
    fn note(&mut self, a: SocketAddr, l: Locs, ot: Ot) {
        self.peers.get_mut(&a).unwrap().asked = Some(l.clone());
        self.inflight.insert(a, (l, self.now, ot));
    }
    fn take(&self, o: &mut Out, f: impl Fn(&SocketAddr, &Locs) -> bool) -> Option<(SocketAddr, Locs)> {
        let i = o.gets.iter().position(|(a, l)| f(a, l))?;
        Some(o.gets.remove(i))
    }
    /// `a` is to be asked for `l` (unless it is unknown, or a question is open)
    fn must_ask(&mut self, c: &mut Case, o: &mut Out, a: SocketAddr, l: Locs, ot: Ot, why: &str) {
        if self.inflight.contains_key(&a) || self.peers[&a].reg.is_none() { return; }
        match self.take(o, |x, y| *x == a && *y == l) {
            Some(_) => { c.hit(why); self.note(a, l, ot); }
            None => c.fail("C16", format!("{} is not asked for headers ({})", a, why)),
        }
    }
    /// what an attempt to synchronise does; true if it asked someone
    fn sync(&mut self, c: &mut Case, o: &mut Out) -> bool {
        let best = match self.best() { Some(b) => b, None => return false };
        if !self.stale() && self.height() >= best {
            let want = (*self.chain.last().unwrap(), self.height());
            c.hit("synced");
            if o.synced.first() == Some(&want) { o.synced.remove(0); } else { c.fail("C16", format!("the node is in sync at {} but reports {:?}", want.1, o.synced)); }
            return false;
        }
        let l = (self.locs.clone(), zero());
        if self.inflight.values().any(|x| x.0 == l) { c.hit("sync-waits"); return false; }
        let pref: Vec<SocketAddr> = self.peers.iter().filter(|(_, p)| p.reg.is_some() && !p.services.has(CF)).map(|(a, _)| *a).collect();
        let good: Vec<SocketAddr> = pref.iter().filter(|a| self.candidate(a, &l.0) && self.peers[a].reg.unwrap() > self.height()).cloned().collect();
        let from = if good.is_empty() { pref } else { good };
        if from.is_empty() || best <= self.height() { return false; }
        match self.take(o, |a, x| from.contains(a) && *x == l) {
            Some((a, l)) => { c.check(!self.inflight.contains_key(&a), "C16", || format!("{} is asked again although it owes an answer", a)); c.hit("sync-asked"); self.note(a, l, Ot::Ignore); }
            // (a peer that already owes us an answer may have been picked)
            None => { let busy = from.iter().any(|a| self.inflight.contains_key(a)); c.check(busy, "C16", || format!("peers are at {}, we are at {}, but nobody is asked for headers", best, self.height())); }
        }
        true
    }
    fn tell(&mut self, c: &mut Case, o: &mut Out, twice: bool) {
        let tip = *self.chain.last().unwrap();
        let to: Vec<SocketAddr> = self.peers.iter().filter(|(_, p)| p.link == Link::Inbound && p.reg.map_or(false, |h| h < self.height())).map(|(a, _)| *a).collect();
        for a in &to {
            match o.heads.iter().position(|x| *x == (*a, vec![tip])) { Some(i) => { o.heads.remove(i); c.hit("tip-announced"); } None => c.check(twice, "C16", || format!("the new tip is not announced to {}, which does not have it", a)) }
        }
    }
    /// the chain changed from `old` to the present one: exactly that is reported
    fn changed(&mut self, c: &mut Case, o: &mut Out, old: &[BlockHash]) {
        let f = old.iter().zip(&self.chain).take_while(|(a, b)| a == b).count();
        let rev: Vec<String> = (f..old.len()).rev().map(|i| format!("{} {}", i, old[i])).collect();
        let con: Vec<String> = (f..self.chain.len()).map(|i| format!("{} {}", i, self.chain[i])).collect();
        let mut want: Vec<String> = vec![];
        if !con.is_empty() || !rev.is_empty() {
            want.extend(rev.iter().map(|x| format!("disconnected {}", x)));
            want.extend(con.iter().map(|x| format!("connected {}", x)));
            want.push(format!("imported {} {} {} +[{}] -[{}]", !rev.is_empty(), self.height(), self.chain.last().unwrap(), con.join(","), rev.join(",")));
            c.hit(if rev.is_empty() { "extended" } else { "reorg" });
        }
        if o.evs != want {
            let k = o.evs.iter().zip(&want).take_while(|(a, b)| a == b).count();
            c.fail("C16", format!("the chain changed but {:?} is reported instead of {:?} (event {} of {})", o.evs.get(k), want.get(k), k, want.len()));
        }
        o.evs.clear();
    }
    fn input(&mut self, c: &mut Case, i: In) {
        let old = self.chain.clone();
        // what the answer to a question of a peer must be, and whether a block is new to the node
        let mut served = None;
        let mut news = None;
        match &i {
            In::Msg(_, NetworkMessage::GetHeaders(g)) => { let (l, s) = (g.locator_hashes.clone(), g.stop_hash); served = Some(self.query(move |t| t.locate_headers(&l, s, 2000)).iter().map(|h| h.block_hash()).collect::<Vec<_>>()); }
            In::Msg(_, NetworkMessage::Inv(v)) => for x in v { if let Inventory::Block(h) = x { let h = *h; if !self.query(move |t| t.is_known(&h)) { news = Some(h); } } },
            _ => {}
        }
        match &i {
            In::Msg(a, m) => { c.op(format!("{} -> {}", a, show(m))); self.sm.message_received(a, Cow::Owned(RawNetworkMessage { magic: Network::Regtest.magic(), payload: m.clone() })); }
            In::Up(a) => {
                let link = self.peers[a].link;
                c.op(format!("{} connected ({:?}, {}, height {})", a, link, self.peers[a].services, self.peers[a].start));
                if link == Link::Outbound { self.sm.command(Command::Connect(*a)); self.sm.attempted(a); }
                self.peers.get_mut(a).unwrap().up = true;
                self.sm.connected(*a, &"44.0.0.1:18444".parse().unwrap(), link);
            }
            In::Down(a) => { c.op(format!("{} disconnected", a)); self.peers.get_mut(a).unwrap().up = false; self.sm.disconnected(a, Disconnect::ConnectionError(Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset)))); }
            In::Timer => { c.op(format!("timer at {}", self.now.as_secs())); self.sm.tick(self.now); self.sm.timer_expired(); }
            In::Import(v) => {
                c.op(format!("import {} headers", v.len()));
                let (tx, _rx) = chan::unbounded();
                self.sm.command(Command::ImportHeaders(v.clone(), tx));
            }
        }
        let mut o = self.drain(c);
        self.look();
        match &i {
            In::Msg(a, NetworkMessage::Headers(v)) => self.judge_headers(c, &mut o, *a, v, &old),
            In::Msg(a, NetworkMessage::GetHeaders(_)) => {
                let v = served.unwrap();
                if !v.is_empty() && self.inflight.is_empty() {
                    match o.heads.iter().position(|x| *x == (*a, v.clone())) { Some(i) => { o.heads.remove(i); c.hit("getheaders-served"); } None => c.fail("C16", format!("{} asked for headers; the answer is not the {} headers it lacks", a, v.len())) }
                }
            }
            In::Msg(a, NetworkMessage::Inv(v)) => if self.inflight.is_empty() && v.len() <= 50_000 { if let Some(h) = news { let l = (self.locs.clone(), h); self.must_ask(c, &mut o, *a, l, Ot::Retry(3), "asked-for-announced-block"); } },
            In::Down(a) => { self.inflight.remove(a); self.peers.get_mut(a).unwrap().reg = None; }
            In::Timer => self.judge_timer(c, &mut o),
            In::Import(_) => { let b = self.chain != old; self.changed(c, &mut o, &old); if b { self.tell(c, &mut o, false); } }
            _ => {}
        }
        if let Some(a) = o.joined {
            let p = &self.peers[&a];
            if p.link == Link::Inbound || p.services.has(NET) {
                let h = p.start;
                if h > self.best().unwrap_or(self.height()) { if o.heights == [h] { o.heights.clear(); } else { c.fail("C16", format!("{} is the highest peer, at {}, but {:?} is reported", a, h, o.heights)); } }
                self.peers.get_mut(&a).unwrap().reg = Some(h);
                self.peers.get_mut(&a).unwrap().asked = None;
                c.hit("joined");
                self.sync(c, &mut o);
            }
        }
        for a in &o.gone { self.inflight.remove(a); self.peers.get_mut(a).unwrap().reg = None; }
        // nothing else is done
        if let Some((a, l)) = o.gets.first() { let m = format!("{} is asked for headers ({} locators, stop {}) for no reason{}", a, l.0.len(), l.1, if self.inflight.contains_key(a) { ", and owes an answer already" } else { "" }); c.fail("C16", m); }
        if let Some((a, v)) = o.heads.first() { let m = format!("{} headers are sent to {} for no reason", v.len(), a); c.fail("C16", m); }
        if let Some(e) = o.evs.first() { let m = format!("unexpected event: {}", e); c.fail("C16", m); }
        if let Some(e) = o.synced.first() { let m = format!("reported in sync at {} although it is not ({} the best peer at {:?})", e.1, if self.stale() { "stale tip," } else { "" }, self.best()); c.fail("C16", m); }
        if let Some(h) = o.heights.first() { let m = format!("unexpected report of a peer at height {}", h); c.fail("C16", m); }
        if let Some(a) = o.bad.first() { let m = format!("{} is blamed for no reason", a); c.fail("C16", m); }
        if let Some(a) = o.drops.iter().next() { let m = format!("{} is dropped although it does not owe headers for so long", a); c.fail("C16", m); }
        let same = self.chain == old;
        let may = matches!(i, In::Msg(_, NetworkMessage::Headers(_)) | In::Import(_));
        c.check(same || may, "C16", || "the chain changed without headers having been received".into());
        // pings are answered at once
        let ps: Vec<(SocketAddr, u64)> = self.peers.iter_mut().flat_map(|(a, p)| { let a = *a; std::mem::take(&mut p.pongs).into_iter().map(move |n| (a, n)) }).collect();
        for (a, n) in ps { if self.peers[&a].up { self.input(c, In::Msg(a, NetworkMessage::Pong(n))); } }
    }
    fn judge_headers(&mut self, c: &mut Case, o: &mut Out, a: SocketAddr, v: &[BlockHeader], old: &[BlockHash]) {
        let asked = self.inflight.remove(&a).is_some();
        let mut same = |c: &mut Case, s: &S, why: &str| { c.hit(why); c.check(s.chain == old, "C16", || format!("headers to be ignored ({}) changed the chain", why)); };
        if v.is_empty() { return; }
        if v.len() > 2000 {
            same(c, self, "headers-too-many");
            match o.bad.iter().position(|x| *x == a) { Some(i) => { o.bad.remove(i); } None => c.fail("C16", format!("{} sent {} headers but is not blamed", a, v.len())) }
            return;
        }
        if v.len() > 24 && !asked { return same(c, self, "headers-unsolicited"); }
        if self.peers[&a].reg.is_none() { return same(c, self, "headers-before-handshake"); }
        let (first, last) = (v[0].block_hash(), v[v.len() - 1].block_hash());
        if old.contains(&last) { return same(c, self, "headers-known"); }
        if self.chain == old {
            // an invalid header ends the import, and nothing is asked
            if v.iter().any(|h| !crate::chain::pow_ok(h) || h.time as u64 > self.now.as_secs() + 7200) { c.hit("headers-invalid"); return; }
            c.hit("headers-lead-nowhere");
            let l = (self.locs.clone(), first);
            if self.peers[&a].asked.as_ref() != Some(&l) { self.must_ask(c, o, a, l, Ot::Ignore, "asked-for-ancestors"); } else { c.hit("not-asked-again"); }
            return;
        }
        // (the part of a batch before an invalid header may have been imported, silently: known finding of C05)
        if v.iter().any(|h| !crate::chain::pow_ok(h) || h.time as u64 > self.now.as_secs() + 7200) { c.hit("headers-partly-invalid"); o.evs.clear(); o.heads.clear(); return; }
        self.changed(c, o, old);
        self.tell(c, o, false);
        let h = self.height();
        let p = self.peers.get_mut(&a).unwrap();
        if h > p.reg.unwrap() { p.reg = Some(h); }
        self.tip_update = Some(self.now);
        if v.len() < 2000 { self.tell(c, o, true); self.sync(c, o); } else {
            let l = (vec![*self.chain.last().unwrap()], zero());
            self.must_ask(c, o, a, l, Ot::Disconnect, "asked-for-next-batch");
        }
    }
    fn judge_timer(&mut self, c: &mut Case, o: &mut Out) {
        let late: Vec<(SocketAddr, (Locs, LocalTime, Ot))> = self.inflight.iter().filter(|(_, x)| self.now - x.1 >= secs(30)).map(|(a, x)| (*a, x.clone())).collect();
        let alone = late.len() == 1;
        let mut force = false;
        let before: BTreeSet<SocketAddr> = late.iter().map(|x| x.0).collect();
        for (a, (l, _, ot)) in &late {
            // requests that are over are forgotten one after the other, in any order
            if alone { self.inflight.remove(a); }
            match ot {
                Ot::Ignore => c.hit("request-expired"),
                Ot::Disconnect | Ot::Retry(0) => {
                    force = true;
                    c.hit("request-expired-drop");
                    if !o.drops.remove(a) { c.fail("C16", format!("{} does not answer while we synchronise with it, but is kept", a)); }
                }
                Ot::Retry(n) => {
                    let to: Vec<SocketAddr> = self.peers.keys().filter(|x| *x != a && (self.candidate(x, &l.0) || (!alone && before.contains(x)))).cloned().collect();
                    match self.take(o, |x, y| to.contains(x) && y == l) {
                        Some((x, y)) => { c.hit("request-retried"); self.note(x, y, Ot::Retry(n - 1)); }
                        None => c.check(!alone || to.is_empty(), "C16", || format!("{} did not answer; {:?} could be asked instead, but are not", a, to)),
                    }
                }
            }
        }
        for (a, (l, t, ot)) in &late { if self.inflight.get(a) == Some(&(l.clone(), *t, *ot)) { self.inflight.remove(a); } }
        if force { self.sync(c, o); }
        else if self.idle.map_or(true, |t| self.now - t >= secs(600)) {
            c.hit("idle");
            if !self.sync(c, o) && self.sample.map_or(true, |t| self.now - t >= secs(3600)) && self.stale() {
                c.hit("sampled");
                self.sample = Some(self.now);
                let l = self.locs.clone();
                for a in self.regs() { if self.candidate(&a, &l) { self.must_ask(c, o, a, (l.clone(), zero()), Ot::Ignore, "sampled-peer"); } }
            }
            self.idle = Some(self.now);
        }
    }

    // -------------------------------------------------------------- actions
    fn new_peer(&mut self, c: &mut Case, link: Link, services: ServiceFlags, tip: BlockHash, start: u64) -> SocketAddr {
        let ip = self.next;
        self.next += 1;
        let a: SocketAddr = format!("44.{}.{}.{}:18444", 2 + ip / 62500, ip / 250 % 250, 1 + ip % 250).parse().unwrap();
        let mut inbox = VecDeque::new();
        if link == Link::Inbound { inbox.push_back(NetworkMessage::Version(version_msg(services, start as i32, c.rng.u64(), self.now, true))); }
        self.peers.insert(a, P { link, services, up: false, start, tip, inbox, pongs: vec![], reg: None, asked: None });
        self.input(c, In::Up(a));
        a
    }
    fn handshake(&mut self, c: &mut Case, a: SocketAddr) { for _ in 0..6 { if !self.step(c, a) { break; } } }
    /// deliver the next message of the handshake
    fn step(&mut self, c: &mut Case, a: SocketAddr) -> bool {
        if !self.peers[&a].up { return false; }
        match self.peers.get_mut(&a).unwrap().inbox.pop_front() { Some(m) => { self.input(c, In::Msg(a, m)); true } None => false }
    }
    /// what an honest peer answers to the open question
    fn answer(&self, a: &SocketAddr) -> Option<Vec<BlockHeader>> {
        let (l, _, _) = self.inflight.get(a)?;
        let br = self.w.branch(&self.peers[a].tip);
        let mut at = 0;
        for x in &l.0 { if let Some((_, h)) = self.w.get(x) { if br.get(*h as usize) == Some(x) { at = *h as usize; break; } } }
        let mut out = vec![];
        for h in br.iter().skip(at + 1).take(2000) { out.push(self.w.get(h).unwrap().0); if *h == l.1 { break; } }
        Some(out)
    }
}
fn some_tip(c: &mut Case, s: &mut S) -> BlockHash {
    let br = s.w.branch(&s.w.best.clone());
    br[br.len() - 1 - c.rng.usize(br.len().min(6))]
}
fn mine(c: &mut Case, s: &mut S, n: usize, depth: u64) -> BlockHash {
    let mut p = s.w.best;
    for _ in 0..depth { if p != s.w.genesis { p = s.w.get(&p).unwrap().0.prev_blockhash; } }
    let t = s.now.as_secs() as u32;
    for k in 0..n { let mut r = c.rng.clone(); p = s.w.mine(&mut r, &p, t - (n - k) as u32 * 20); c.rng = r; }
    p
}
fn add(c: &mut Case, s: &mut S) -> SocketAddr {
    let link = if c.rng.chance(1, 3) { Link::Inbound } else { Link::Outbound };
    let sv = if c.rng.chance(1, 6) { NET | CF } else { NET };
    let tip = some_tip(c, s);
    let h = s.w.height(&tip);
    let start = match c.rng.below(8) { 0 => h + c.rng.below(5), 1 => c.rng.below(h + 1), 2 => s.height(), _ => h };
    s.new_peer(c, link, sv, tip, start)
}
fn step(c: &mut Case, s: &mut S) {
    let live = s.live();
    if live.is_empty() || (live.len() < 6 && c.rng.chance(1, 20)) { let a = add(c, s); if c.rng.chance(5, 6) { s.handshake(c, a); } return; }
    let a = *c.rng.pick(&live);
    let open: Vec<SocketAddr> = s.inflight.keys().cloned().filter(|a| s.peers[a].up).collect();
    match c.rng.below(100) {
        0..=24 => if !open.is_empty() {
            let a = *c.rng.pick(&open);
            let mut v = s.answer(&a).unwrap();
            match c.rng.below(12) { 0 => v.clear(), 1 => { let k = c.rng.usize(v.len() + 1); v.truncate(k); } 2 => if v.len() > 1 { v.remove(0); }, _ => {} }
            s.input(c, In::Msg(a, NetworkMessage::Headers(v)));
        },
        25..=34 => {
            // announce blocks, new or of another branch, leading up to what the node has or not
            let (n, d) = match c.rng.below(4) { 0 => (1 + c.rng.usize(5), c.rng.below(5)), 1 => (c.rng.usize(30), 0), _ => (1, 0) };
            let tip = if n == 0 { some_tip(c, s) } else { mine(c, s, n, d) };
            s.peers.get_mut(&a).unwrap().tip = tip;
            let br = s.w.branch(&tip);
            let f = br.iter().zip(&s.chain).take_while(|(a, b)| a == b).count();
            let f = match c.rng.below(6) { 0 => (f + 1 + c.rng.usize(3)).min(br.len() - 1), 1 => f.saturating_sub(c.rng.usize(3)).max(1), _ => f };
            if f < br.len() { let v = s.w.heads(&br[f..]); s.input(c, In::Msg(a, NetworkMessage::Headers(v))); }
        }
        35..=41 => {
            let n = c.rng.usize(3);
            let tip = mine(c, s, n, 0);
            s.peers.get_mut(&a).unwrap().tip = tip;
            let br = s.w.branch(&tip);
            let mut v = vec![];
            for _ in 0..c.rng.usize(4) { v.push(match c.rng.below(5) { 0 => Inventory::Block(BlockHash::hash(&c.rng.bytes(4))), 1 => Inventory::Error, 2 => Inventory::Block(*c.rng.pick(&s.chain.clone())), _ => Inventory::Block(br[br.len() - 1 - c.rng.usize(br.len().min(3))]) }); }
            s.input(c, In::Msg(a, NetworkMessage::Inv(v)));
        }
        42..=50 => {
            let any = s.w.branch(&s.w.best.clone());
            let mut l = vec![];
            for _ in 0..c.rng.usize(4) { l.push(if c.rng.chance(1, 5) { BlockHash::hash(&c.rng.bytes(4)) } else if c.rng.chance(1, 2) { *c.rng.pick(&s.chain.clone()) } else { *c.rng.pick(&any) }); }
            let stop = match c.rng.below(3) { 0 => *c.rng.pick(&s.chain.clone()), 1 => *c.rng.pick(&any), _ => zero() };
            s.input(c, In::Msg(a, NetworkMessage::GetHeaders(GetHeadersMessage { version: 70016, locator_hashes: l, stop_hash: stop })));
        }
        51..=54 => if c.rng.chance(1, 2) { s.input(c, In::Down(a)); },
        55..=58 => { s.step(c, a); }
        59..=60 => {
            let d = c.rng.below(3);
            let n = 1 + d as usize + c.rng.usize(2);
            let tip = mine(c, s, n, d);
            let br = s.w.branch(&tip);
            let f = br.iter().zip(&s.chain).take_while(|(a, b)| a == b).count();
            let v = s.w.heads(&br[f..]);
            s.input(c, In::Import(v));
        }
        61..=62 => {
            // bad proof of work or a time too far ahead, in the middle or alone
            let n = 1 + c.rng.usize(3);
            let tip = mine(c, s, n, 0);
            let br = s.w.branch(&tip);
            let f = br.iter().zip(&s.chain).take_while(|(a, b)| a == b).count();
            let mut v = s.w.heads(&br[f..]);
            if !v.is_empty() { while crate::chain::pow_ok(&v[0]) { v[0].nonce = v[0].nonce.wrapping_add(1); } s.input(c, In::Msg(a, NetworkMessage::Headers(v))); }
        }
        63 => {
            // another branch, known to nobody but this peer, without its beginning
            let d = 1 + c.rng.below(4);
            let n = 3 + c.rng.usize(4);
            let tip = mine(c, s, n, d);
            s.peers.get_mut(&a).unwrap().tip = tip;
            let h = s.w.get(&tip).unwrap().0;
            s.input(c, In::Msg(a, NetworkMessage::Headers(vec![h])));
        }
        _ => {
            let d = *c.rng.pick(&[1_000u64, 5_000, 10_000, 15_000, 29_999, 30_000, 30_001, 60_000, 300_000, 600_000, 1_800_000, 3_600_000]);
            s.now = s.now + LocalDuration::from_millis(d as u128);
            s.input(c, In::Timer);
        }
    }
}
/// random schedules
pub fn sync(c: &mut Case) {
    let mut w = World::new();
    let n = 1 + c.rng.usize(20);
    let gap = *c.rng.pick(&[30u64, 30, 600]);
    let last = if c.rng.chance(1, 5) { 8000 } else { c.rng.below(1000) };
    for i in 0..n as u64 { let b = w.best; let mut r = c.rng.clone(); w.mine(&mut r, &b, (NOW - last - (n as u64 - i) * gap) as u32); c.rng = r; }
    let known = c.rng.usize(n + 1);
    let mut s = S::new(c, w, known);
    for _ in 0..1 + c.rng.usize(3) { let a = add(c, &mut s); s.handshake(c, a); if !c.fails.is_empty() { return; } }
    for _ in 0..60 + c.rng.usize(120) { step(c, &mut s); if !c.fails.is_empty() { return; } }
}
/// chains longer than a message, and messages of too many headers
pub fn batches(c: &mut Case) {
    let w = long_world();
    let known = *c.rng.pick(&[0usize, 1, 99, 100, 101, 2099, 2100, 2101, 4000]);
    let mut s = S::new(c, w, known);
    let best = s.w.best;
    for _ in 0..1 + c.rng.usize(2) { let a = s.new_peer(c, Link::Outbound, NET, best, 4100); s.handshake(c, a); }
    if c.rng.chance(1, 2) { let h = c.rng.below(4100); let a = s.new_peer(c, Link::Inbound, NET, best, h); s.handshake(c, a); }
    for _ in 0..12 {
        let live = s.live();
        if live.is_empty() { break; }
        let a = *c.rng.pick(&live);
        let br = s.w.branch(&best);
        let h = s.height() as usize;
        match c.rng.below(12) {
            0 => { let k = *c.rng.pick(&[23usize, 24, 25, 26]); let v = s.w.heads(&br[(h + 1).min(4100)..(h + 1 + k).min(4101)]); if !v.is_empty() { s.input(c, In::Msg(a, NetworkMessage::Headers(v))); } }
            1 => if h + 2001 <= 4100 { let k = 2001 + c.rng.usize(2).min(4100 - h - 2001); let v = s.w.heads(&br[h + 1..h + 1 + k]); s.input(c, In::Msg(a, NetworkMessage::Headers(v))); },
            2 => { s.now = s.now + LocalDuration::from_millis(*c.rng.pick(&[1_000u128, 29_999, 30_000, 600_000])); s.input(c, In::Timer); }
            3 => { let at = *c.rng.pick(&[0usize, 1, 100, 2000, h]); s.input(c, In::Msg(a, NetworkMessage::GetHeaders(GetHeadersMessage { version: 70016, locator_hashes: vec![br[at]], stop_hash: zero() }))); }
            _ => {
                let open: Vec<SocketAddr> = s.inflight.keys().cloned().filter(|a| s.peers[a].up).collect();
                if !open.is_empty() { let a = *c.rng.pick(&open); let mut v = s.answer(&a).unwrap(); if c.rng.chance(1, 8) { v.pop(); } s.input(c, In::Msg(a, NetworkMessage::Headers(v))); }
            }
        }
        if !c.fails.is_empty() { return; }
    }
}
