//! Node: the real protocol `StateMachine`, driven through its public interface by simulated peers over a
//! world of real blocks, transactions and BIP158 filters, and judged by a model written from the property
//! statements. Every input is followed by draining the outputs, except in the `batch` scenario.
use crate::util::*;
use crossbeam_channel as chan;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::blockdata::block::Block;
use nakamoto_common::bitcoin::blockdata::opcodes;
use nakamoto_common::bitcoin::blockdata::script::Builder;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter, GetCFHeaders, GetCFilters};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::util::bip158::BlockFilter;
use nakamoto_common::bitcoin::{OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxMerkleNode, TxOut, Txid, Witness, Wtxid};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{self, FilterHash, FilterHeader, Filters};
use nakamoto_common::block::store::{Error as StoreError, Genesis, Store};
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::tree::BlockReader;
use nakamoto_common::block::{BlockHash, BlockHeader, Height};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::KnownAddress;
use nakamoto_net::{Disconnect, Link, StateMachine as _};
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::fsm::{Command, Config, DisconnectReason, Event, Io, Limits, PeerId, StateMachine};
use std::borrow::Cow;
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::net::{IpAddr, SocketAddr};
use std::ops::{Bound, RangeInclusive};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub const CF: ServiceFlags = ServiceFlags::COMPACT_FILTERS;
pub const NET: ServiceFlags = ServiceFlags::NETWORK;

// ------------------------------------------------------------ shared stores
/// The filter header store, readable from outside the state machine.
#[derive(Clone)]
pub struct SharedStore(Rc<UnsafeCell<Memory<StoredHeader>>>);
impl SharedStore {
    fn m(&self) -> &mut Memory<StoredHeader> { unsafe { &mut *self.0.get() } }
}
impl Store for SharedStore {
    type Header = StoredHeader;
    fn genesis(&self) -> StoredHeader { self.m().genesis() }
    fn put<I: Iterator<Item = StoredHeader>>(&mut self, h: I) -> Result<Height, StoreError> { self.m().put(h) }
    fn get(&self, h: Height) -> Result<StoredHeader, StoreError> { self.m().get(h) }
    fn rollback(&mut self, h: Height) -> Result<(), StoreError> { self.m().rollback(h) }
    fn sync(&mut self) -> Result<(), StoreError> { self.m().sync() }
    fn iter(&self) -> Box<dyn Iterator<Item = Result<(Height, StoredHeader), StoreError>>> { self.m().iter() }
    fn len(&self) -> Result<usize, StoreError> { Store::len(self.m()) }
    fn height(&self) -> Result<Height, StoreError> { Store::height(self.m()) }
    fn check(&self) -> Result<(), StoreError> { self.m().check() }
    fn heal(&self) -> Result<(), StoreError> { self.m().heal() }
}
#[derive(Clone)]
pub struct SharedFilters(Rc<UnsafeCell<FilterCache<SharedStore>>>);
impl SharedFilters {
    fn m(&self) -> &mut FilterCache<SharedStore> { unsafe { &mut *self.0.get() } }
}
impl Filters for SharedFilters {
    fn get_headers(&self, r: RangeInclusive<Height>) -> Vec<(FilterHash, FilterHeader)> { self.m().get_headers(r) }
    fn get_header(&self, h: Height) -> Option<(FilterHash, FilterHeader)> { self.m().get_header(h) }
    fn import_headers(&mut self, h: Vec<(FilterHash, FilterHeader)>) -> Result<Height, filter::Error> { self.m().import_headers(h) }
    fn tip(&self) -> (&FilterHash, &FilterHeader) { self.m().tip() }
    fn height(&self) -> Height { Filters::height(self.m()) }
    fn get_prev_header(&self, h: Height) -> Option<FilterHeader> { self.m().get_prev_header(h) }
    fn rollback(&mut self, h: Height) -> Result<(), filter::Error> { Filters::rollback(self.m(), h) }
    fn clear(&mut self) -> Result<(), filter::Error> { self.m().clear() }
}

// -------------------------------------------------------------------- world
pub type Utxo = BTreeMap<OutPoint, TxOut>;
pub struct Info { pub block: Block, pub hash: BlockHash, pub height: u64, pub filter: Vec<u8>, pub fhash: FilterHash, pub fheader: FilterHeader, pub utxo: Arc<Utxo> }
/// All blocks anyone has mined (a tree), with their filters.
#[derive(Clone)]
pub struct World {
    pub infos: HashMap<BlockHash, Arc<Info>>,
    pub genesis: BlockHash,
    pub best: BlockHash,
    /// filter contents by their hash: what a filter header commits to
    pub filters: HashMap<FilterHash, Vec<u8>>,
    /// transactions waiting to be mined
    pub pool: Vec<Transaction>,
    pub nonce: u64,
}
pub fn script(i: u64) -> Script {
    Builder::new().push_opcode(opcodes::all::OP_RETURN.into()).push_int(7).into_script().into_bytes();
    Builder::new().push_opcode(opcodes::all::OP_DUP).push_slice(&[i as u8; 20]).push_opcode(opcodes::all::OP_CHECKSIG).into_script()
}
const NSCRIPTS: u64 = 14;
pub fn make_filter(b: &Block, utxo: &Utxo, extra: &HashMap<OutPoint, Script>) -> Vec<u8> {
    BlockFilter::new_script_filter(b, |o| Ok(utxo.get(o).map(|t| t.script_pubkey.clone()).or_else(|| extra.get(o).cloned()).unwrap_or_default())).unwrap().content
}
impl World {
    pub fn new() -> World {
        let b = Network::Regtest.genesis_block();
        let hash = b.block_hash();
        let filter = make_filter(&b, &Utxo::new(), &HashMap::new());
        let fhash = FilterHash::hash(&filter);
        let fheader = fhash.filter_header(&FilterHeader::all_zeros());
        let info = Info { block: b, hash, height: 0, fhash, fheader, filter: filter.clone(), utxo: Arc::new(Utxo::new()) };
        let mut w = World { infos: HashMap::new(), genesis: hash, best: hash, filters: HashMap::new(), pool: vec![], nonce: 0 };
        w.filters.insert(fhash, filter);
        w.infos.insert(hash, Arc::new(info));
        w
    }
    pub fn get(&self, h: &BlockHash) -> &Arc<Info> { &self.infos[h] }
    pub fn height(&self) -> u64 { self.get(&self.best).height }
    /// hashes from genesis to `tip`
    pub fn branch(&self, tip: &BlockHash) -> Vec<BlockHash> {
        let mut v = vec![*tip];
        let mut h = *tip;
        while h != self.genesis { h = self.get(&h).block.header.prev_blockhash; v.push(h); }
        v.reverse();
        v
    }
    fn random_tx(&mut self, rng: &mut Rng, utxo: &Utxo) -> Option<Transaction> {
        if utxo.is_empty() { return None; }
        let ops: Vec<&OutPoint> = utxo.keys().collect();
        let n = 1 + rng.usize(2);
        let mut ins = BTreeSet::new();
        for _ in 0..n { ins.insert(**rng.pick(&ops)); }
        let total: u64 = ins.iter().map(|o| utxo[o].value).sum();
        if total < 4 { return None; }
        let fee = rng.below(total / 4 + 1);
        let left = total - fee;
        let cut = rng.below(left + 1);
        let mut outs = vec![TxOut { value: cut, script_pubkey: script(rng.below(NSCRIPTS)) }];
        if rng.chance(2, 3) { outs.push(TxOut { value: left - cut, script_pubkey: script(rng.below(NSCRIPTS)) }); }
        Some(Transaction {
            version: 2,
            lock_time: PackedLockTime(rng.u64() as u32),
            input: ins.iter().map(|o| TxIn { previous_output: *o, script_sig: Script::new(), sequence: Sequence::MAX, witness: if rng.chance(1, 2) { Witness::from_vec(vec![rng.bytes(4)]) } else { Witness::new() } }).collect(),
            output: outs,
        })
    }
    /// mine a block on `parent`; `full`: with transactions
    pub fn mine(&mut self, rng: &mut Rng, parent: &BlockHash, full: bool) -> BlockHash {
        let p = self.get(parent).clone();
        self.nonce += 1;
        let height = p.height + 1;
        let cb = Transaction {
            version: 1,
            lock_time: PackedLockTime(0),
            input: vec![TxIn { previous_output: OutPoint::null(), script_sig: Builder::new().push_int(height as i64).push_int(self.nonce as i64).into_script(), sequence: Sequence::MAX, witness: Witness::new() }],
            output: vec![TxOut { value: 50_0000, script_pubkey: script(if full { rng.below(NSCRIPTS) } else { 0 }) }],
        };
        let mut utxo = (*p.utxo).clone();
        let base = utxo.clone();
        let mut txs = vec![];
        if full {
            let pool = self.pool.clone();
            let mut cands: Vec<Transaction> = pool.into_iter().filter(|_| rng.chance(1, 2)).collect();
            for _ in 0..rng.usize(3) { if let Some(t) = self.random_tx(rng, &base) { cands.push(t); } }
            for t in cands {
                if t.input.iter().all(|i| utxo.contains_key(&i.previous_output)) && !txs.iter().any(|x: &Transaction| x.txid() == t.txid()) {
                    for i in &t.input { utxo.remove(&i.previous_output); }
                    for (k, o) in t.output.iter().enumerate() { utxo.insert(OutPoint { txid: t.txid(), vout: k as u32 }, o.clone()); }
                    txs.push(t);
                }
            }
        }
        if full { utxo.insert(OutPoint { txid: cb.txid(), vout: 0 }, cb.output[0].clone()); }
        let mut txdata = vec![cb];
        txdata.extend(txs);
        // outputs spent within the block: scripts for the filter
        let mut extra = HashMap::new();
        for t in &txdata { for (k, o) in t.output.iter().enumerate() { extra.insert(OutPoint { txid: t.txid(), vout: k as u32 }, o.script_pubkey.clone()); } }
        let mut block = Block {
            header: BlockHeader { version: 1, prev_blockhash: *parent, merkle_root: TxMerkleNode::all_zeros(), time: p.block.header.time + 1 + rng.below(600) as u32, bits: 0x207fffff, nonce: 0 },
            txdata,
        };
        block.header.merkle_root = block.compute_merkle_root().unwrap();
        while !crate::chain::pow_ok(&block.header) { block.header.nonce += 1; }
        let hash = block.block_hash();
        let filter = make_filter(&block, &base, &extra);
        let fhash = FilterHash::hash(&filter);
        let fheader = fhash.filter_header(&p.fheader);
        self.filters.insert(fhash, filter.clone());
        self.infos.insert(hash, Arc::new(Info { block, hash, height, filter, fhash, fheader, utxo: Arc::new(utxo) }));
        if height > self.height() { self.best = hash; }
        hash
    }
    /// filter headers along a branch, from the world's true filters
    pub fn fs(&self, br: &[BlockHash]) -> Vec<(FilterHash, FilterHeader)> { br.iter().map(|h| { let i = self.get(h); (i.fhash, i.fheader) }).collect() }
}
/// a 4100-block chain shared by the long-range scenarios
pub fn long_world() -> World {
    static W: std::sync::OnceLock<World> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let mut w = World::new();
        let mut r = Rng::new(77);
        for _ in 0..4100 { let b = w.best; w.mine(&mut r, &b, false); }
        w
    }).clone()
}

// --------------------------------------------------------------------- sim
pub type Sm = StateMachine<BlockCache<Memory<BlockHeader>>, SharedFilters, std::collections::HashMap<IpAddr, KnownAddress>, RefClock<AdjustedTime<PeerId>>>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PState { Dialing, Connected, Gone }
pub struct SimPeer {
    pub link: Link,
    pub state: PState,
    pub services: ServiceFlags,
    pub relay: bool,
    pub wtxid: bool,
    pub negotiated: bool,
    /// the peer's best block
    pub tip: BlockHash,
    /// 0 honest, 1 flaky (drops, delays), 2 lying
    pub kind: u8,
    pub inbox: VecDeque<NetworkMessage>,
    // what the model knows about the announcements owed to the peer
    pub outbox: HashSet<Wtxid>,
    pub attempts: usize,
    pub last_attempt: Option<LocalTime>,
    // ping model: Some(nonce) awaiting since; None idle since
    pub ping: Option<(Option<u64>, LocalTime)>,
}
#[derive(Clone, Default)]
pub struct Scan { pub active: bool, pub start: u64, pub end: Option<u64>, pub current: u64, pub watch: HashSet<Script>, /** blocks were reverted after the scan ended */ pub late: bool, /** watched since the start */ pub first: HashSet<Script>, pub txs: HashMap<Txid, HashSet<Script>> }

pub enum In {
    Msg(SocketAddr, NetworkMessage),
    Connected(SocketAddr),
    Attempted(SocketAddr),
    Disconnected(SocketAddr, Disconnect<DisconnectReason>),
    Timer,
    Cmd(Command),
}
pub struct Sim {
    pub sm: Sm,
    pub w: World,
    pub now: LocalTime,
    pub peers: BTreeMap<SocketAddr, SimPeer>,
    pub next_ip: u32,
    pub f: SharedFilters,
    pub st: SharedStore,
    pub params: Params,
    /// drain after every input
    pub strict: bool,
    pub undrained: bool,
    /// fake filter headers were accepted: end-to-end completeness is off
    pub fooled: bool,
    // ---- model
    pub chain: Vec<BlockHash>,
    pub fs: Vec<(FilterHash, FilterHeader)>,
    pub inflight: HashSet<BlockHash>,
    /// the peer whose message, correct when asked for, is being handled
    pub blameless: Option<SocketAddr>,
    pub scan: Scan,
    pub pending: BTreeSet<u64>,
    pub matched: HashSet<BlockHash>,
    pub remaining: HashSet<BlockHash>,
    pub received: BTreeMap<u64, BlockHash>,
    pub mempool: BTreeMap<Wtxid, Transaction>,
    pub confirmed: BTreeMap<u64, Vec<Transaction>>,
    // expected in this drain
    exp_proc: VecDeque<(u64, BlockHash)>,
    /// blocks requested and when; requests due at this timer
    asked: HashMap<BlockHash, LocalTime>,
    exp_req: HashSet<BlockHash>,
    /// peers to be reported as timed out, and to be dropped for not answering a ping, at this timer
    exp_timedout: BTreeSet<SocketAddr>,
    exp_dead: BTreeSet<SocketAddr>,
    exp_tx: VecDeque<(Txid, String)>,
    exp_write: Vec<(SocketAddr, String)>,
}
pub fn show(m: &NetworkMessage) -> String {
    match m {
        NetworkMessage::Headers(h) => format!("headers[{}..{}]x{}", h.first().map(|x| x.block_hash().to_string()).unwrap_or_default(), h.last().map(|x| x.block_hash().to_string()).unwrap_or_default(), h.len()),
        NetworkMessage::CFHeaders(m) => format!("cfheaders(type {}, stop {}, prev {}, {} hashes)", m.filter_type, m.stop_hash, m.previous_filter_header, m.filter_hashes.len()),
        NetworkMessage::GetCFHeaders(m) => format!("getcfheaders(type {}, {}..{})", m.filter_type, m.start_height, m.stop_hash),
        NetworkMessage::CFilter(m) => format!("cfilter(type {}, {}, {} bytes)", m.filter_type, m.block_hash, m.filter.len()),
        NetworkMessage::Block(b) => format!("block {} ({} txs)", b.block_hash(), b.txdata.len()),
        NetworkMessage::Version(v) => format!("version({}, {}, h {})", v.version, v.services, v.start_height),
        NetworkMessage::Inv(i) => format!("inv {:?}", i),
        NetworkMessage::GetData(i) => format!("getdata {:?}", i),
        NetworkMessage::Addr(i) => format!("addr x{}", i.len()),
        m => format!("{:?}", m).chars().take(160).collect(),
    }
}
pub fn version_msg(services: ServiceFlags, height: i32, nonce: u64, now: LocalTime, relay: bool) -> VersionMessage {
    let a = Address::new(&"44.1.1.1:8333".parse().unwrap(), services);
    VersionMessage { version: 70016, services, timestamp: now.as_secs() as i64, receiver: a.clone(), sender: a, nonce, user_agent: "/sim:1/".into(), start_height: height, relay }
}

impl Sim {
    /// `known`: blocks of the best branch the node starts with; `kf`: filter headers it starts with
    pub fn new(c: &mut Case, w: World, known: usize, kf: usize, cache: usize) -> Sim {
        let params = Params::new(Network::Regtest.into());
        let br = w.branch(&w.best);
        let chain: Vec<BlockHash> = br[..=known].to_vec();
        let hs: Vec<BlockHeader> = chain.iter().map(|h| w.get(h).block.header).collect();
        let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(hs).unwrap()), params.clone(), &[]).unwrap();
        let fs = w.fs(&chain[..=kf]);
        let st = SharedStore(Rc::new(UnsafeCell::new(Memory::new(NonEmpty::from_vec(fs.iter().map(|(hash, header)| StoredHeader { hash: *hash, header: *header }).collect()).unwrap()))));
        let fc = FilterCache::load(st.clone()).unwrap();
        let f = SharedFilters(Rc::new(UnsafeCell::new(fc)));
        let now = LocalTime::from_secs(1_700_000_000);
        let clock = RefClock::from(AdjustedTime::<PeerId>::new(now));
        let cfg = Config {
            network: Network::Regtest, params: params.clone(),
            limits: Limits { filter_cache_size: cache, ..Limits::default() },
            services: NET,
            ..Config::default()
        };
        let sm = StateMachine::new(tree, f.clone(), std::collections::HashMap::new(), clock, fastrand::Rng::with_seed(c.rng.u64()), cfg);
        let mut s = Sim {
            sm, w, now, peers: BTreeMap::new(), next_ip: 1, f, st, params, strict: true, undrained: false, fooled: false,
            chain, fs, inflight: HashSet::new(), blameless: None, scan: Scan::default(), pending: BTreeSet::new(), matched: HashSet::new(),
            remaining: HashSet::new(), received: BTreeMap::new(), mempool: BTreeMap::new(), confirmed: BTreeMap::new(),
            asked: HashMap::new(), exp_req: HashSet::new(), exp_timedout: BTreeSet::new(), exp_dead: BTreeSet::new(),
            exp_proc: VecDeque::new(), exp_tx: VecDeque::new(), exp_write: vec![],
        };
        c.op(format!("node starts at {} with {} block(s), {} filter header(s), filter cache {} bytes", now.as_secs(), known, kf, cache));
        s.sm.initialize(now);
        s.drain(c);
        s.invariants(c);
        s
    }
    pub fn tip_h(&self) -> u64 { self.chain.len() as u64 - 1 }
    pub fn fh(&self) -> u64 { self.fs.len() as u64 - 1 }
    fn on_chain(&self, h: &BlockHash) -> Option<u64> {
        let i = self.w.infos.get(h)?;
        if self.chain.get(i.height as usize) == Some(h) { Some(i.height) } else { None }
    }
    pub fn live(&self) -> Vec<SocketAddr> { self.peers.iter().filter(|(_, p)| p.state == PState::Connected).map(|(a, _)| *a).collect() }
    pub fn negotiated(&self) -> Vec<SocketAddr> { self.peers.iter().filter(|(_, p)| p.state == PState::Connected && p.negotiated).map(|(a, _)| *a).collect() }

    // ------------------------------------------------------------ inputs
    pub fn new_peer(&mut self, c: &mut Case, link: Link, services: ServiceFlags, kind: u8) -> SocketAddr {
        let ip = self.next_ip;
        self.next_ip += 1;
        let a: SocketAddr = format!("44.{}.{}.{}:18444", 2 + ip / 250 / 250, ip / 250 % 250, 1 + ip % 250).parse().unwrap();
        let tip = self.w.best;
        let (relay, wtxid) = (c.rng.chance(2, 3), c.rng.chance(1, 2));
        self.peers.insert(a, SimPeer { link, state: PState::Dialing, services, relay, wtxid, negotiated: false, tip, kind, inbox: VecDeque::new(), outbox: HashSet::new(), attempts: 0, last_attempt: None, ping: None });
        match link {
            Link::Outbound => {
                self.input(c, In::Cmd(Command::Connect(a)));
                // a refused dial is another scenario: here the connection comes up
                self.input(c, In::Attempted(a));
                self.input(c, In::Connected(a));
            }
            Link::Inbound => {
                self.input(c, In::Connected(a));
                let v = self.version_for(c, a);
                self.peers.get_mut(&a).unwrap().inbox.push_back(v);
            }
        }
        a
    }
    fn version_for(&mut self, c: &mut Case, a: SocketAddr) -> NetworkMessage {
        let p = &self.peers[&a];
        let h = self.w.get(&p.tip).height as i32;
        NetworkMessage::Version(version_msg(p.services, h, c.rng.u64(), self.now, p.relay))
    }
    /// deliver everything queued at the peer until its handshake is over
    pub fn handshake(&mut self, c: &mut Case, a: SocketAddr) {
        for _ in 0..12 {
            if self.peers[&a].negotiated || self.peers[&a].state != PState::Connected { break; }
            if !self.deliver(c, a) { break; }
        }
    }
    /// deliver the peer's next message
    pub fn deliver(&mut self, c: &mut Case, a: SocketAddr) -> bool {
        let p = match self.peers.get_mut(&a) { Some(p) if p.state == PState::Connected => p, _ => return false };
        match p.inbox.pop_front() { Some(m) => { self.input(c, In::Msg(a, m)); true } None => false }
    }
    pub fn elapse(&mut self, c: &mut Case, d: LocalDuration) {
        self.now = self.now + d;
        self.sm.tick(self.now);
        self.input(c, In::Timer);
    }
    pub fn input(&mut self, c: &mut Case, i: In) {
        self.pre(c, &i);
        match i {
            In::Msg(a, m) => {
                c.op(format!("{} -> {}", a, show(&m)));
                self.sm.message_received(&a, Cow::Owned(RawNetworkMessage { magic: Network::Regtest.magic(), payload: m }));
            }
            In::Connected(a) => {
                let p = self.peers.get_mut(&a).unwrap();
                p.state = PState::Connected;
                let link = p.link;
                c.op(format!("{} connected ({:?})", a, link));
                self.sm.connected(a, &"44.0.0.1:18444".parse().unwrap(), link);
            }
            In::Attempted(a) => self.sm.attempted(&a),
            In::Disconnected(a, r) => {
                c.op(format!("{} disconnected: {}", a, r));
                self.gone(&a);
                self.sm.disconnected(&a, r);
            }
            In::Timer => { c.op(format!("timer at {}", self.now.as_secs())); self.sm.timer_expired(); }
            In::Cmd(cmd) => { c.op(format!("command {:?}", cmd).chars().take(300).collect::<String>()); self.sm.command(cmd); }
        }
        self.undrained = true;
        if self.strict { self.drain(c); self.invariants(c); }
        self.blameless = None;
    }
    fn gone(&mut self, a: &SocketAddr) {
        if let Some(p) = self.peers.get_mut(a) { p.state = PState::Gone; p.negotiated = false; p.inbox.clear(); p.outbox.clear(); p.ping = None; }
    }
    pub fn drop_peer(&mut self, c: &mut Case, a: SocketAddr) {
        self.input(c, In::Disconnected(a, Disconnect::ConnectionError(Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset)))));
    }
    pub fn drain(&mut self, c: &mut Case) {
        let mut n = 0;
        while let Some(io) = self.sm.next() {
            n += 1;
            if n > 200_000 { c.fail("C20", "the state machine never stops producing output"); break; }
            match io {
                Io::Write(a, m) => self.written(c, a, m.payload),
                Io::Connect(a) => c.op(format!("  node dials {}", a)),
                Io::Disconnect(a, r) => {
                    c.op(format!("  node disconnects {}: {}", a, r));
                    c.hit("node-disconnects");
                    if self.strict && matches!(r, DisconnectReason::PeerTimeout("ping")) { c.check(self.exp_dead.contains(&a), "C19", || format!("{} is dropped although it does not owe an answer to a ping for so long", a)); }
                    if self.peers.get(&a).map_or(false, |p| p.state == PState::Connected) {
                        self.gone(&a);
                        self.sm.disconnected(&a, r.into());
                    }
                }
                Io::SetTimer(_) => {}
                Io::Event(e) => self.event(c, e),
            }
        }
        self.undrained = false;
        if self.strict { self.post(c); }
    }

    // -------------------------------------------- the model: before an input
    fn pre(&mut self, c: &mut Case, i: &In) {
        match i {
            In::Msg(a, m) => {
                if self.peers.get(a).map_or(true, |p| p.state != PState::Connected) { return; }
                match m {
                    NetworkMessage::CFHeaders(m) => self.pre_cfheaders(c, *a, m),
                    NetworkMessage::GetCFHeaders(m) => self.pre_getcfheaders(*a, m),
                    NetworkMessage::Block(b) => self.pre_block(c, b),
                    NetworkMessage::GetData(v) => self.pre_getdata(c, *a, v),
                    NetworkMessage::Ping(n) => { if self.peers[a].negotiated { self.exp_write.push((*a, format!("pong {}", n))); } }
                    NetworkMessage::Pong(n) => {
                        let now = self.now;
                        let p = self.peers.get_mut(a).unwrap();
                        if let Some((Some(x), _)) = p.ping { if x == *n { p.ping = Some((None, now)); c.hit("pong-accepted"); } else { c.hit("pong-wrong-nonce"); } }
                    }
                    _ => {}
                }
            }
            In::Timer => self.pre_timer(c),
            In::Cmd(Command::Rescan { from, to, watch }) => {
                let start = match from { Bound::Unbounded => self.tip_h() + 1, Bound::Included(h) => *h, Bound::Excluded(h) => h + 1 };
                let end = match to { Bound::Unbounded => None, Bound::Included(h) => Some(*h), Bound::Excluded(h) => Some(h - 1) };
                let txs = std::mem::take(&mut self.scan.txs);
                self.scan = Scan { active: true, start, end, current: start, watch: watch.iter().cloned().collect(), late: false, first: watch.iter().cloned().collect(), txs };
                self.matched.clear();
                c.hit("rescan-started");
            }
            In::Cmd(Command::Watch { watch }) => self.scan.watch.extend(watch.iter().cloned()),
            In::Cmd(Command::SubmitTransaction(tx, _)) => { self.watch_tx(tx); self.announce(tx); }
            In::Cmd(Command::RequestBlock(h)) => { self.remaining.insert(*h); }
            _ => {}
        }
    }
    fn watch_tx(&mut self, tx: &Transaction) { self.scan.txs.insert(tx.txid(), tx.output.iter().map(|o| o.script_pubkey.clone()).collect()); }
    fn announce(&mut self, tx: &Transaction) {
        self.mempool.insert(tx.wtxid(), tx.clone());
        for p in self.peers.values_mut() { if p.negotiated && p.relay { p.outbox.insert(tx.wtxid()); } }
    }
    fn pre_cfheaders(&mut self, c: &mut Case, a: SocketAddr, m: &CFHeaders) {
        let asked = self.inflight.remove(&m.stop_hash);
        let stop = self.on_chain(&m.stop_hash);
        if asked && m.filter_type == 0 && stop.is_none() { self.blameless = Some(a); c.hit("cfheaders-stale"); }
        let n = m.filter_hashes.len() as u64;
        let tip = self.fs.last().unwrap().1;
        let ok = asked && m.filter_type == 0 && stop.map_or(false, |h| h == self.fh() + n) && n >= 1 && n <= 2000 && m.previous_filter_header == tip;
        c.hit(if ok { "cfheaders-accepted" } else if asked { "cfheaders-refused" } else { "cfheaders-unsolicited" });
        if ok {
            let mut prev = tip;
            for fh in &m.filter_hashes {
                prev = fh.filter_header(&prev);
                let h = self.chain[self.fs.len()];
                if self.w.get(&h).fheader != prev { self.fooled = true; }
                self.fs.push((*fh, prev));
            }
        }
    }
    /// a request for a range of filter headers is answered exactly if we have the whole range, of at most 2000
    fn pre_getcfheaders(&mut self, a: SocketAddr, m: &GetCFHeaders) {
        let start = m.start_height as u64;
        if let Some(stop) = self.on_chain(&m.stop_hash) {
            if m.filter_type == 0 && start <= stop && stop - start < 2000 && stop <= self.fh() {
                let prev = if start == 0 { FilterHeader::all_zeros() } else { self.fs[start as usize - 1].1 };
                let hs: Vec<FilterHash> = self.fs[start as usize..=stop as usize].iter().map(|x| x.0).collect();
                self.exp_write.push((a, format!("cfheaders {} {} {:?}", m.stop_hash, prev, hs)));
            }
        }
    }
    fn pre_block(&mut self, c: &mut Case, b: &Block) {
        let h = b.block_hash();
        if !b.check_merkle_root() { c.hit("block-corrupt"); return; }
        if !self.remaining.remove(&h) { c.hit("block-unsolicited"); return; }
        match self.on_chain(&h) { Some(ht) => { self.received.insert(ht, h); } None => c.hit("block-stale") }
        self.process_received(c);
    }
    /// once nothing is outstanding, the downloaded blocks are processed lowest first
    fn process_received(&mut self, c: &mut Case) {
        if !self.remaining.is_empty() { return; }
        for (ht, h) in std::mem::take(&mut self.received) {
            self.exp_proc.push_back((ht, h));
            c.hit("block-processed");
            for tx in &self.w.get(&h).clone().block.txdata {
                let w = tx.wtxid();
                if let Some(t) = self.mempool.remove(&w) {
                    for p in self.peers.values_mut() { p.outbox.remove(&w); }
                    self.exp_tx.push_back((t.txid(), format!("confirmed {} {}", h, ht)));
                    self.confirmed.entry(ht).or_default().push(t);
                    c.hit("tx-confirmed");
                }
            }
        }
    }
    fn pre_getdata(&mut self, c: &mut Case, a: SocketAddr, v: &[Inventory]) {
        for i in v {
            let (tx, ack) = match i {
                Inventory::Transaction(t) | Inventory::WitnessTransaction(t) => {
                    let tx = self.mempool.values().find(|x| x.txid() == *t).cloned();
                    let w = tx.as_ref().map(|t| t.wtxid());
                    (tx, w)
                }
                Inventory::WTx(w) => (self.mempool.get(w).cloned(), Some(*w)),
                _ => (None, None),
            };
            if let Some(t) = &tx { self.exp_write.push((a, format!("tx {}", t.wtxid()))); c.hit("tx-served"); }
            let p = self.peers.get_mut(&a).unwrap();
            if let (Some(w), Some(t)) = (ack, tx) {
                if p.outbox.remove(&w) { p.attempts = 0; p.last_attempt = None; self.exp_tx.push_back((t.txid(), format!("acknowledged {}", a))); c.hit("tx-acknowledged"); }
            }
        }
    }
    fn pre_timer(&mut self, c: &mut Case) {
        let th = self.tip_h();
        self.confirmed.retain(|h, _| th - h <= 12);
        let now = self.now;
        let pool: HashMap<Wtxid, Txid> = self.mempool.iter().map(|(w, t)| (*w, t.txid())).collect();
        for (a, p) in self.peers.iter_mut().filter(|(_, p)| p.negotiated) {
            if !p.outbox.is_empty() && now.duration_since_opt(p.last_attempt) >= LocalDuration::from_mins(1) {
                if p.attempts < 3 {
                    p.attempts += 1;
                    p.last_attempt = Some(now);
                    let mut v: Vec<String> = p.outbox.iter().map(|w| if p.wtxid { format!("{}", w) } else { format!("{}", pool[w]) }).collect();
                    v.sort();
                    self.exp_write.push((*a, format!("inv {}", v.join(" "))));
                    c.hit("tx-announced");
                } else {
                    p.outbox.clear(); // the peer is dropped
                    self.exp_timedout.insert(*a);
                }
            }
            if let Some((None, since)) = p.ping {
                if now - since >= LocalDuration::from_mins(2) { self.exp_write.push((*a, "ping".into())); c.hit("ping-due"); }
            }
            if let Some((Some(_), since)) = p.ping {
                if now - since >= LocalDuration::from_secs(30) { self.exp_dead.insert(*a); c.hit("ping-timeout"); }
            }
        }
        let server = self.peers.iter().any(|(a, p)| p.negotiated && p.services.has(NET) && !self.exp_timedout.contains(a));
        if server { for h in &self.remaining { if now.duration_since_opt(self.asked.get(h).copied()) >= LocalDuration::from_secs(15) { self.exp_req.insert(*h); } } }
    }

    // ------------------------------------------------------ outputs: messages
    fn expect(&mut self, c: &mut Case, a: SocketAddr, m: String, tag: &str) {
        match self.exp_write.iter().position(|x| x.0 == a && x.1 == m) {
            Some(i) => { self.exp_write.remove(i); }
            None => if self.strict { c.fail(tag, format!("unexpected message to {}: {}", a, m.chars().take(300).collect::<String>())) },
        }
    }
    fn written(&mut self, c: &mut Case, a: SocketAddr, m: NetworkMessage) {
        c.op(format!("  {} <- {}", a, show(&m)));
        let (kind, tip) = match self.peers.get(&a) { Some(p) if p.state == PState::Connected => (p.kind, p.tip), _ => {
            c.hit("write-to-gone-peer");
            if let NetworkMessage::GetCFHeaders(g) = &m { self.inflight.insert(g.stop_hash); }
            if let NetworkMessage::GetData(v) = &m { for i in v { if let Inventory::Block(h) | Inventory::WitnessBlock(h) = i { self.exp_req.remove(h); self.asked.insert(*h, self.now); } } }
            return;
        } };
        match m {
            NetworkMessage::Version(_) => {
                if self.peers[&a].link == Link::Outbound {
                    let v = self.version_for(c, a);
                    let p = self.peers.get_mut(&a).unwrap();
                    p.inbox.push_back(v);
                    if p.wtxid { p.inbox.push_back(NetworkMessage::WtxidRelay); }
                    p.inbox.push_back(NetworkMessage::Verack);
                } else {
                    let p = self.peers.get_mut(&a).unwrap();
                    if p.wtxid { p.inbox.push_back(NetworkMessage::WtxidRelay); }
                    p.inbox.push_back(NetworkMessage::Verack);
                }
            }
            NetworkMessage::GetHeaders(g) => { let r = self.answer_headers(&tip, &g); self.reply(c, a, kind, NetworkMessage::Headers(r)); }
            NetworkMessage::GetCFHeaders(g) => {
                // a fresh request asks for what follows our filter headers, at most 2000 of them
                if self.inflight.insert(g.stop_hash) && self.strict {
                    let st = self.on_chain(&g.stop_hash);
                    let fh = self.f.height();
                    let ok = g.filter_type == 0 && st.map_or(false, |s| s > fh && s - fh <= 2000) && g.start_height as u64 == fh + 1;
                    c.check(ok, "C09", || format!("asked for filter headers {}..={:?} with filter header tip {} and block tip {}", g.start_height, st, fh, self.tip_h()));
                    c.hit("getcfheaders-sent");
                }
                if let Some(r) = self.answer_cfheaders(c, &g, kind) { self.reply(c, a, kind, NetworkMessage::CFHeaders(r)); }
            }
            NetworkMessage::GetCFilters(g) => {
                if self.strict {
                    let st = self.on_chain(&g.stop_hash);
                    let ok = g.filter_type == 0 && st.map_or(false, |s| s >= g.start_height as u64 && s - (g.start_height as u64) < 1000 && s <= self.f.height());
                    c.check(ok, "C11", || format!("asked for filters {}..={:?} with filter header tip {}", g.start_height, st, self.f.height()));
                }
                let v = self.answer_cfilters(c, &g, kind);
                for r in v { self.reply(c, a, kind, NetworkMessage::CFilter(r)); }
            }
            NetworkMessage::GetData(v) => for i in v {
                match i {
                    Inventory::Block(h) | Inventory::WitnessBlock(h) => {
                        let due = self.exp_req.remove(&h);
                        if self.strict {
                            c.check(self.remaining.contains(&h), "C17", || format!("requested block {} nobody asked for", h));
                            c.check(due, "C17", || format!("block {} is requested again too early", h));
                            c.check(self.peers[&a].services.has(NET), "C17", || format!("block {} is requested from {}, which does not serve blocks", h, a));
                        }
                        self.asked.insert(h, self.now);
                        c.hit("getdata-block");
                        if let Some(i) = self.w.infos.get(&h).cloned() {
                            let mut b = i.block.clone();
                            if kind == 2 && c.rng.chance(1, 2) { self.corrupt_block(c, &mut b); }
                            self.reply(c, a, kind, NetworkMessage::Block(b));
                        }
                    }
                    _ => {}
                }
            },
            NetworkMessage::Ping(n) => {
                let now = self.now;
                let first = self.peers[&a].ping.is_none();
                if !first { self.expect(c, a, "ping".into(), "C19"); }
                self.peers.get_mut(&a).unwrap().ping = Some((Some(n), now));
                let r = NetworkMessage::Pong(if kind == 2 && c.rng.chance(1, 3) { n ^ 1 } else { n });
                self.reply(c, a, kind, r);
            }
            NetworkMessage::Pong(n) => self.expect(c, a, format!("pong {}", n), "C19"),
            NetworkMessage::CFHeaders(m) => self.expect(c, a, format!("cfheaders {} {} {:?}", m.stop_hash, m.previous_filter_header, m.filter_hashes), "C09"),
            NetworkMessage::Tx(t) => self.expect(c, a, format!("tx {}", t.wtxid()), "C17"),
            NetworkMessage::Inv(v) => {
                let mut ids: Vec<String> = vec![];
                for i in &v { match i { Inventory::WTx(w) => ids.push(w.to_string()), Inventory::Transaction(t) => ids.push(t.to_string()), _ => ids.push("?".into()) } }
                ids.sort();
                self.expect(c, a, format!("inv {}", ids.join(" ")), "C17");
                if kind == 0 || c.rng.chance(1, 2) { self.reply(c, a, kind, NetworkMessage::GetData(v)); }
            }
            _ => {}
        }
    }
    fn corrupt_block(&mut self, c: &mut Case, b: &mut Block) {
        match c.rng.below(3) {
            0 => { b.txdata[0].lock_time = PackedLockTime(c.rng.u64() as u32 | 1); }
            1 => { let t = b.txdata[0].clone(); let mut t2 = t; t2.output[0].value ^= 1; b.txdata.push(t2); }
            _ => { if b.txdata.len() > 1 { b.txdata.pop(); } else { b.txdata[0].output[0].script_pubkey = script(NSCRIPTS + 1); } }
        }
    }
    fn reply(&mut self, c: &mut Case, a: SocketAddr, kind: u8, m: NetworkMessage) {
        if kind != 0 && c.rng.chance(1, 5) { c.hit("reply-dropped"); return; }
        let n = if kind != 0 && c.rng.chance(1, 8) { 2 } else { 1 };
        let p = self.peers.get_mut(&a).unwrap();
        for _ in 0..n {
            let k = if kind != 0 && c.rng.chance(1, 3) && p.negotiated { c.rng.usize(p.inbox.len() + 1) } else { p.inbox.len() };
            p.inbox.insert(k, m.clone());
        }
    }
    fn answer_headers(&self, tip: &BlockHash, g: &GetHeadersMessage) -> Vec<BlockHeader> {
        let br = self.w.branch(tip);
        let mut at = 0;
        for l in &g.locator_hashes { if let Some(i) = self.w.infos.get(l) { if br.get(i.height as usize) == Some(l) { at = i.height as usize; break; } } }
        let mut out = vec![];
        for h in br.iter().skip(at + 1).take(2000) { out.push(self.w.get(h).block.header); if *h == g.stop_hash { break; } }
        out
    }
    fn answer_cfheaders(&mut self, c: &mut Case, g: &GetCFHeaders, kind: u8) -> Option<CFHeaders> {
        let i = self.w.infos.get(&g.stop_hash)?.clone();
        let (mut start, mut stop) = (g.start_height as u64, i.height);
        if start > stop { return None; }
        let br = self.w.branch(&g.stop_hash);
        if kind == 2 && c.rng.chance(1, 3) { if c.rng.chance(1, 2) { start = (start + 1).min(stop) } else { start -= start.min(1) } }
        if kind == 2 && c.rng.chance(1, 6) && stop > start { stop -= 1; }
        let mut hs: Vec<FilterHash> = br[start as usize..=stop as usize].iter().map(|h| self.w.get(h).fhash).collect();
        if kind == 2 && c.rng.chance(1, 12) && !hs.is_empty() {
            // commit to a different (well-formed) filter
            let k = c.rng.usize(hs.len());
            let h = *c.rng.pick(&br);
            hs[k] = self.w.get(&h).fhash;
        }
        if kind == 2 && c.rng.chance(1, 8) { hs.push(hs[0]); }
        if kind == 2 && c.rng.chance(1, 10) { hs.clear(); }
        let prev = if start == 0 { FilterHeader::all_zeros() } else { self.w.get(&br[start as usize - 1]).fheader };
        let prev = if kind == 2 && c.rng.chance(1, 8) { FilterHeader::all_zeros() } else { prev };
        Some(CFHeaders { filter_type: if kind == 2 && c.rng.chance(1, 10) { 1 } else { 0 }, stop_hash: g.stop_hash, previous_filter_header: prev, filter_hashes: hs })
    }
    fn answer_cfilters(&mut self, c: &mut Case, g: &GetCFilters, kind: u8) -> Vec<CFilter> {
        let mut out = vec![];
        if let Some(i) = self.w.infos.get(&g.stop_hash).cloned() {
            let br = self.w.branch(&g.stop_hash);
            for h in br.iter().take(i.height as usize + 1).skip(g.start_height as usize) {
                let mut f = self.w.get(h).filter.clone();
                if kind == 2 && c.rng.chance(1, 6) { let o = *c.rng.pick(&br); f = self.w.get(&o).filter.clone(); }
                if kind == 2 && c.rng.chance(1, 12) { let n = c.rng.usize(12); f = c.rng.bytes(n); }
                out.push(CFilter { filter_type: if kind == 2 && c.rng.chance(1, 12) { 1 } else { 0 }, block_hash: *h, filter: f });
            }
        }
        out
    }

    // -------------------------------------------------------- outputs: events
    fn spec_match(&self, f: &[u8], h: &BlockHash) -> bool {
        let bf = BlockFilter::new(f);
        if !self.scan.watch.is_empty() {
            match bf.match_any(h, &mut self.scan.watch.iter().map(|s| s.as_bytes())) { Ok(true) => return true, Ok(false) => {}, Err(_) => return false }
        }
        self.scan.txs.values().any(|o| bf.match_all(h, &mut o.iter().map(|s| s.as_bytes())).unwrap_or(false))
    }
    fn event(&mut self, c: &mut Case, e: Event) {
        match &e { Event::BlockConnected { .. } | Event::BlockDisconnected { .. } | Event::Scanned { .. } | Event::BlockHeadersSynced { .. } => {}, _ => c.op(format!("  event {}", e).chars().take(200).collect::<String>()) }
        match e {
            Event::PeerNegotiated { addr, .. } => {
                let pool: Vec<Wtxid> = self.mempool.keys().cloned().collect();
                if let Some(p) = self.peers.get_mut(&addr) {
                    if p.state == PState::Connected { p.negotiated = true; p.outbox = pool.into_iter().collect(); p.attempts = 0; p.last_attempt = None; c.hit("negotiated"); }
                }
            }
            Event::PeerTimedOut { addr } => { let due = self.exp_timedout.remove(&addr); if self.strict { c.check(due, "C17", || format!("{} is reported as timed out for no reason", addr)); } }
            Event::PeerMisbehaved { addr, reason } => if self.strict {
                c.check(self.blameless != Some(addr), "C09", || format!("{} is blamed ({}) for answering a request that a reorg made stale", addr, reason));
            },
            Event::BlockHeadersImported { reverted, .. } => {
                self.refresh();
                if let Some((h, _)) = reverted.last() {
                    let fork = h - 1;
                    c.hit("reorg");
                    if !self.scan.active { self.scan.late = true; }
                    if fork < self.fh() { self.fs.truncate(fork as usize + 1); c.hit("filters-rolled-back"); }
                    if self.scan.active && self.scan.current > fork + 1 { self.scan.current = (fork + 1).max(self.scan.start); c.hit("rescan-rolled-back"); }
                    for (h, hd) in &reverted {
                        self.remaining.remove(&hd.block_hash());
                        self.received.remove(h);
                        for t in self.confirmed.remove(h).unwrap_or_default() {
                            self.announce(&t);
                            self.exp_tx.push_back((t.txid(), "reverted".into()));
                            c.hit("tx-reverted");
                        }
                    }
                    self.process_received(c);
                }
            }
            Event::BlockDisconnected { height, .. } => { self.pending.remove(&height); }
            Event::FilterReceived { height, block, filter, .. } => if self.strict {
                let ok = self.on_chain(&block) == Some(height) && height <= self.fh() && FilterHash::hash(&filter.content) == self.fs[height as usize].0;
                c.check(ok, "C11", || format!("filter for {} reported received at {} does not match our filter headers", block, height));
            },
            Event::FilterProcessed { block, height, matched, valid, cached } => {
                c.hit(if cached { "filter-processed-cached" } else { "filter-processed" });
                if !self.strict { return; }
                let s = &self.scan;
                c.check(height == s.current, "C11", || format!("filter {} matched out of turn: the scan is at {}", height, s.current));
                c.check(s.end.map_or(true, |e| height <= e), "C11", || format!("filter {} matched although the scan ends at {:?}", height, s.end));
                c.check(height >= s.start, "C11", || format!("filter {} matched although the scan starts at {}", height, s.start));
                c.check(self.chain.get(height as usize) == Some(&block), "C11", || format!("filter at {} is for {}, which is not the active block", height, block));
                if height <= self.fh() {
                    if let Some(f) = self.w.filters.get(&self.fs[height as usize].0) {
                        let want = self.spec_match(f, &block);
                        c.check(!valid || matched == want, "C11", || format!("filter {} matched={} but the filter our headers commit to gives {}", height, matched, want));
                        c.check(valid, "C11", || format!("a well-formed filter at {} was reported invalid", height));
                    }
                } else { c.fail("C11", format!("filter {} matched without a filter header", height)); }
                if matched {
                    c.hit("filter-matched");
                    if self.pending.insert(height) { self.remaining.insert(block); }
                }
                self.scan.current = height + 1;
            }
            Event::FilterRescanStarted { start, stop } => if self.strict {
                c.check(start == self.scan.start && stop == self.scan.end, "C11", || format!("rescan reported from {} to {:?}, asked for {} to {:?}", start, stop, self.scan.start, self.scan.end));
            },
            Event::FilterRescanStopped { height } => if self.strict {
                c.hit("rescan-stopped");
                let s = &self.scan;
                c.check(s.active && s.end == Some(height) && s.current > height, "C11", || format!("rescan reported finished at {} but it is at {} (end {:?}, active {})", height, s.current, s.end, s.active));
                self.scan.active = false;
            },
            Event::BlockMatched { height, block } => if self.strict {
                c.hit("block-matched");
                let h = block.block_hash();
                c.check(self.chain.get(height as usize) == Some(&h), "C11", || format!("matched block {} is not the active block at {}", h, height));
                c.check(self.pending.remove(&height), "C11", || format!("block {} reported matched although no filter matched", height));
                self.matched.insert(h);
            },
            Event::BlockProcessed { block, height, .. } => if self.strict {
                let h = block.block_hash();
                let e = self.exp_proc.pop_front();
                c.check(e == Some((height, h)), "C17", || format!("block {} processed at {}, expected {:?}", h, height, e));
                c.check(self.w.infos.get(&h).map_or(false, |i| i.block.txdata.iter().map(|t| t.txid()).eq(block.txdata.iter().map(|t| t.txid()))), "C17", || format!("the processed block {} does not carry the transactions its header commits to", h));
                c.check(self.chain.get(height as usize) == Some(&h), "C17", || format!("the processed block {} is not the active block at {}", h, height));
            },
            Event::TxStatusChanged { txid, status } => {
                match &status { TxStatus::Confirmed { .. } => { self.scan.txs.remove(&txid); } TxStatus::Reverted { transaction } => self.watch_tx(transaction), _ => {} }
                if !self.strict { return; }
                let s = match &status {
                    TxStatus::Confirmed { block, height } => format!("confirmed {} {}", block, height),
                    TxStatus::Reverted { .. } => "reverted".into(),
                    TxStatus::Acknowledged { peer } => format!("acknowledged {}", peer),
                    s => format!("{:?}", s),
                };
                match self.exp_tx.iter().position(|x| *x == (txid, s.clone())) {
                    Some(i) => { self.exp_tx.remove(i); }
                    None => c.fail("C17", format!("unexpected status of {}: {}", txid, s)),
                }
            }
            _ => {}
        }
    }
    /// the node's active chain
    fn refresh(&mut self) {
        let out = Arc::new(Mutex::new(Vec::new()));
        let o = out.clone();
        self.sm.command(Command::QueryTree(Arc::new(move |t: &dyn BlockReader| { *o.lock().unwrap() = t.iter().map(|(_, h)| h.block_hash()).collect(); })));
        self.chain = std::mem::take(&mut *out.lock().unwrap());
    }

    // ------------------------------------------------------------ after a drain
    fn post(&mut self, c: &mut Case) {
        if let Some((h, b)) = self.exp_proc.front() { let m = format!("block {} at {} was never processed", b, h); c.fail("C17", m); }
        if let Some((t, s)) = self.exp_tx.front() { let m = format!("missing status of {}: {}", t, s); c.fail("C17", m); }
        let peers = &self.peers;
        self.exp_write.retain(|(a, _)| peers.get(a).map_or(false, |p| p.state == PState::Connected));
        if let Some((a, m)) = self.exp_write.first() {
            let tag = match m.split(' ').next().unwrap() { "cfheaders" => "C09", "pong" | "ping" => "C19", _ => "C17" };
            let t = format!("missing message to {}: {}", a, m.chars().take(300).collect::<String>());
            c.fail(tag, t);
        }
        self.exp_write.clear(); self.exp_tx.clear(); self.exp_proc.clear();
        if let Some(h) = self.exp_req.iter().next() { let m = format!("block {} is awaited but not requested", h); c.fail("C17", m); }
        if let Some(a) = self.exp_timedout.iter().next() { let m = format!("{} did not react to three offers but is not reported as timed out", a); c.fail("C17", m); }
        if let Some(a) = self.exp_dead.iter().find(|a| self.peers.get(a).map_or(false, |p| p.state == PState::Connected)) { let m = format!("{} owes an answer to a ping for 30 seconds or more but is kept", a); c.fail("C19", m); }
        self.exp_req.clear(); self.exp_timedout.clear(); self.exp_dead.clear();
        let remaining = &self.remaining;
        self.asked.retain(|h, _| remaining.contains(h));
        for (a, p) in &self.peers {
            if p.state != PState::Connected { continue; }
            c.check(!p.negotiated || p.ping.is_some(), "C19", || format!("{} was not sent a ping when its handshake was complete", a));
            c.check(p.negotiated || p.ping.is_none(), "C19", || format!("{} was sent a ping before its handshake was complete", a));
        }
        let s = &self.scan;
        if let Some(e) = s.end { c.check(!(s.active && s.current > e && s.start <= e), "C11", || format!("the scan to {} is over but was not reported finished", e)); }
    }
    pub fn invariants(&mut self, c: &mut Case) {
        let n = self.f.height();
        let mem = self.f.get_headers(0..=n);
        c.check(mem.len() as u64 == n + 1, "C09", || format!("filter height {} with {} headers", n, mem.len()));
        let disk: Vec<(FilterHash, FilterHeader)> = self.st.iter().map(|r| r.unwrap().1).map(|s| (s.hash, s.header)).collect();
        c.check(disk == mem, "C09", || "the filter headers stored differ from those in memory".into());
        c.check(n <= self.tip_h(), "C09", || format!("{} filter headers for {} blocks", n, self.tip_h()));
        let mut prev = FilterHeader::all_zeros();
        for (i, (fh, h)) in mem.iter().enumerate() {
            if fh.filter_header(&prev) != *h { c.fail("C09", format!("the filter header chain is broken at {}", i)); break; }
            prev = *h;
        }
        c.check(self.f.m().verify(Network::Regtest).is_ok(), "C09", || "verify() refuses an unbroken filter header chain".into());
        if self.strict {
            c.check(mem == self.fs, "C09", || format!("filter headers: {} instead of {}, first difference at {:?}", mem.len(), self.fs.len(), mem.iter().zip(&self.fs).position(|(a, b)| a != b)));
        }
    }
    /// honest peers, no losses, time passes: what the node owes must arrive
    pub fn settle(&mut self, c: &mut Case, mine: bool) {
        c.op("settle");
        for a in self.live() { if self.peers[&a].kind != 0 || self.peers[&a].link == Link::Inbound { self.drop_peer(c, a); } }
        for _ in 0..3 { let a = self.new_peer(c, Link::Outbound, NET | CF, 0); self.handshake(c, a); }
        if mine { let b = self.w.best; let mut r = c.rng.clone(); self.w.mine(&mut r, &b, true); c.rng = r; }
        let best = self.w.best;
        let br = self.w.branch(&best);
        for round in 0..40 {
            for a in self.live() { self.peers.get_mut(&a).unwrap().tip = best; }
            // announce what the node misses
            let f = br.iter().zip(&self.chain).take_while(|(a, b)| a == b).count();
            if f < br.len() || self.chain.len() > br.len() {
                if let Some(a) = self.negotiated().first().cloned() {
                    let hs: Vec<BlockHeader> = br[f..].iter().take(200).map(|h| self.w.get(h).block.header).collect();
                    self.input(c, In::Msg(a, NetworkMessage::Headers(hs)));
                }
            }
            for _ in 0..4000 {
                let l: Vec<SocketAddr> = self.live().into_iter().filter(|a| !self.peers[a].inbox.is_empty()).collect();
                if l.is_empty() { break; }
                let a = *c.rng.pick(&l);
                self.deliver(c, a);
            }
            if !c.fails.is_empty() { return; }
            if round > 6 && self.chain == br && (self.fooled || (self.fh() == self.tip_h() && self.pending.is_empty() && (!self.scan.active || self.scan.current > self.tip_h()))) { break; }
            self.elapse(c, LocalDuration::from_secs(16));
            if !self.negotiated().iter().any(|a| { let p = &self.peers[a]; p.link == Link::Outbound && p.services.has(CF) }) { let a = self.new_peer(c, Link::Outbound, NET | CF, 0); self.handshake(c, a); }
        }
        if self.chain != br || self.fooled { c.hit("settle-partial"); return; }
        c.hit("settled");
        c.check(self.fh() == self.tip_h(), "C09", || format!("filter headers stay at {} with blocks at {} although honest peers answer every request", self.fh(), self.tip_h()));
        let s = self.scan.clone();
        if s.active { c.check(s.current > self.tip_h(), "C11", || format!("the scan stays at {} although every filter up to {} was offered", s.current, self.tip_h())); }
        c.check(self.pending.is_empty(), "C11", || format!("blocks {:?} matched but were never reported", self.pending));
        // no false negatives, end to end
        if s.start <= self.tip_h() && (s.active || (s.end.is_some() && !s.late)) && !s.first.is_empty() {
            for h in s.start..=s.end.unwrap_or(u64::MAX).min(self.tip_h()) {
                let i = self.w.get(&self.chain[h as usize]).clone();
                let hit = |w: &HashSet<Script>| i.block.txdata.iter().any(|t| t.output.iter().any(|o| w.contains(&o.script_pubkey)));
                if hit(&s.first) { c.check(self.matched.contains(&i.hash), "C11", || format!("block {} pays a watched script but was never reported", h)); }
            }
        }
    }
}
trait Since { fn duration_since_opt(&self, o: Option<LocalTime>) -> LocalDuration; }
impl Since for LocalTime { fn duration_since_opt(&self, o: Option<LocalTime>) -> LocalDuration { *self - o.unwrap_or_default() } }

// ---------------------------------------------------------------- scenarios
fn watchlist(c: &mut Case) -> Vec<Script> { let n = c.rng.usize(4); (0..n).map(|_| script(c.rng.below(NSCRIPTS))).collect() }
fn grow(c: &mut Case, s: &mut Sim, n: usize, depth: u64) -> BlockHash {
    // extend the best branch, or fork off `depth` below it
    let mut p = s.w.best;
    for _ in 0..depth { if p != s.w.genesis { p = s.w.get(&p).block.header.prev_blockhash; } }
    for _ in 0..n { let mut r = c.rng.clone(); p = s.w.mine(&mut r, &p, true); c.rng = r; }
    p
}
fn announce_tip(c: &mut Case, s: &mut Sim, a: SocketAddr, tip: BlockHash) {
    s.peers.get_mut(&a).unwrap().tip = tip;
    let br = s.w.branch(&tip);
    let f = br.iter().zip(&s.chain).take_while(|(a, b)| a == b).count();
    let f = if c.rng.chance(1, 6) { f.saturating_sub(1).max(1) } else { f };
    let hs: Vec<BlockHeader> = br[f..].iter().take(200).map(|h| s.w.get(h).block.header).collect();
    if !hs.is_empty() { s.input(c, In::Msg(a, NetworkMessage::Headers(hs))); }
}
fn bad_msg(c: &mut Case, s: &mut Sim) -> NetworkMessage {
    let any: Vec<BlockHash> = s.w.infos.keys().cloned().collect();
    let mut sorted = any; sorted.sort();
    let h = if c.rng.chance(1, 3) { s.chain[s.fh() as usize] } else { *c.rng.pick(&sorted) };
    let hi = s.w.get(&h).height;
    match c.rng.below(7) {
        0 => NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: c.rng.chance(1, 8) as u8, start_height: if c.rng.chance(1, 6) { c.rng.u64() as u32 } else { c.rng.below(hi + 3) as u32 }, stop_hash: h }),
        1 => {
            let n = c.rng.usize(4);
            let v: Vec<FilterHash> = (0..n).map(|_| { let x = *c.rng.pick(&sorted); s.w.get(&x).fhash }).collect();
            let stop = if c.rng.chance(1, 2) && !s.inflight.is_empty() { let mut v: Vec<_> = s.inflight.iter().cloned().collect(); v.sort(); *c.rng.pick(&v) } else { h };
            NetworkMessage::CFHeaders(CFHeaders { filter_type: 0, stop_hash: stop, previous_filter_header: if c.rng.chance(1, 2) { s.fs.last().unwrap().1 } else { s.w.get(&h).fheader }, filter_hashes: v })
        }
        2 => NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: h, filter: s.w.get(&h).filter.clone() }),
        3 => NetworkMessage::Block(s.w.get(&h).block.clone()),
        4 => NetworkMessage::Headers(vec![s.w.get(&h).block.header]),
        5 => NetworkMessage::Ping(c.rng.u64()),
        _ => NetworkMessage::Pong(c.rng.u64()),
    }
}
fn random_step(c: &mut Case, s: &mut Sim) {
    let live = s.live();
    let neg = s.negotiated();
    match c.rng.below(100) {
        0..=54 => {
            let l: Vec<SocketAddr> = live.into_iter().filter(|a| !s.peers[a].inbox.is_empty()).collect();
            if !l.is_empty() { let a = *c.rng.pick(&l); s.deliver(c, a); }
        }
        55..=62 => { let ms = *c.rng.pick(&[1_000u64, 5_999, 6_000, 15_000, 30_000, 61_000, 125_000]); s.elapse(c, LocalDuration::from_millis(ms as u128)); }
        63..=66 => if live.len() < 6 {
            let link = if c.rng.chance(1, 4) { Link::Inbound } else { Link::Outbound };
            let sv = if c.rng.chance(1, 5) { NET } else { NET | CF };
            let kind = c.rng.below(3) as u8;
            let a = s.new_peer(c, link, sv, kind);
            if c.rng.chance(3, 4) { s.handshake(c, a); }
        },
        67..=69 => if !live.is_empty() && c.rng.chance(1, 2) { let a = *c.rng.pick(&live); s.drop_peer(c, a); },
        70..=76 => if !neg.is_empty() {
            let n = 1 + c.rng.usize(3);
            let tip = grow(c, s, n, 0);
            let a = *c.rng.pick(&neg);
            announce_tip(c, s, a, tip);
        },
        77..=80 => if !neg.is_empty() {
            let d = 1 + c.rng.below(5);
            let n = (d as i64 + c.rng.range(0, 2)) as usize;
            let tip = grow(c, s, n.max(1), d);
            let a = *c.rng.pick(&neg);
            announce_tip(c, s, a, tip);
        },
        81..=85 => {
            let h = s.tip_h();
            let from = match c.rng.below(6) { 0 => Bound::Unbounded, 1 => Bound::Excluded(c.rng.below(h + 1)), _ => Bound::Included(c.rng.below(h + 3)) };
            let st = match from { Bound::Unbounded => h + 1, Bound::Included(x) => x, Bound::Excluded(x) => x + 1 };
            let to = match c.rng.below(5) { 0 | 1 => Bound::Unbounded, 2 => Bound::Excluded(st + 1 + c.rng.below(6)), _ => Bound::Included(st + c.rng.below(6)) };
            let watch = watchlist(c);
            s.input(c, In::Cmd(Command::Rescan { from, to, watch }));
        }
        86..=87 => { let watch = watchlist(c); s.input(c, In::Cmd(Command::Watch { watch })); }
        88..=91 => {
            let u = s.w.get(&s.w.best.clone()).utxo.clone();
            let mut r = c.rng.clone();
            let t = s.w.random_tx(&mut r, &u);
            c.rng = r;
            if let Some(t) = t {
                if c.rng.chance(3, 4) { s.w.pool.push(t.clone()); }
                let (tx, rx) = chan::unbounded();
                s.input(c, In::Cmd(Command::SubmitTransaction(t.clone(), tx)));
                if let Ok(r) = rx.try_recv() {
                    let mut got: Vec<SocketAddr> = r.map(|v| v.into_iter().collect()).unwrap_or_default();
                    got.sort();
                    let want: Vec<SocketAddr> = s.peers.iter().filter(|(_, p)| p.negotiated && p.relay).map(|(a, _)| *a).collect();
                    if s.strict { c.check(got == want, "C17", || format!("transaction submitted to {:?} instead of {:?}", got, want)); }
                }
                let (tx, rx) = chan::unbounded();
                s.input(c, In::Cmd(Command::GetSubmittedTransaction(t.txid(), tx)));
                if s.strict { c.check(rx.try_recv().ok().flatten().map(|t| t.txid()) == Some(t.txid()), "C17", || "a submitted transaction is not known".into()); }
            }
        }
        92..=93 => {
            let h = s.tip_h();
            let a = c.rng.below(h + 4);
            let b = if c.rng.chance(1, 10) { u64::MAX } else { (a + c.rng.below(6)).saturating_sub(1) };
            let (tx, _rx) = chan::unbounded();
            s.input(c, In::Cmd(Command::RequestFilters(a..=b, tx)));
        }
        94..=95 => {
            let h = *c.rng.pick(&s.chain.clone());
            s.input(c, In::Cmd(Command::RequestBlock(h)));
        }
        _ => if !live.is_empty() { let a = *c.rng.pick(&live); let m = bad_msg(c, s); s.input(c, In::Msg(a, m)); },
    }
}
fn start(c: &mut Case) -> Sim {
    let mut w = World::new();
    let n = 1 + c.rng.usize(20);
    for _ in 0..n { let b = w.best; let mut r = c.rng.clone(); w.mine(&mut r, &b, true); c.rng = r; }
    let known = c.rng.usize(n + 1);
    let kf = if c.rng.chance(1, 2) { known } else { c.rng.usize(known + 1) };
    let cache = *c.rng.pick(&[0usize, 100, 400, 1 << 20]);
    Sim::new(c, w, known, kf, cache)
}
/// random schedules of honest, flaky and lying peers
pub fn random(c: &mut Case) {
    let mut s = start(c);
    for _ in 0..2 { let k = c.rng.below(3) as u8; let a = s.new_peer(c, Link::Outbound, NET | CF, k); s.handshake(c, a); }
    let n = 60 + c.rng.usize(160);
    for _ in 0..n { random_step(c, &mut s); if !c.fails.is_empty() { return; } }
    s.settle(c, true);
}
/// honest peers only: the scan and its blocks must come through, whatever the order of delivery
pub fn honest(c: &mut Case) {
    let mut s = start(c);
    for _ in 0..2 { let a = s.new_peer(c, Link::Outbound, NET | CF, 0); s.handshake(c, a); }
    let a = s.new_peer(c, Link::Outbound, NET, 0); s.handshake(c, a);
    let n = 40 + c.rng.usize(120);
    for _ in 0..n {
        if c.rng.chance(1, 25) { let from = Bound::Included(c.rng.below(s.tip_h() + 1)); let mut watch = watchlist(c); watch.push(script(c.rng.below(NSCRIPTS))); s.input(c, In::Cmd(Command::Rescan { from, to: Bound::Unbounded, watch })); }
        random_step(c, &mut s);
        for a in s.live() { s.peers.get_mut(&a).unwrap().kind = 0; }
        if !c.fails.is_empty() { return; }
    }
    s.settle(c, true);
}
/// submitted transactions, confirmed and reverted again
pub fn txs(c: &mut Case) {
    let mut s = start(c);
    for _ in 0..2 { let a = s.new_peer(c, Link::Outbound, NET | CF, 0); s.handshake(c, a); }
    let from = if c.rng.chance(1, 2) { Bound::Unbounded } else { Bound::Included(c.rng.below(s.tip_h() + 1)) };
    let watch = watchlist(c);
    s.input(c, In::Cmd(Command::Rescan { from, to: Bound::Unbounded, watch }));
    for _ in 0..3 + c.rng.usize(5) {
        for _ in 0..1 + c.rng.usize(2) {
            let u = s.w.get(&s.w.best.clone()).utxo.clone();
            let mut r = c.rng.clone();
            let t = s.w.random_tx(&mut r, &u);
            c.rng = r;
            if let Some(t) = t {
                s.w.pool.push(t.clone());
                let (tx, _rx) = chan::unbounded();
                s.input(c, In::Cmd(Command::SubmitTransaction(t, tx)));
            }
        }
        // (around the depth at which confirmed transactions are forgotten, too)
        let deep = c.rng.chance(1, 4);
        let reorg = c.rng.chance(2, 5);
        let d = if reorg { if deep { 10 + c.rng.below(5) } else { 1 + c.rng.below(4) } } else { 0 };
        let n = if deep && !reorg { 9 + c.rng.usize(5) } else { 1 + d as usize + c.rng.usize(3) };
        let tip = grow(c, &mut s, n, d);
        for a in s.live() { s.peers.get_mut(&a).unwrap().tip = tip; }
        if let Some(a) = s.negotiated().first().cloned() { announce_tip(c, &mut s, a, tip); }
        let lossy = c.rng.chance(1, 3);
        for i in 0..400 {
            let l: Vec<SocketAddr> = s.live().into_iter().filter(|a| !s.peers[a].inbox.is_empty()).collect();
            if !l.is_empty() { let a = *c.rng.pick(&l); s.deliver(c, a); }
            else if i > 40 { break; }
            else if i % 8 == 7 { let d = c.rng.range(1, 62) as u64; s.elapse(c, LocalDuration::from_secs(d)); }
            if lossy && c.rng.chance(1, 30) { break; }
            if !c.fails.is_empty() { return; }
        }
        while s.live().len() < 2 { let a = s.new_peer(c, Link::Outbound, NET | CF, 0); s.handshake(c, a); if !c.fails.is_empty() { return; } }
    }
    s.settle(c, true);
}
/// pings, pongs and time
pub fn pings(c: &mut Case) {
    let w = World::new();
    let mut s = Sim::new(c, w, 0, 0, 0);
    for _ in 0..1 + c.rng.usize(3) { let a = s.new_peer(c, Link::Outbound, NET | CF, 0); s.handshake(c, a); }
    let n = 20 + c.rng.usize(80);
    for _ in 0..n {
        let live = s.live();
        if live.is_empty() || (live.len() < 4 && c.rng.chance(1, 20)) {
            let link = if c.rng.chance(1, 3) { Link::Inbound } else { Link::Outbound };
            let a = s.new_peer(c, link, NET | CF, 0);
            if c.rng.chance(4, 5) { s.handshake(c, a); }
            continue;
        }
        let a = *c.rng.pick(&live);
        match c.rng.below(20) {
            0..=4 => { s.deliver(c, a); }
            // (the peer does not answer)
            5 => { s.peers.get_mut(&a).unwrap().inbox.pop_front(); }
            6..=10 => { let n = c.rng.u64(); s.input(c, In::Msg(a, NetworkMessage::Ping(n))); }
            11 => { let n = if c.rng.chance(1, 3) { 0 } else { c.rng.u64() }; s.input(c, In::Msg(a, NetworkMessage::Pong(n))); }
            // another peer's nonce
            12 => { let b = *c.rng.pick(&live); if let Some((Some(n), _)) = s.peers[&b].ping { if a != b { s.input(c, In::Msg(a, NetworkMessage::Pong(n))); } } }
            // a nonce seen before
            13 => if c.rng.chance(1, 3) { s.drop_peer(c, a); },
            _ => { let ms = *c.rng.pick(&[1u64, 1_000, 5_000, 10_000, 14_999, 15_000, 29_999, 30_000, 30_001, 60_000, 119_999, 120_000]); s.elapse(c, LocalDuration::from_millis(ms as u128)); }
        }
        if !c.fails.is_empty() { return; }
    }
}
/// several inputs between drains, as the reactor may do: only the invariants are judged
pub fn batch(c: &mut Case) {
    let mut s = start(c);
    for _ in 0..2 { let k = c.rng.below(3) as u8; let a = s.new_peer(c, Link::Outbound, NET | CF, k); s.handshake(c, a); }
    s.strict = false;
    let n = 60 + c.rng.usize(160);
    for _ in 0..n {
        for _ in 0..1 + c.rng.usize(5) { random_step(c, &mut s); }
        s.drain(c);
        s.invariants(c);
        if !c.fails.is_empty() { return; }
    }
}
/// ranges beyond the limits of one message
pub fn long(c: &mut Case) {
    let w = long_world();
    let n = w.height() as usize;
    let kf = *c.rng.pick(&[0usize, 1, 99, 100, 101, 2099, 2100, 4000, 4099, 4100]);
    let known = n - if c.rng.chance(1, 3) { c.rng.usize(3).min(n - kf) } else { 0 };
    let mut s = Sim::new(c, w, known, kf, 1 << 20);
    let a = s.new_peer(c, Link::Outbound, NET | CF, 0);
    s.handshake(c, a);
    for _ in 0..6 {
        let stop = s.chain[*c.rng.pick(&[s.fh() as usize, 2000, 1999, 2001, s.tip_h() as usize])];
        let h = s.w.get(&stop).height;
        let st = (h as i64 - *c.rng.pick(&[1999i64, 2000, 2001, 0, 1, 4000])).max(0) as u32;
        s.input(c, In::Msg(a, NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: 0, start_height: st, stop_hash: stop })));
        if !c.fails.is_empty() { return; }
        if !s.live().contains(&a) { break; }
        s.deliver(c, a);
    }
    s.settle(c, false);
}
