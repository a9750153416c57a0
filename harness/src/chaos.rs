//! Anything a peer, the user or the clock may do to a node: messages of every kind and content, answers that
//! are honest, cut short, altered, repeated or mixed up, commands with any arguments, connections and
//! disconnections at any moment, several of these between two runs of the output. Judged: the node neither
//! panics (overflow checks are on) nor keeps on producing output, and messages for peers it does not know
//! change nothing.
use crate::node::*;
use crate::util::*;
use crossbeam_channel as chan;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetBlocksMessage, GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::*;
use nakamoto_common::bitcoin::{OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Txid, Witness, Wtxid};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{FilterHash, FilterHeader};
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::{BlockHash, BlockHeader};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_net::{Disconnect, Link, StateMachine as _};
use nakamoto_p2p::fsm::{Command, Config, Io, Limits, PeerId, StateMachine};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::net::{IpAddr, SocketAddr};
use std::ops::Bound;
use std::sync::Arc;

type Node = StateMachine<BlockCache<Memory<BlockHeader>>, FilterCache<Memory<StoredHeader>>, HashMap<IpAddr, KnownAddress>, RefClock<AdjustedTime<PeerId>>>;
#[derive(Clone)]
enum P { Dialing, Conn { todo: VecDeque<NetworkMessage>, tip: BlockHash } }
struct X { sm: Node, w: World, now: LocalTime, peers: BTreeMap<SocketAddr, P>, n: u32, hashes: Vec<BlockHash>, txs: Vec<Transaction>, seen: Vec<SocketAddr> }

fn addr(i: u64) -> SocketAddr {
    match i % 9 { 7 => format!("[2001:4860:{:x}::1]:18444", i).parse().unwrap(), 8 => format!("10.0.0.{}:18444", 1 + i % 200).parse().unwrap(), _ => format!("44.{}.7.{}:18444", i % 6, 1 + i % 200).parse().unwrap() }
}
fn number(c: &mut Case, near: u64) -> u64 {
    match c.rng.below(12) { 0 => 0, 1 => 1, 2 => 1 << 62, 3 => (1 << 62) - 1, 4 => u32::MAX as u64, 5 => c.rng.u64() >> 2, 6 => 999 + c.rng.below(4), 7 => 1999 + c.rng.below(4), _ => (near + 3).saturating_sub(c.rng.below(7)) }
}
/// what an honest peer with this tip answers
pub fn answer(w: &World, tip: BlockHash, m: &NetworkMessage) -> Vec<NetworkMessage> {
    let br = w.branch(&tip);
    let find = |h: &BlockHash| w.infos.get(h).map(|i| i.height as usize).filter(|i| br.get(*i) == Some(h));
    match m {
        NetworkMessage::Ping(n) => vec![NetworkMessage::Pong(*n)],
        NetworkMessage::GetHeaders(g) => {
            let f = g.locator_hashes.iter().find_map(|h| find(h)).unwrap_or(0);
            let hs: Vec<BlockHeader> = br[f + 1..].iter().take(2000).map(|h| w.get(h).block.header).collect();
            vec![NetworkMessage::Headers(hs)]
        }
        NetworkMessage::GetCFHeaders(g) => match find(&g.stop_hash) {
            Some(e) if (g.start_height as usize) <= e => {
                let st = g.start_height as usize;
                vec![NetworkMessage::CFHeaders(CFHeaders { filter_type: 0, stop_hash: g.stop_hash, previous_filter_header: if st == 0 { FilterHeader::all_zeros() } else { w.get(&br[st - 1]).fheader }, filter_hashes: br[st..=e].iter().take(2000).map(|h| w.get(h).fhash).collect() })]
            }
            _ => vec![],
        },
        NetworkMessage::GetCFilters(g) => match find(&g.stop_hash) {
            Some(e) if (g.start_height as usize) <= e => br[g.start_height as usize..=e].iter().take(1000).map(|h| NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: *h, filter: w.get(h).filter.clone() })).collect(),
            _ => vec![],
        },
        NetworkMessage::GetData(v) => v.iter().filter_map(|i| match i { Inventory::Block(h) | Inventory::WitnessBlock(h) => w.infos.get(h).map(|i| NetworkMessage::Block(i.block.clone())), _ => None }).collect(),
        NetworkMessage::Inv(v) => vec![NetworkMessage::GetData(v.clone())],
        _ => vec![],
    }
}
impl X {
    fn new(c: &mut Case) -> X {
        let params = Params::new(Network::Regtest.into());
        let w = if c.rng.chance(1, 12) { long_world() } else {
            let mut w = World::new();
            let n = c.rng.usize(14);
            for _ in 0..n { let b = w.best; let mut r = c.rng.clone(); w.mine(&mut r, &b, true); c.rng = r; }
            w
        };
        let br = w.branch(&w.best);
        let known = c.rng.usize(br.len());
        let kf = if c.rng.chance(1, 2) { known } else { c.rng.usize(known + 1) };
        let hs: Vec<BlockHeader> = br[..=known].iter().map(|h| w.get(h).block.header).collect();
        let fs: Vec<StoredHeader> = w.fs(&br[..=kf]).iter().map(|(hash, header)| StoredHeader { hash: *hash, header: *header }).collect();
        let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(hs).unwrap()), params.clone(), &[]).unwrap();
        let fc = FilterCache::load(Memory::new(NonEmpty::from_vec(fs).unwrap())).unwrap();
        let now = LocalTime::from_secs(1_700_000_000);
        let mut book: HashMap<IpAddr, KnownAddress> = HashMap::new();
        for _ in 0..c.rng.below(8) { let a = addr(c.rng.below(60)); book.insert(a.ip(), KnownAddress::new(Address::new(&a, NET | CF), Source::Dns, None)); }
        let connect = if c.rng.chance(1, 4) { vec![addr(c.rng.below(60)), addr(c.rng.below(60))] } else { vec![] };
        let limits = Limits { max_outbound_peers: c.rng.usize(5), max_inbound_peers: c.rng.usize(5), filter_cache_size: *c.rng.pick(&[0, 1, 100, 1000, 1 << 20]), ..Limits::default() };
        c.op(format!("node with {} of {} headers, {} filter headers, {} addresses, persistent {:?}", known, br.len() - 1, kf, book.len(), connect));
        let cfg = Config { network: Network::Regtest, params, connect, services: NET | CF, limits, ..Config::default() };
        let sm = StateMachine::new(tree, fc, book, RefClock::from(AdjustedTime::<PeerId>::new(now)), fastrand::Rng::with_seed(c.rng.u64()), cfg);
        let mut hashes: Vec<BlockHash> = w.infos.keys().cloned().collect();
        hashes.sort();
        let mut x = X { sm, w, now, peers: BTreeMap::new(), n: 0, hashes, txs: vec![], seen: vec![] };
        x.sm.initialize(now);
        x.drain(c);
        x
    }
    fn hash(&mut self, c: &mut Case) -> BlockHash { match c.rng.below(10) { 0 => BlockHash::all_zeros(), 1 => BlockHash::hash(&c.rng.bytes(4)), 2 => self.w.best, 3 => self.w.genesis, _ => *c.rng.pick(&self.hashes) } }
    fn mine(&mut self, c: &mut Case) -> BlockHash {
        let mut p = self.w.best;
        if c.rng.chance(1, 3) { for _ in 0..c.rng.below(6) { if p != self.w.genesis { p = self.w.get(&p).block.header.prev_blockhash; } } }
        for _ in 0..1 + c.rng.below(5) { let mut r = c.rng.clone(); self.w.pool = self.txs.iter().filter(|t| t.input.len() == 1 && t.output.iter().all(|o| o.value == 0)).cloned().collect(); p = self.w.mine(&mut r, &p, true); c.rng = r; self.hashes.push(p); }
        p
    }
    fn tx(&mut self, c: &mut Case) -> Transaction {
        if !self.txs.is_empty() && c.rng.chance(1, 3) { return c.rng.pick(&self.txs).clone(); }
        let u = self.w.get(&self.w.best).utxo.clone();
        let ops: Vec<&OutPoint> = u.keys().collect();
        let ins = if c.rng.chance(1, 8) { 0 } else { 1 };
        let outs = c.rng.usize(3);
        let t = Transaction { version: 2, lock_time: PackedLockTime(c.rng.u64() as u32), input: (0..ins).map(|_| TxIn { previous_output: if ops.is_empty() { OutPoint::null() } else { **c.rng.pick(&ops) }, script_sig: Script::new(), sequence: Sequence::MAX, witness: Witness::new() }).collect(), output: (0..outs).map(|_| TxOut { value: if c.rng.chance(1, 2) { 0 } else { number(c, 1000) }, script_pubkey: if c.rng.chance(1, 6) { Script::new() } else { script(c.rng.below(14)) } }).collect() };
        self.txs.push(t.clone());
        t
    }
    fn inv(&mut self, c: &mut Case) -> Vec<Inventory> {
        let n = if c.rng.chance(1, 100) { 50_001 } else { c.rng.usize(4) };
        let one = |x: &mut X, c: &mut Case| match c.rng.below(8) { 0 => Inventory::Error, 1 => Inventory::Transaction(Txid::hash(&c.rng.bytes(3))), 2 => { let t = x.tx(c); Inventory::Transaction(t.txid()) } 3 => { let t = x.tx(c); Inventory::WTx(Wtxid::from_hash(t.wtxid().as_hash())) } 4 => { let t = x.tx(c); Inventory::WitnessTransaction(t.txid()) } 5 => { let h = x.hash(c); Inventory::WitnessBlock(h) } 6 => { let h = x.hash(c); Inventory::Block(h) } _ => Inventory::Unknown { inv_type: c.rng.u64() as u32, hash: [7; 32] } };
        if n > 1000 { let i = one(self, c); return vec![i; n]; }
        (0..n).map(|_| one(self, c)).collect()
    }
    fn answer(&self, tip: BlockHash, m: &NetworkMessage) -> Vec<NetworkMessage> { answer(&self.w, tip, m) }
    /// spoil a message
    fn spoil(&mut self, c: &mut Case, m: NetworkMessage) -> NetworkMessage {
        match m {
            NetworkMessage::Headers(mut v) => {
                match c.rng.below(5) { 0 => v.clear(), 1 => { let n = c.rng.usize(v.len() + 1); v.truncate(n); } 2 => { v.truncate(40); v.reverse() } 3 => if let Some(h) = v.last_mut() { match c.rng.below(4) { 0 => h.bits = c.rng.u64() as u32, 1 => h.time = number(c, 1_700_000_000) as u32, 2 => h.bits = *c.rng.pick(&[0, 0x0100_0001, 0x20ff_ffff, 0xffff_ffff, 0x0080_0000, 0x2100_0001]), _ => h.nonce = c.rng.u64() as u32 } }, _ => { let n = v.len(); if n > 0 { let k = c.rng.usize(n); let x = v[k]; v.extend(vec![x; if c.rng.chance(1, 10) { 2001 } else { 1 }]); } } }
                NetworkMessage::Headers(v)
            }
            NetworkMessage::CFHeaders(mut f) => {
                match c.rng.below(6) { 0 => f.filter_hashes.clear(), 1 => { let n = c.rng.usize(f.filter_hashes.len() + 1); f.filter_hashes.truncate(n); } 2 => f.stop_hash = self.hash(c), 3 => f.filter_type = c.rng.u64() as u8, 4 => f.previous_filter_header = FilterHeader::hash(b"x"), _ => { let n = if c.rng.chance(1, 4) { 2001 } else { 1 }; f.filter_hashes.extend(vec![FilterHash::hash(b"y"); n]); } }
                NetworkMessage::CFHeaders(f)
            }
            NetworkMessage::CFilter(mut f) => {
                match c.rng.below(5) { 0 => f.filter.clear(), 1 => { let n = c.rng.usize(f.filter.len() + 1); f.filter.truncate(n); } 2 => f.block_hash = self.hash(c), 3 => f.filter = c.rng.bytes(20), _ => f.filter_type = 1 }
                NetworkMessage::CFilter(f)
            }
            NetworkMessage::Block(mut b) => {
                match c.rng.below(4) { 0 => b.txdata.clear(), 1 => { let n = b.txdata.len(); let t = b.txdata[c.rng.usize(n)].clone(); b.txdata.push(t); } 2 => b.header.prev_blockhash = self.hash(c), _ => { b.txdata.truncate(1); } }
                NetworkMessage::Block(b)
            }
            m => m,
        }
    }
    fn any(&mut self, c: &mut Case) -> NetworkMessage {
        let h = self.hash(c);
        let near = self.w.height();
        match c.rng.below(26) {
            0 => {
                let n = c.rng.u64();
                let mut v = version_msg(*c.rng.pick(&[NET | CF, NET | CF, NET, ServiceFlags::NONE]), number(c, near) as i32, n, self.now, c.rng.chance(1, 2));
                v.version = *c.rng.pick(&[70016, 70016, 70013, 0, u32::MAX]);
                v.timestamp = *c.rng.pick(&[v.timestamp, v.timestamp, 0, i64::MAX, i64::MIN, -1]);
                NetworkMessage::Version(v)
            }
            1 => NetworkMessage::Verack,
            2 => { let t = self.now.as_secs() as u32; NetworkMessage::Addr((0..c.rng.usize(5)).map(|_| (if c.rng.chance(1, 2) { t } else { c.rng.u64() as u32 }, Address::new(&addr(c.rng.below(60)), *c.rng.pick(&[NET | CF, NET])))).collect()) }
            3 => { let v = self.inv(c); NetworkMessage::Inv(v) }
            4 => { let v = self.inv(c); NetworkMessage::GetData(v) }
            5 => { let v = self.inv(c); NetworkMessage::NotFound(v) }
            6 => { let n = c.rng.usize(4); let l: Vec<BlockHash> = (0..n).map(|_| self.hash(c)).collect(); NetworkMessage::GetHeaders(GetHeadersMessage { version: c.rng.u64() as u32, locator_hashes: l, stop_hash: h }) }
            7 => NetworkMessage::MemPool,
            8 => { let t = self.tx(c); NetworkMessage::Tx(t) }
            9 => match self.w.infos.get(&h) { Some(i) => NetworkMessage::Block(i.block.clone()), None => NetworkMessage::SendHeaders },
            10 | 11 => { let n = c.rng.usize(4); let v = (0..n).filter_map(|_| { let h = self.hash(c); self.w.infos.get(&h).map(|i| i.block.header) }).collect(); NetworkMessage::Headers(v) }
            12 => NetworkMessage::GetAddr,
            13 => NetworkMessage::Ping(c.rng.u64()),
            14 => NetworkMessage::Pong(c.rng.u64()),
            15 => NetworkMessage::GetCFilters(GetCFilters { filter_type: c.rng.chance(1, 5) as u8, start_height: number(c, near) as u32, stop_hash: h }),
            16 => match self.w.infos.get(&h) { Some(i) => NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: h, filter: i.filter.clone() }), None => NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: h, filter: c.rng.bytes(9) }) },
            17 => NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: c.rng.chance(1, 5) as u8, start_height: number(c, near) as u32, stop_hash: h }),
            18 => { let n = c.rng.usize(4); NetworkMessage::CFHeaders(CFHeaders { filter_type: 0, stop_hash: h, previous_filter_header: self.w.infos.get(&h).map_or(FilterHeader::all_zeros(), |i| i.fheader), filter_hashes: vec![FilterHash::hash(b"z"); n] }) }
            19 => NetworkMessage::GetCFCheckpt(GetCFCheckpt { filter_type: 0, stop_hash: h }),
            20 => NetworkMessage::CFCheckpt(CFCheckpt { filter_type: 0, stop_hash: h, filter_headers: vec![FilterHeader::all_zeros(); 3] }),
            21 => NetworkMessage::WtxidRelay,
            22 => NetworkMessage::GetBlocks(GetBlocksMessage { version: 1, locator_hashes: vec![h], stop_hash: h }),
            23 => NetworkMessage::FeeFilter(c.rng.u64() as i64),
            24 => NetworkMessage::Alert(c.rng.bytes(5)),
            _ => NetworkMessage::SendHeaders,
        }
    }
    fn message(&mut self, c: &mut Case, a: SocketAddr, m: NetworkMessage) {
        c.op(format!("{} -> {}", a, show(&m)));
        c.hit(m.cmd());
        let magic = if c.rng.chance(1, 200) { 1 } else { Network::Regtest.magic() };
        self.sm.message_received(&a, Cow::Owned(RawNetworkMessage { magic, payload: m }));
    }
    fn command(&mut self, c: &mut Case) {
        let near = self.w.height();
        let (b1, b2) = (number(c, near), number(c, near));
        let bound = |c: &mut Case, x: u64| match c.rng.below(4) { 0 => Bound::Unbounded, 1 => Bound::Excluded(x), _ => Bound::Included(x) };
        let h = self.hash(c);
        let cmd = match c.rng.below(16) {
            0 => Command::GetBlockByHeight(b1, chan::unbounded().0),
            1 => Command::GetBlockByHash(h, chan::unbounded().0),
            2 => Command::GetPeers(NET, chan::unbounded().0),
            3 => Command::GetTip(chan::unbounded().0),
            4 => Command::RequestBlock(h),
            5 | 6 => Command::RequestFilters(b1..=b2, chan::unbounded().0),
            7 | 8 => { let (x, y) = (u64::min(b1, b2), u64::max(b1, b2) + 2); /* a rescan's range is never empty: see the TODO at Handle::rescan */ Command::Rescan { from: bound(c, x), to: bound(c, y), watch: (0..c.rng.usize(3)).map(|_| if c.rng.chance(1, 8) { Script::new() } else { script(c.rng.below(14)) }).collect() } }
            9 => Command::Watch { watch: (0..c.rng.usize(3)).map(|_| script(c.rng.below(14))).collect() },
            10 => { let m = self.any(c); Command::Broadcast(m, |_| true, chan::unbounded().0) }
            11 => Command::Connect(if self.seen.is_empty() || c.rng.chance(1, 3) { addr(c.rng.below(60)) } else { *c.rng.pick(&self.seen) }),
            12 => Command::Disconnect(if self.peers.is_empty() || c.rng.chance(1, 3) { addr(c.rng.below(60)) } else { let v: Vec<SocketAddr> = self.peers.keys().cloned().collect(); *c.rng.pick(&v) }),
            13 => { let m = self.answer(self.w.best, &NetworkMessage::GetHeaders(GetHeadersMessage { version: 1, locator_hashes: vec![h], stop_hash: h })).pop(); let v = match m { Some(NetworkMessage::Headers(mut v)) => { v.truncate(40); v } _ => vec![] }; Command::ImportHeaders(v, chan::unbounded().0) }
            14 => Command::ImportAddresses((0..c.rng.usize(4)).map(|_| Address::new(&addr(c.rng.below(60)), NET | CF)).collect()),
            _ => { let t = self.tx(c); Command::SubmitTransaction(t, chan::unbounded().0) }
        };
        let s = format!("{:?}", cmd);
        c.op(format!("command: {}", &s[..s.char_indices().nth(200).map_or(s.len(), |x| x.0)]));
        self.sm.command(cmd);
    }
    fn drain(&mut self, c: &mut Case) {
        let mut n = 0;
        while let Some(io) = self.sm.next() {
            n += 1;
            if n > 200_000 { c.fail("C20", "the state machine never stops producing output"); return; }
            match io {
                Io::Connect(a) => {
                    c.op(format!("  node dials {}", a));
                    if c.rng.chance(1, 12) { c.op(format!("  {} cannot be dialed", a)); self.sm.disconnected(&a, Disconnect::DialError(Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset)))); }
                    else if !self.peers.contains_key(&a) { self.peers.insert(a, P::Dialing); self.sm.attempted(&a); }
                }
                Io::Disconnect(a, r) => { c.op(format!("  node disconnects {}: {:?}", a, r)); if self.peers.remove(&a).is_some() { self.sm.disconnected(&a, Disconnect::StateMachine(r)); } }
                Io::Write(a, m) => {
                    if let Some(P::Conn { tip, .. }) = self.peers.get(&a) {
                        let r = self.answer(*tip, &m.payload);
                        if let Some(P::Conn { todo, .. }) = self.peers.get_mut(&a) { if todo.len() < 3000 { todo.extend(r); } }
                    }
                }
                _ => {}
            }
        }
    }
    fn step(&mut self, c: &mut Case) {
        let pick = |c: &mut Case, v: Vec<SocketAddr>| if v.is_empty() { None } else { Some(*c.rng.pick(&v)) };
        let conn: Vec<SocketAddr> = self.peers.iter().filter(|(_, m)| matches!(m, P::Conn { .. })).map(|x| *x.0).collect();
        let dialing: Vec<SocketAddr> = self.peers.iter().filter(|(_, m)| matches!(m, P::Dialing)).map(|x| *x.0).collect();
        let io = || Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        match c.rng.below(56) {
            0..=3 => self.command(c),
            4..=7 => if let Some(a) = pick(c, dialing) {
                if c.rng.chance(1, 6) { self.peers.remove(&a); c.op(format!("{} cannot be reached", a)); let d = c.rng.chance(1, 2); self.sm.disconnected(&a, if d { Disconnect::DialError(io()) } else { Disconnect::ConnectionError(io()) }); }
                else { self.up(c, a, Link::Outbound); }
            },
            8 => { self.n += 1; let mut a = addr(c.rng.below(60)); a.set_port(30000 + (self.n % 30000) as u16); if !self.peers.contains_key(&a) { self.up(c, a, Link::Inbound); } }
            9 => if let Some(a) = pick(c, conn) { self.peers.remove(&a); c.op(format!("{} is lost", a)); self.sm.disconnected(&a, Disconnect::ConnectionError(io())); },
            14..=17 => if let Some(a) = pick(c, conn) {
                let tip = self.mine(c);
                if let Some(P::Conn { tip: t, .. }) = self.peers.get_mut(&a) { *t = tip; }
                let back = 1 + c.rng.usize(6);
                let br = self.w.branch(&tip);
                let hs: Vec<BlockHeader> = br[br.len().saturating_sub(back).max(1)..].iter().map(|h| self.w.get(h).block.header).collect();
                if c.rng.chance(1, 3) { self.message(c, a, NetworkMessage::Inv(vec![Inventory::Block(tip)])); } else { self.message(c, a, NetworkMessage::Headers(hs)); }
            },
            18..=27 => if let Some(a) = pick(c, conn) { let m = self.any(c); let m = if c.rng.chance(1, 3) { self.spoil(c, m) } else { m }; self.message(c, a, m); },
            28 => { let a = addr(c.rng.below(60)); let m = self.any(c); self.message(c, a, m); }
            _ => {
                let v: Vec<SocketAddr> = conn.iter().filter(|a| matches!(&self.peers[*a], P::Conn { todo, .. } if !todo.is_empty())).cloned().collect();
                if let Some(a) = pick(c, v) {
                    let mut m = None;
                    if let Some(P::Conn { todo, .. }) = self.peers.get_mut(&a) { let k = if c.rng.chance(1, 6) { c.rng.usize(todo.len()) } else { 0 }; m = if c.rng.chance(1, 10) { todo.get(k).cloned() } else { todo.remove(k) }; }
                    if let Some(m) = m { let m = if c.rng.chance(1, 10) { self.spoil(c, m) } else { m }; self.message(c, a, m); }
                }
            }
        }
    }
    fn up(&mut self, c: &mut Case, a: SocketAddr, link: Link) {
        c.op(format!("{} connected ({:?})", a, link));
        let mut todo = VecDeque::new();
        if c.rng.chance(9, 10) {
            let n = c.rng.u64();
            let h = number(c, self.w.height()) as i32;
            todo.push_back(NetworkMessage::Version(version_msg(NET | CF, i32::max(h, 0), n, self.now, true)));
            if c.rng.chance(1, 3) { todo.push_back(NetworkMessage::WtxidRelay); }
            todo.push_back(NetworkMessage::Verack);
        }
        if link == Link::Outbound { self.seen.push(a); }
        self.peers.insert(a, P::Conn { todo, tip: self.w.best });
        self.sm.connected(a, &"44.0.0.1:18444".parse().unwrap(), link);
    }
}
pub fn chaos(c: &mut Case) {
    let mut x = X::new(c);
    let n = 80 + c.rng.usize(200);
    let burst = *c.rng.pick(&[1usize, 1, 3, 8]);
    for _ in 0..n {
        // as the reactor does: the clock moves, then either a timer fires or a number of events are handled,
        // and then everything the node wants done is done
        let d = if c.rng.chance(5, 6) { c.rng.below(3) } else { *c.rng.pick(&[999u64, 6000, 15_000, 30_000, 60_000, 120_000, 180_000, 3_600_000, 86_400_000, 31_536_000_000]) };
        let quiet = d >= 999 && !c.rng.chance(1, 12);
        if quiet || d < 999 { x.now = x.now + LocalDuration::from_millis(d as u128); c.op(format!("+ {} ms", d)); x.sm.tick(x.now); }
        if quiet && c.rng.chance(4, 5) { c.op("timer"); x.sm.timer_expired(); } else { for _ in 0..1 + c.rng.usize(burst) { x.step(c); } }
        x.drain(c);
        if !c.fails.is_empty() { return; }
    }
}
