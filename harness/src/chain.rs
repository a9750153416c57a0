//! Block tree: the real `BlockCache` against a reference model written from the consensus rules.
use crate::util::*;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{Network, TxMerkleNode};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::store::Store;
use nakamoto_common::block::time::{Clock, LocalTime};
use nakamoto_common::block::tree::{BlockReader, BlockTree, Error, ImportResult};
use nakamoto_common::block::{BlockHash, BlockHeader, Height};
use nakamoto_common::nonempty::NonEmpty;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone)]
pub struct Clk(pub u32);
impl Clock for Clk {
    fn block_time(&self) -> u32 { self.0 }
    fn local_time(&self) -> LocalTime { LocalTime::from_secs(self.0 as u64) }
    fn from_block_time(t: u32) -> Self { Clk(t) }
}

// ---------------------------------------------------------------- reference
pub fn target(bits: u32) -> Uint256 { BlockHeader::u256_from_compact_target(bits) }
pub fn compact(t: &Uint256) -> u32 { BlockHeader::compact_target_from_u256(t) }
/// hash as a number <= own target
pub fn pow_ok(h: &BlockHeader) -> bool {
    let b = h.block_hash().into_inner();
    let mut be = [0u8; 32];
    for i in 0..32 { be[i] = b[31 - i]; }
    Uint256::from_be_bytes(be) <= target(h.bits)
}
pub fn interval(p: &Params) -> u64 { p.pow_target_timespan / p.pow_target_spacing }
/// The difficulty rule: bits required after a block at `height` with `time` and `bits`.
/// `first` is the header at the start of the interval.
pub fn ref_next_bits(first: &BlockHeader, height: u64, time: u32, tgt: Uint256, p: &Params) -> u32 {
    if (height + 1) % interval(p) != 0 { return compact(&tgt); }
    if p.no_pow_retargeting { return first.bits; }
    let ts = p.pow_target_timespan as i64;
    let mut span = time as i64 - first.time as i64;
    if span < ts / 4 { span = ts / 4; }
    if span > ts * 4 { span = ts * 4; }
    let t = mul_div(tgt, span as u64, ts as u64);
    compact(&(if t > p.pow_limit { p.pow_limit } else { t }))
}
/// t * m / d computed in 64-bit limbs, independent of Uint256's own multiplication
pub fn mul_div(t: Uint256, m: u64, d: u64) -> Uint256 {
    let be = t.to_be_bytes();
    let mut limbs = [0u64; 5]; // little endian
    for i in 0..4 { limbs[i] = u64::from_be_bytes(be[(3 - i) * 8..(4 - i) * 8].try_into().unwrap()); }
    let mut carry = 0u128;
    for l in limbs.iter_mut() { let x = (*l as u128) * (m as u128) + carry; *l = x as u64; carry = x >> 64; }
    let mut rem = 0u128;
    for l in limbs.iter_mut().rev() { let x = (rem << 64) | (*l as u128); *l = (x / d as u128) as u64; rem = x % d as u128; }
    let mut o = [0u8; 32];
    for i in 0..4 { o[(3 - i) * 8..(4 - i) * 8].copy_from_slice(&limbs[i].to_be_bytes()); }
    Uint256::from_be_bytes(o)
}
pub fn limit_bits(n: Network) -> u32 { match n { Network::Bitcoin | Network::Testnet => 0x1d00ffff, Network::Regtest => 0x207fffff, Network::Signet => 0x1e0377ae } }
pub fn ref_required(c: &[BlockHeader], p: &Params, height: u64, tip: &BlockHeader, time: u32) -> u32 {
    let iv = interval(p);
    if p.allow_min_difficulty_blocks && (height + 1) % iv != 0 {
        if time as u64 > tip.time as u64 + 2 * p.pow_target_spacing { return limit_bits(p.network); }
        for i in (0..c.len()).rev() {
            if c[i].bits != limit_bits(p.network) || i as u64 % iv == 0 { return c[i].bits; }
        }
        return limit_bits(p.network);
    }
    let fh = height.saturating_sub(iv - 1) as usize;
    ref_next_bits(c.get(fh).unwrap_or(&c[0]), height, tip.time, target(tip.bits), p)
}
/// median time of the (at most) 11 blocks below `height`
pub fn ref_mtp(c: &[BlockHeader], height: u64) -> u32 {
    let lo = height.saturating_sub(11) as usize;
    let mut t: Vec<u32> = c[lo..height as usize].iter().map(|h| h.time).collect();
    t.sort();
    t[t.len() / 2]
}
pub fn ref_valid(c: &[BlockHeader], p: &Params, cps: &BTreeMap<u64, BlockHash>, height: u64, tip: &BlockHeader, h: &BlockHeader, now: u32) -> bool {
    target(h.bits) == target(ref_required(c, p, height, tip, h.time))
        && pow_ok(h)
        && cps.get(&(height + 1)).map_or(true, |x| *x == h.block_hash())
        && ((height as usize) >= c.len() || h.time > ref_mtp(c, height + 1))
        && h.time as u64 <= now as u64 + 7200
}
pub fn work(c: &[BlockHeader]) -> Uint256 { c.iter().fold(Uint256::from_u64(0).unwrap(), |a, h| a + h.work()) }

pub fn mine(mut h: BlockHeader, tries: u32) -> Option<BlockHeader> {
    for _ in 0..tries {
        if pow_ok(&h) { return Some(h); }
        h.nonce = h.nonce.wrapping_add(1);
    }
    None
}
pub fn hx(h: &BlockHash) -> String { h.to_string()[58..].to_string() }

#[derive(Clone)]
pub struct Model {
    pub p: Params,
    pub cps: BTreeMap<u64, BlockHash>,
    pub c: Vec<BlockHeader>,
    pub known: HashMap<BlockHash, BlockHeader>,
    pub now: u32,
}
impl Model {
    pub fn pos(&self, h: &BlockHash) -> Option<usize> { self.c.iter().position(|x| x.block_hash() == *h) }
    pub fn last_cp(&self) -> u64 { self.cps.keys().rev().find(|k| **k < self.c.len() as u64).copied().unwrap_or(0) }
    /// side path ending at h: (root hash, headers)
    pub fn path(&self, h: &BlockHash) -> (BlockHash, Vec<BlockHeader>) {
        let mut v = vec![];
        let mut cur = *h;
        while self.pos(&cur).is_none() {
            match self.known.get(&cur) { Some(x) => { v.push(*x); cur = x.prev_blockhash; } None => break }
        }
        v.reverse();
        (cur, v)
    }
    pub fn valid_seq(&self, fh: u64, hs: &[BlockHeader]) -> bool {
        let mut tip = self.c[fh as usize];
        for (i, h) in hs.iter().enumerate() {
            if !ref_valid(&self.c, &self.p, &self.cps, fh + i as u64, &tip, h, self.now) { return false; }
            tip = *h;
        }
        true
    }
    /// valid side branches hanging off the active chain: (tip, fork height, headers, fully specified)
    pub fn branches(&self) -> Vec<(BlockHash, u64, Vec<BlockHeader>, bool)> {
        let mut r = vec![];
        for h in self.known.keys() {
            if self.pos(h).is_some() { continue; }
            let (root, hs) = self.path(h);
            if let Some(fh) = self.pos(&root) {
                if (fh as u64) < self.last_cp() { continue; }
                if self.valid_seq(fh as u64, &hs) { r.push((*h, fh as u64, hs.clone(), fh + hs.len() <= self.c.len())); }
            }
        }
        r
    }
    pub fn switched(&self, fh: u64, hs: &[BlockHeader]) -> Vec<BlockHeader> {
        let mut n = self.c[..=fh as usize].to_vec();
        n.extend_from_slice(hs);
        n
    }
}

pub fn setup(c: &mut Case) -> (Params, BlockHeader, bool) {
    let r = &mut c.rng;
    let mut p = Params::new(Network::Regtest);
    let spacing = *r.pick(&[2u64, 10]);
    let iv = *r.pick(&[3u64, 4, 5, 2016]);
    p.pow_target_spacing = spacing;
    p.pow_target_timespan = spacing * iv;
    let kind = r.below(4);
    if kind == 0 {
        // regtest rules: minimum-difficulty exception, real genesis
        return (p, nakamoto_common::network::Network::Regtest.genesis(), true);
    }
    p.allow_min_difficulty_blocks = false;
    p.no_pow_retargeting = r.chance(1, 8);
    p.network = if r.chance(1, 2) { Network::Bitcoin } else { Network::Testnet };
    p.pow_limit = if iv == 2016 || p.no_pow_retargeting {
        p.pow_target_timespan = spacing * 5;
        p.no_pow_retargeting = true;
        Params::new(Network::Regtest).pow_limit
    } else { Uint256::from_u64(1).unwrap() << 247 };
    let mut g = nakamoto_common::network::Network::Regtest.genesis();
    g.bits = compact(&p.pow_limit);
    g.nonce = r.u64() as u32;
    (p, g, false)
}

pub fn next_time(r: &mut Rng, m: &Model, parent: &BlockHeader) -> u32 {
    let s = m.p.pow_target_spacing as i64;
    let d = match r.below(8) { 0 => r.range(-3 * s, 0), 1 => r.range(0, 5 * s), 2 => 2 * s, 3 => 2 * s + 1, _ => r.range(1, 2 * s) };
    (parent.time as i64 + d).max(1) as u32
}
/// a header on `parent` (at `height`) that follows the rules, with the given time
pub fn child(r: &mut Rng, m: &Model, parent: &BlockHeader, height: u64, time: u32) -> Option<BlockHeader> {
    let bits = ref_required(&m.c, &m.p, height, parent, time);
    if target(bits) < (Uint256::from_u64(1).unwrap() << 240) { return None; }
    let mut mr = [0u8; 32];
    mr[..8].copy_from_slice(&r.u64().to_le_bytes());
    mine(BlockHeader { version: 1, prev_blockhash: parent.block_hash(), merkle_root: TxMerkleNode::from_inner(mr), time, bits, nonce: 0 }, 1 << 19)
}

pub fn tree(c: &mut Case) {
    let (p, genesis, real) = setup(c);
    let mut m = Model { p: p.clone(), cps: BTreeMap::new(), c: vec![genesis], known: HashMap::new(), now: 0 };
    m.now = genesis.time + 1_000_000;
    // a loaded prefix (headers in the store are not revalidated)
    if real {
        let n = c.rng.below(14);
        for _ in 0..n {
            let t = *m.c.last().unwrap();
            let bits = if c.rng.chance(1, 3) { 0x207ffffe } else { 0x207fffff };
            let time = next_time(&mut c.rng, &m, &t);
            m.c.push(BlockHeader { version: 1, prev_blockhash: t.block_hash(), merkle_root: TxMerkleNode::from_inner([c.rng.u64() as u8; 32]), time, bits, nonce: c.rng.u64() as u32 });
        }
    }
    // a planned chain, so that checkpoints can name future blocks
    let mut plan: Vec<BlockHeader> = vec![];
    {
        let mut mm = m.clone();
        let n = c.rng.range(2, 9);
        for _ in 0..n {
            let tip = *mm.c.last().unwrap();
            let h = mm.c.len() as u64 - 1;
            for _ in 0..6 {
                let time = next_time(&mut c.rng, &mm, &tip);
                if let Some(x) = child(&mut c.rng, &mm, &tip, h, time) {
                    if ref_valid(&mm.c, &mm.p, &mm.cps, h, &tip, &x, mm.now) { mm.c.push(x); plan.push(x); break; }
                }
            }
        }
        if c.rng.chance(2, 3) {
            for _ in 0..c.rng.range(1, 3) {
                let k = c.rng.usize(mm.c.len());
                if k > 0 { m.cps.insert(k as u64, mm.c[k].block_hash()); }
            }
        }
        if c.rng.chance(1, 12) { m.cps.insert(mm.c.len() as u64, BlockHash::from_inner([7; 32])); }
    }
    if c.rng.chance(1, 4) {
        m.now = m.c.last().unwrap().time + c.rng.below(60) as u32;
        if m.now > 7300 && c.rng.chance(1, 2) { m.now -= 7200; }
    }
    let cpv: Vec<(u64, BlockHash)> = m.cps.iter().map(|(a, b)| (*a, *b)).collect();
    c.op(format!("network={} interval={} spacing={} min_diff={} no_retarget={} prefix={} checkpoints={:?} now={}", p.network, interval(&p), p.pow_target_spacing,
        p.allow_min_difficulty_blocks, p.no_pow_retargeting, m.c.len(), m.cps.keys().collect::<Vec<_>>(), m.now));
    let st = store::Memory::new(NonEmpty::from((m.c[0], m.c[1..].to_vec())));
    let mut cache = match BlockCache::new(st, p.clone(), &cpv) { Ok(x) => x, Err(e) => { c.fail("C04", format!("new failed: {}", e)); return; } };
    if real { cache = match cache.load() { Ok(x) => x, Err(e) => { c.fail("C06", format!("load failed: {}", e)); return; } }; }
    readers(c, &cache, &m);
    let steps = c.rng.range(4, 26);
    let mut withheld: Vec<BlockHeader> = vec![];
    for _ in 0..steps {
        if c.rng.chance(1, 8) {
            // a side branch whose first block is announced last
            let th = m.c.len() as u64 - 1;
            let fh = th - c.rng.below(4).min(th);
            let mut par = m.c[fh as usize];
            let n = c.rng.range(2, 6);
            let slow = c.rng.chance(1, 2);
            let w = c.rng.below(3) as i64;
            for i in 0..n {
                let t = if slow { par.time + 1 } else { next_time(&mut c.rng, &m, &par) };
                let h = match child(&mut c.rng, &m, &par, fh + i as u64, t) { Some(h) => h, None => break };
                c.op(format!("  header {} prev {} time {} bits {:x} (side branch at {}, {})", hx(&h.block_hash()), hx(&h.prev_blockhash), h.time, h.bits, fh, if i == w { "withheld" } else { "sent" }));
                if i == w { withheld.push(h); } else { single(c, &mut cache, &mut m, h); }
                par = h;
            }
            readers(c, &cache, &m);
            continue;
        }
        if !withheld.is_empty() && c.rng.chance(1, 8) {
            let k = c.rng.usize(withheld.len());
            let h = withheld.remove(k);
            single(c, &mut cache, &mut m, h);
            readers(c, &cache, &m);
            continue;
        }
        let k = if c.rng.chance(1, 6) { c.rng.range(2, 7) } else { 1 };
        let mut batch = vec![];
        let mut mm = m.clone();
        for _ in 0..k {
            if let Some((h, what)) = gen_header(c, &mm, &plan) {
                c.op(format!("  header {} prev {} time {} bits {:x} ({})", hx(&h.block_hash()), hx(&h.prev_blockhash), h.time, h.bits, what));
                mm.known.insert(h.block_hash(), h);
                batch.push(h);
            }
        }
        if k > 1 && c.rng.chance(1, 3) { c.rng.shuffle(&mut batch); }
        if batch.is_empty() { continue; }
        if batch.len() == 1 && c.rng.chance(1, 5) { extend(c, &mut cache, &mut m, batch[0]); }
        else if batch.len() == 1 { single(c, &mut cache, &mut m, batch[0]); }
        else { multi(c, &mut cache, &mut m, batch); }
        readers(c, &cache, &m);
    }
}

fn gen_header(c: &mut Case, m: &Model, plan: &[BlockHeader]) -> Option<(BlockHeader, &'static str)> {
    let r = &mut c.rng;
    let tip = *m.c.last().unwrap();
    let th = m.c.len() as u64 - 1;
    let side: Vec<BlockHeader> = { let mut v: Vec<_> = m.known.values().filter(|h| m.pos(&h.block_hash()).is_none()).cloned().collect(); v.sort_by_key(|h| h.block_hash()); v };
    match r.below(14) {
        0 | 1 | 2 if !plan.is_empty() => {
            // next planned block if it is not known yet, else any planned block
            for h in plan { if !m.known.contains_key(&h.block_hash()) && m.pos(&h.block_hash()).is_none() { return Some((*h, "planned")); } }
            Some((*r.pick(plan), "planned again"))
        }
        3 | 4 => { let t = next_time(r, m, &tip); child(r, m, &tip, th, t).map(|h| (h, "extends tip")) }
        5 | 6 | 7 => {
            let depth = r.below(5).min(th);
            let fh = th - depth;
            let par = m.c[fh as usize];
            let t = next_time(r, m, &par);
            child(r, m, &par, fh, t).map(|h| (h, "fork"))
        }
        8 | 9 | 10 if !side.is_empty() => {
            let par = *r.pick(&side);
            let (root, hs) = m.path(&par.block_hash());
            let h = m.pos(&root).map(|x| x as u64 + hs.len() as u64).unwrap_or(th);
            let t = next_time(r, m, &par);
            child(r, m, &par, h, t).map(|h| (h, "extends side branch"))
        }
        11 => {
            // invalid in one way
            let mut h = child(r, m, &tip, th, tip.time + 1)?;
            let what = match r.below(5) {
                0 => { h.bits = compact(&(target(h.bits) >> 1)); "wrong bits" }
                1 => { h.time = ref_mtp(&m.c, th + 1); "time at median" }
                2 => { h.time = m.now.saturating_add(7200 + 1); "time too far ahead" }
                3 => { h.time = m.now.saturating_add(7200); "time at limit" }
                _ => { let mut x = h; x.nonce = 0; for _ in 0..10000 { if !pow_ok(&x) { break; } x.nonce += 1; } return Some((x, "bad pow")); }
            };
            if h.time != tip.time + 1 && p_min(m) { h.bits = ref_required(&m.c, &m.p, th, &tip, h.time); }
            mine(h, 1 << 19).map(|h| (h, what))
        }
        12 => {
            let mut par = tip;
            par.nonce = r.u64() as u32;
            child(r, m, &par, th, tip.time + 1).map(|h| (h, "disconnected"))
        }
        _ => {
            // a child whose parent is withheld until later: returned as the grandchild; the parent is planned by known-ness
            let mut v: Vec<BlockHeader> = m.known.values().cloned().collect();
            v.sort_by_key(|h| h.block_hash());
            if v.is_empty() { return None; }
            Some((*r.pick(&v), "duplicate"))
        }
    }
}
fn p_min(m: &Model) -> bool { m.p.allow_min_difficulty_blocks }

fn chain_of<S: Store<Header = BlockHeader>>(cache: &BlockCache<S>) -> Vec<BlockHeader> { cache.iter().map(|(_, h)| h).collect() }

/// C04 (and the chain work of C03, last checkpoint of C07): every reader agrees with the chain
pub fn readers<S: Store<Header = BlockHeader>>(c: &mut Case, cache: &BlockCache<S>, m: &Model) {
    let n: Vec<(Height, BlockHeader)> = cache.iter().collect();
    c.check(n.iter().enumerate().all(|(i, (h, _))| *h == i as u64), "C04", || "iter() heights are not 0, 1, 2, ..".into());
    c.check(n.iter().map(|x| x.1).eq(m.c.iter().cloned()), "C04", || "iter() differs from the active chain".into());
    let rv: Vec<(Height, BlockHeader)> = { let mut v: Vec<_> = cache.iter().rev().collect(); v.reverse(); v };
    c.check(rv == n, "C04", || "iter().rev() is not iter() reversed".into());
    c.check(cache.height() == m.c.len() as u64 - 1, "C04", || format!("height() {} of a chain of {} headers", cache.height(), m.c.len()));
    let t = *m.c.last().unwrap();
    c.check(cache.tip() == (t.block_hash(), t), "C04", || "tip() is not the last header".into());
    c.check(cache.best_block() == (m.c.len() as u64 - 1, &t), "C04", || "best_block() is not the last header".into());
    c.check(*cache.genesis() == m.c[0], "C04", || "genesis() is not the first header".into());
    for i in 1..m.c.len() { let ok = m.c[i].prev_blockhash == m.c[i - 1].block_hash(); c.check(ok, "C04", || format!("header {} does not link to its predecessor", i)); }
    for (i, h) in m.c.iter().enumerate() {
        let x = h.block_hash();
        c.check(cache.get_block_by_height(i as u64) == Some(h), "C04", || format!("get_block_by_height({}) wrong", i));
        c.check(cache.get_block(&x) == Some((i as u64, h)), "C04", || format!("get_block(hash at {}) = {:?}", i, cache.get_block(&x).map(|y| y.0)));
        c.check(cache.contains(&x) && cache.is_known(&x), "C04", || format!("active block {} not contained/known", i));
        c.check(cache.find_branch(&x).map_or(false, |(hh, v)| hh == i as u64 && v.len() == 1 && v.head == *h), "C04", || format!("find_branch(active {}) wrong", i));
    }
    c.check(cache.get_block_by_height(m.c.len() as u64).is_none(), "C04", || "get_block_by_height above the tip".into());
    for (x, h) in m.known.iter() {
        if m.pos(x).is_some() { continue; }
        c.check(cache.is_known(x), "C04", || format!("side block {} forgotten", hx(x)));
        c.check(!cache.contains(x) && cache.get_block(x).is_none(), "C04", || format!("side block {} reported active", hx(x)));
        let (root, hs) = m.path(x);
        let want = m.pos(&root).map(|p| (p as u64, p));
        match (cache.find_branch(x), want) {
            (None, None) => {}
            (Some((fh, v)), Some((w, p))) => {
                let mut e = vec![m.c[p]];
                e.extend_from_slice(&hs);
                c.check(fh == w && v.iter().cloned().collect::<Vec<_>>() == e, "C04", || format!("find_branch({}) wrong", hx(x)));
            }
            (a, b) => c.fail("C04", format!("find_branch({}) = {:?}, expected fork at {:?}", hx(&h.block_hash()), a.map(|z| z.0), b)),
        }
    }
    if m.c.len() > 2 {
        let a = c.rng.below(m.c.len() as u64);
        let b = a + c.rng.below(m.c.len() as u64 - a + 3);
        let got: Vec<(Height, BlockHash)> = BlockReader::range(cache, a..b).collect();
        let want: Vec<(Height, BlockHash)> = (a..b.min(m.c.len() as u64)).map(|i| (i, m.c[i as usize].block_hash())).collect();
        c.check(got == want, "C04", || format!("range({}..{}) wrong", a, b));
    }
    c.check(cache.chain_work() == work(&m.c), "C03", || "chain_work() is not the sum of the work of the active chain".into());
    c.check(cache.last_checkpoint() == m.last_cp(), "C07", || format!("last_checkpoint() = {}, expected {}", cache.last_checkpoint(), m.last_cp()));
    locators(c, cache, m);
}

/// C08
fn locators<S: Store<Header = BlockHeader>>(c: &mut Case, cache: &BlockCache<S>, m: &Model) {
    let n = m.c.len() as u64;
    let from = c.rng.below(n);
    let got = cache.locator_hashes(from);
    let want: Vec<BlockHash> = ref_locators(from).into_iter().take_while(|h| *h >= m.last_cp()).map(|h| m.c[h as usize].block_hash()).collect();
    c.check(got == want, "C08", || format!("locator_hashes({}) = {:?}", from, got.iter().map(hx).collect::<Vec<_>>()));
    // serve headers
    let mut loc = vec![];
    let k = c.rng.below(4);
    let side: Vec<BlockHash> = { let mut v: Vec<_> = m.known.keys().filter(|h| m.pos(h).is_none()).cloned().collect(); v.sort(); v };
    for _ in 0..k {
        loc.push(match c.rng.below(4) { 0 if !side.is_empty() => *c.rng.pick(&side), 1 => BlockHash::from_inner([9; 32]), _ => m.c[c.rng.usize(m.c.len())].block_hash() });
    }
    let stop = match c.rng.below(3) { 0 => BlockHash::all_zeros(), 1 if !side.is_empty() => *c.rng.pick(&side), _ => m.c[c.rng.usize(m.c.len())].block_hash() };
    let max = *c.rng.pick(&[0usize, 1, 2, 5, 2000]);
    let got = cache.locate_headers(&loc, stop, max);
    let want: Vec<BlockHeader> = if loc.is_empty() {
        m.pos(&stop).map(|i| vec![m.c[i]]).unwrap_or_default()
    } else {
        let start = loc.iter().find_map(|h| m.pos(h)).unwrap_or(0) + 1;
        let end = m.pos(&stop).map(|i| i + 1).unwrap_or(m.c.len());
        if start >= end { vec![] } else { m.c[start..end.min(start + max)].to_vec() }
    };
    c.check(got == want, "C08", || format!("locate_headers({:?}, {}, {}) returned {} headers, expected {}", loc.iter().map(|h| m.pos(h)).collect::<Vec<_>>(), hx(&stop), max, got.len(), want.len()));
    c.check(loc.is_empty() || got.len() <= max, "C08", || "more headers than the maximum".into());
}
/// locator heights for arbitrary start heights
pub fn locator_heights(c: &mut Case) {
    for _ in 0..200 {
        let from = c.rng.u64() >> c.rng.range(40, 63);
        let got = nakamoto_common::block::locators_indexes(from);
        let want = ref_locators(from);
        c.hit("locator");
        c.check(got == want, "C08", || format!("locators_indexes({}) = {:?}, expected {:?}", from, got, want));
    }
}
pub fn ref_locators(from: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut h = from as i128;
    let mut step = 1i128;
    while h > 0 { v.push(h as u64); if v.len() > 8 { step *= 2; } h -= step; }
    v.push(0);
    v
}

fn describe(r: &Result<ImportResult, Error>) -> String {
    match r {
        Ok(ImportResult::TipUnchanged) => "TipUnchanged".into(),
        Ok(ImportResult::TipChanged { height, reverted, connected, hash, .. }) => format!("TipChanged tip {} height {} reverted {:?} connected {:?}", hx(hash), height,
            reverted.iter().map(|x| (x.0, hx(&x.1.block_hash()))).collect::<Vec<_>>(), connected.iter().map(|x| (x.0, hx(&x.1.block_hash()))).collect::<Vec<_>>()),
        Err(e) => format!("Err({})", e),
    }
}

/// C05: the reported change is the difference between the chains
fn diff(c: &mut Case, old: &[BlockHeader], new: &[BlockHeader], r: &Result<ImportResult, Error>, sorted_desc: bool) {
    let f = old.iter().zip(new.iter()).take_while(|(a, b)| a == b).count();
    match r {
        Ok(ImportResult::TipUnchanged) => c.check(old == new, "C05", || "TipUnchanged, but the active chain changed".into()),
        Ok(ImportResult::TipChanged { header, hash, height, reverted, connected }) => {
            c.check(old != new, "C05", || "TipChanged, but the active chain did not change".into());
            let l = new.last().unwrap();
            c.check(header == l && *hash == l.block_hash() && *height == new.len() as u64 - 1, "C05", || "reported tip is not the tip".into());
            let mut wr: Vec<(u64, BlockHeader)> = (f..old.len()).map(|i| (i as u64, old[i])).collect();
            let wc: Vec<(u64, BlockHeader)> = (f..new.len()).map(|i| (i as u64, new[i])).collect();
            let gr = reverted.clone();
            if sorted_desc { wr.reverse(); }
            c.check(gr == wr, "C05", || format!("reverted {:?}, expected {:?}", gr.iter().map(|x| (x.0, hx(&x.1.block_hash()))).collect::<Vec<_>>(), wr.iter().map(|x| (x.0, hx(&x.1.block_hash()))).collect::<Vec<_>>()));
            let gc: Vec<(u64, BlockHeader)> = connected.iter().cloned().collect();
            c.check(gc == wc, "C05", || format!("connected {:?}, expected {:?}", gc.iter().map(|x| (x.0, hx(&x.1.block_hash()))).collect::<Vec<_>>(), wc.iter().map(|x| (x.0, hx(&x.1.block_hash()))).collect::<Vec<_>>()));
        }
        Err(Error::BlockImportAborted(_, i, _)) if *i > 0 => {
            // known finding C05-batch-abort: headers before the refused one stay connected, unreported
            if old != new { c.hit("known:C05-batch-abort"); }
        }
        Err(_) => c.check(old == new, "C05", || "the import failed, but the active chain changed".into()),
    }
}

fn sync<S: Store<Header = BlockHeader>>(cache: &BlockCache<S>, m: &mut Model, add: &[BlockHeader]) {
    for h in m.c.clone() { m.known.insert(h.block_hash(), h); }
    for h in add { if cache.is_known(&h.block_hash()) { m.known.insert(h.block_hash(), *h); } }
    m.c = chain_of(cache);
}

fn extend<S: Store<Header = BlockHeader>>(c: &mut Case, cache: &mut BlockCache<S>, m: &mut Model, h: BlockHeader) {
    let th = m.c.len() as u64 - 1;
    let tip = *m.c.last().unwrap();
    let r = cache.extend_tip(h, &Clk(m.now));
    c.op(format!("extend_tip {} -> {}", hx(&h.block_hash()), describe(&r)));
    let new = chain_of(cache);
    let conn = h.prev_blockhash == tip.block_hash();
    let ok = conn && ref_valid(&m.c, &m.p, &m.cps, th, &tip, &h, m.now);
    c.hit(if ok { "extend ok" } else if conn { "extend invalid" } else { "extend other" });
    if ok {
        let mut w = m.c.clone();
        w.push(h);
        c.check(r.is_ok() && new == w, "C01", || "a valid header was not accepted onto the tip".into());
    } else {
        c.check(r.is_err() == conn, "C01", || "invalid header not reported".into());
        c.check(new == m.c, "C01", || "an invalid header was accepted onto the tip".into());
    }
    diff(c, &m.c.clone(), &new, &r, false);
    sync(cache, m, &[h]);
}

fn single<S: Store<Header = BlockHeader>>(c: &mut Case, cache: &mut BlockCache<S>, m: &mut Model, h: BlockHeader) {
    let hash = h.block_hash();
    let dup = m.known.contains_key(&hash) || m.pos(&hash).is_some();
    let tip = *m.c.last().unwrap();
    let th = m.c.len() as u64 - 1;
    let r = cache.import_blocks(std::iter::once(h), &Clk(m.now));
    c.op(format!("import {} -> {}", hx(&hash), describe(&r)));
    let new = chain_of(cache);
    let old = m.c.clone();
    let on_tip = h.prev_blockhash == tip.block_hash();
    let bad_tip = on_tip && !ref_valid(&m.c, &m.p, &m.cps, th, &tip, &h, m.now);
    let bad_pow = !pow_ok(&h) || target(h.bits) > m.p.pow_limit;
    let below_cp = m.pos(&h.prev_blockhash).map_or(false, |x| (x as u64) < m.last_cp());
    if dup {
        c.hit("duplicate");
        c.check(new == old && matches!(r, Ok(ImportResult::TipUnchanged)), "C03", || "a known header changed the chain".into());
        return;
    }
    if bad_tip || bad_pow || below_cp {
        let tag = if bad_tip || bad_pow { "C01" } else { "C07" };
        c.hit(if bad_tip { "invalid on tip" } else if bad_pow { "invalid pow" } else { "below checkpoint" });
        c.check(r.is_err(), tag, || format!("header accepted (invalid on tip: {}, pow: {}, below checkpoint: {})", bad_tip, bad_pow, below_cp));
        c.check(new == old, tag, || "a refused header changed the active chain".into());
        if bad_tip && m.cps.get(&(th + 1)).map_or(false, |x| *x != hash) { c.check(r.is_err(), "C07", || "checkpoint mismatch accepted".into()); }
        sync(cache, m, &[h]);
        return;
    }
    c.check(r.is_ok(), if on_tip { "C01" } else { "C03" }, || format!("acceptable header refused: {}", describe(&r)));
    m.known.insert(hash, h);
    c.check(cache.is_known(&hash), "C04", || "accepted header is not known".into());
    let connects = m.pos(&h.prev_blockhash).is_some() || m.known.contains_key(&h.prev_blockhash);
    selection(c, m, &new, connects, hash);
    diff(c, &old, &new, &r, true);
    sync(cache, m, &[h]);
}

/// C03 and C07: the chosen chain
fn selection(c: &mut Case, m: &Model, new: &[BlockHeader], connects: bool, _hash: BlockHash) {
    let old = &m.c;
    let ow = work(old);
    let nw = work(new);
    let f = old.iter().zip(new.iter()).take_while(|(a, b)| a == b).count();
    if new != &old[..] {
        c.hit(if f == old.len() { "extended" } else { "reorg" });
        let otip = old.last().unwrap().block_hash();
        let ntip = new.last().unwrap().block_hash();
        c.check(nw > ow || (nw == ow && m.p.network != Network::Bitcoin && ntip < otip), "C03", || "switched to a chain with less work (or an unjustified tie)".into());
        c.check(f >= 1 && new[..f] == old[..f], "C03", || "genesis replaced".into());
        if f >= 1 {
            // the whole new part must be valid
            let mut t = new[f - 1];
            for (i, h) in new[f..].iter().enumerate() {
                let ok = ref_valid(old, &m.p, &m.cps, (f - 1 + i) as u64, &t, h, m.now);
                c.check(ok, "C01", || format!("invalid header made active at height {}", f + i));
                t = *h;
            }
        }
        c.check(f as u64 > m.last_cp(), "C07", || format!("reorganised below the last checkpoint {} (fork at {})", m.last_cp(), f - 1));
        for (k, x) in &m.cps { if (*k as usize) < new.len() && *k as usize >= f { c.check(new[*k as usize].block_hash() == *x, "C07", || format!("block at checkpoint {} does not match", k)); } }
    } else { c.hit("unchanged"); }
    let br = m.branches();
    if connects {
        let mut deeper = false;
        for (tip, fh, hs, spec) in &br {
            if !spec { deeper = true; continue; }
            let w = work(&m.switched(*fh, hs));
            c.check(w <= nw, "C03", || format!("branch ending in {} (fork height {}, {} blocks) has more work than the active chain", hx(tip), fh, hs.len()));
        }
        if !deeper && m.p.network != Network::Bitcoin {
            for (tip, fh, hs, _) in &br {
                if work(&m.switched(*fh, hs)) == nw && nw >= ow { c.check(*tip >= new.last().unwrap().block_hash(), "C03", || format!("equal-work tie not broken towards the lower hash: {}", hx(tip))); }
            }
        }
        if !deeper && m.p.network == Network::Bitcoin && br.iter().all(|(_, fh, hs, _)| work(&m.switched(*fh, hs)) <= ow) { c.check(new == &old[..], "C03", || "switched without more work".into()); }
    } else {
        c.check(new == &old[..], "C03", || "a disconnected header changed the chain".into());
    }
}

fn multi<S: Store<Header = BlockHeader>>(c: &mut Case, cache: &mut BlockCache<S>, m: &mut Model, b: Vec<BlockHeader>) {
    let r = cache.import_blocks(b.iter().cloned(), &Clk(m.now));
    c.op(format!("import batch of {} -> {}", b.len(), describe(&r)));
    c.hit("batch");
    let new = chain_of(cache);
    let old = m.c.clone();
    let ow = work(&old);
    let nw = work(&new);
    c.check(nw >= ow, "C03", || "work decreased".into());
    let f = old.iter().zip(new.iter()).take_while(|(a, b)| a == b).count();
    if f < old.len() { c.hit("batch reorg"); }
    c.check(new == old || f as u64 > m.last_cp(), "C07", || format!("reorganised below the last checkpoint {} (fork at {})", m.last_cp(), f - 1));
    diff(c, &old, &new, &r, true);
    sync(cache, m, &b);
}

// ---------------------------------------------------------------- C02
/// next_difficulty_target over stored chains with arbitrary times and bits
pub fn retarget(c: &mut Case) {
    let r = &mut c.rng;
    let net = *r.pick(&[Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest]);
    let mut p = Params::new(net);
    let small = r.chance(3, 4);
    if small {
        p.pow_target_spacing = r.range(1, 20) as u64;
        p.pow_target_timespan = p.pow_target_spacing * r.range(1, 12) as u64 + r.below(p.pow_target_spacing);
    }
    if net != Network::Regtest && r.chance(1, 8) { p.no_pow_retargeting = true; }
    if net == Network::Regtest && r.chance(1, 2) { p.pow_limit = Uint256::from_u64(1).unwrap() << 230; p.no_pow_retargeting = false; }
    let n = if small { r.range(1, 40) } else { r.range(2014, 4040) } as usize;
    let g = nakamoto_common::network::Network::Regtest.genesis();
    let mut v = vec![g];
    let mut t = g.time as i64;
    for _ in 1..n {
        let d = p.pow_target_spacing as i64;
        t += match r.below(6) { 0 => -d, 1 => r.range(0, 20 * d), _ => r.range(0, 2 * d) };
        let par = v.last().unwrap();
        let bits = compact(&(p.pow_limit >> r.usize(40)));
        let x = BlockHeader { version: 1, prev_blockhash: par.block_hash(), merkle_root: TxMerkleNode::all_zeros(), time: t.max(0) as u32, bits, nonce: r.u64() as u32 };
        v.push(x);
    }
    let st = store::Memory::new(NonEmpty::from((v[0], v[1..].to_vec())));
    let cache = match BlockCache::from(st, Params { network: Network::Regtest, ..p.clone() }, &[]) { Ok(x) => x, Err(e) => { c.fail("C02", format!("load: {}", e)); return; } };
    let iv = interval(&p);
    c.op(format!("network={} spacing={} timespan={} interval={} headers={} no_retarget={}", net, p.pow_target_spacing, p.pow_target_timespan, iv, n, p.no_pow_retargeting));
    for _ in 0..40 {
        let r = &mut c.rng;
        let h = if r.chance(1, 2) { (iv * r.below(n as u64 / iv + 2) + iv - 1).min(n as u64 + iv) } else { r.below(n as u64 + 3) };
        let first = v.get(h.saturating_sub(iv - 1) as usize).unwrap_or(&v[0]);
        let ts = p.pow_target_timespan as i64;
        let span = match r.below(8) { 0 => ts / 4 - 1, 1 => ts / 4, 2 => ts * 4, 3 => ts * 4 + 1, 4 => -r.range(0, 3 * ts), 5 => ts, _ => r.range(0, 5 * ts) };
        let time = (first.time as i64 + span).max(0).min(u32::MAX as i64) as u32;
        let mut tgt = p.pow_limit >> r.usize(60);
        if r.chance(1, 2) { tgt = target(compact(&tgt)); }
        if r.chance(1, 3) { let d = Uint256::from_u64(r.u64()).unwrap(); if tgt > d { tgt = tgt - d; } }
        let got = cache.next_difficulty_target(h, time, tgt, &p);
        let want = ref_next_bits(first, h, time, tgt, &p);
        c.hit(if (h + 1) % iv == 0 { "retarget" } else { "between" });
        if got != want {
            c.fail("C02", format!("next_difficulty_target(height {}, time {}, target {:?}) with interval start time {} = {:#x}, the rule gives {:#x}", h, time, tgt, first.time, got, want));
        }
    }
    let nb = c.rng.below(4);
    let nw = [Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest][nb as usize];
    let lim = nakamoto_common::block::pow_limit_bits(&nw);
    c.check(lim == compact(&Params::new(nw).pow_limit), "C02", || format!("pow_limit_bits({}) = {:#x}", nw, lim));
}

// ---------------------------------------------------------------- C07, directed
/// A side branch off a block below a checkpoint, announced with one block missing, completed after the
/// active chain has passed the checkpoint. The side branch is shorter but harder.
pub fn checkpoint(c: &mut Case) {
    let mut p = Params::new(Network::Regtest);
    p.allow_min_difficulty_blocks = false;
    p.no_pow_retargeting = false;
    p.network = *c.rng.pick(&[Network::Bitcoin, Network::Testnet]);
    p.pow_target_spacing = 10;
    p.pow_target_timespan = 40;
    p.pow_limit = Uint256::from_u64(1).unwrap() << 247;
    let mut g = nakamoto_common::network::Network::Regtest.genesis();
    g.bits = compact(&p.pow_limit);
    let mut m = Model { p: p.clone(), cps: BTreeMap::new(), c: vec![g], known: HashMap::new(), now: g.time + 100_000 };
    // planned active chain, slow
    let n = c.rng.range(8, 12);
    let mut plan = m.clone();
    while (plan.c.len() as i64) <= n {
        let tip = *plan.c.last().unwrap();
        let h = plan.c.len() as u64 - 1;
        let t = tip.time + c.rng.range(20, 60) as u32;
        match child(&mut c.rng, &plan, &tip, h, t) { Some(x) => plan.c.push(x), None => return }
    }
    let k = c.rng.range(6, n - 1) as u64;
    m.cps.insert(k, plan.c[k as usize].block_hash());
    let mut cache = match BlockCache::new(store::Memory::new(NonEmpty::new(g)), p.clone(), &[(k, m.cps[&k])]) { Ok(x) => x, Err(_) => return };
    let fh = c.rng.range(0, 4) as usize;
    for i in 1..=fh { single(c, &mut cache, &mut m, plan.c[i]); }
    c.op(format!("checkpoint at {}, side branch forks at {}", k, fh));
    let mut par = m.c[fh];
    let len = c.rng.range(2, (k as i64 - fh as i64 - 1).max(2));
    let w = c.rng.range(1, len - 1);
    let mut kept = None;
    for i in 0..len {
        let (h, t) = ((fh as u64) + i as u64, par.time + 1);
        let x = match child(&mut c.rng, &m, &par, h, t) { Some(x) => x, None => break };
        c.op(format!("  side header {} height {} bits {:x}{}", hx(&x.block_hash()), h + 1, x.bits, if i == w { " (withheld)" } else { "" }));
        if i == w { kept = Some(x); } else { single(c, &mut cache, &mut m, x); }
        par = x;
        if fh == 0 && i == 0 { /* the side block may have become active: fine */ }
    }
    for i in fh + 1..plan.c.len() { single(c, &mut cache, &mut m, plan.c[i]); }
    if m.last_cp() == k { c.hit("passed checkpoint"); }
    if let Some(x) = kept { single(c, &mut cache, &mut m, x); }
    readers(c, &cache, &m);
}
pub fn any_header() -> BlockHeader {
    nakamoto_common::bitcoin::blockdata::constants::genesis_block(Network::Regtest).header
}
