//! Components with a self-contained state: adjusted time, timers, filter cache, fee estimator, stream decoder.
use crate::util::*;
use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, Transaction, TxIn, TxOut};
use nakamoto_common::bitcoin::consensus::encode;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::{Block, PackedLockTime, Script, Sequence, Txid, Witness};
use nakamoto_common::block::filter::BlockFilter;
use nakamoto_common::block::time::{AdjustedClock, AdjustedTime, Clock, LocalDuration, LocalTime, RefClock};
use nakamoto_net_poll::time::TimeoutManager;
use nakamoto_p2p::fsm::fees::{FeeEstimate, FeeEstimator};
use nakamoto_p2p::fsm::filter_cache::FilterCache;
use std::collections::{BTreeMap, HashMap, HashSet};

// ---------------------------------------------------------------- C13
pub fn adjusted_time(c: &mut Case) {
    let t = "C13";
    let local = 1_000_000 + c.rng.below(3_000_000_000) as u32;
    let mut at: AdjustedTime<u32> = AdjustedTime::new(LocalTime::from_secs(local as u64));
    let rc: RefClock<AdjustedTime<u32>> = RefClock::from(AdjustedTime::new(LocalTime::from_secs(local as u64)));
    let mut rc = rc;
    let mut samples = vec![0i64];
    let mut seen = HashSet::new();
    let mut want = 0i64;
    let n = if c.rng.chance(1, 4) { 260 } else { 1 + c.rng.below(40) };
    let mode = c.rng.below(4);
    let mut now = local;
    for _ in 0..n {
        let src = c.rng.below(n + n / 2 + 1) as u32;
        let s = match if mode == 3 { c.rng.below(8) } else { mode } {
            0 => c.rng.range(-300, 300),
            1 => c.rng.range(-4300, 4300),
            2 => c.rng.range(3, 6) * 1000 * if c.rng.chance(1, 4) { -1 } else { 1 },
            3 => i64::MIN + c.rng.range(0, 1),
            4 => i64::MAX - c.rng.range(0, 1),
            5 => *c.rng.pick(&[4200, -4200, 4201, -4201, 4199, -4199]),
            _ => c.rng.u64() as i64,
        };
        c.op(format!("record_offset(source {}, {})", src, s));
        at.record_offset(src, s);
        AdjustedClock::record_offset(&mut rc, src, s);
        if seen.len() < 200 && seen.insert(src) {
            samples.push(s);
            if samples.len() >= 5 && samples.len() % 2 == 1 {
                let mut v = samples.clone();
                v.sort();
                let m = v[v.len() / 2];
                want = if m >= -4200 && m <= 4200 { m } else { 0 };
                c.hit(if want == 0 { "median out of range or zero" } else { "adjusted" });
            }
        }
        if c.rng.chance(1, 5) {
            now = 1_000_000 + c.rng.below(3_000_000_000) as u32;
            at.set_local_time(LocalTime::from_secs(now as u64));
            rc.set(LocalTime::from_secs(now as u64));
        }
        if at.offset() != want { c.fail(t, format!("offset is {} after {} sources, expected {}", at.offset(), seen.len(), want)); return; }
        let w = (now as i64 + want) as u32;
        if at.get() != w || at.block_time() != w || rc.block_time() != w { c.fail(t, format!("adjusted time {} / {} / {}, expected {} + {}", at.get(), at.block_time(), rc.block_time(), now, want)); return; }
        if at.local_time() != LocalTime::from_secs(now as u64) || rc.local_time() != LocalTime::from_secs(now as u64) { c.fail(t, "local time is not the one set".to_string()); return; }
        let x = 10_000 + c.rng.below(4_000_000_000) as u32;
        if at.from(x) as i64 != x as i64 + want { c.fail(t, format!("from({}) is {} with offset {}", x, at.from(x), want)); return; }
    }
}

// ---------------------------------------------------------------- C14
pub fn timeouts(c: &mut Case) {
    let t = "C14";
    let ms = |x: u64| LocalTime::from_secs(1000) + LocalDuration::from_millis(x as u128);
    let thr = *c.rng.pick(&[0u64, 1, 3, 1000, 1000, 5000]);
    let mut tm: TimeoutManager<u32> = TimeoutManager::new(LocalDuration::from_millis(thr as u128));
    let mut model: Vec<(u32, u64)> = vec![];
    let mut now = 10_000u64;
    let scale = if thr < 10 { 40 } else { thr * 20 };
    let mut key = 0;
    for _ in 0..1 + c.rng.below(60) {
        match c.rng.below(4) {
            0 | 1 => {
                key += 1;
                let at = if c.rng.chance(1, 8) { now.saturating_sub(c.rng.below(scale)) } else if c.rng.chance(1, 3) && !model.is_empty() { let m = model[c.rng.usize(model.len())].1; let d = thr + c.rng.below(3); if c.rng.chance(1, 2) { m + d.saturating_sub(1) } else { (m + 1).saturating_sub(d) } } else { now + c.rng.below(scale) };
                let want = !model.iter().any(|(_, u)| u.abs_diff(at) < thr);
                c.op(format!("register({}, {} ms)", key, at));
                let got = tm.register(key, ms(at));
                if got != want { c.fail(t, format!("register at {} returned {}, threshold {}, others {:?}", at, got, thr, model)); return; }
                if got { model.push((key, at)); }
            }
            2 => {
                now += c.rng.below(scale / 2 + 1);
                c.op(format!("wake at {}", now));
                let mut woken = vec![77u32];
                let n = tm.wake(ms(now), &mut woken);
                let mut due: Vec<(u64, u32)> = model.iter().filter(|x| x.1 <= now).map(|x| (x.1, x.0)).collect();
                due.sort();
                model.retain(|x| x.1 > now);
                c.hit(if due.is_empty() { "nothing due" } else { "woken" });
                if n != due.len() || woken.len() != n + 1 || woken[0] != 77 { c.fail(t, format!("woke {} ({:?}), {} were due", n, woken, due.len())); return; }
                let mut a: Vec<u32> = woken[1..].to_vec();
                let times: Vec<u64> = a.iter().map(|k| due.iter().find(|d| d.1 == *k).map_or(0, |d| d.0)).collect();
                if times.windows(2).any(|w| w[0] > w[1]) { c.fail(t, format!("woken out of order: {:?}", times)); return; }
                a.sort();
                let mut b: Vec<u32> = due.iter().map(|d| d.1).collect();
                b.sort();
                if a != b { c.fail(t, format!("woken {:?}, due {:?}", a, b)); return; }
            }
            _ => {
                let q = now + c.rng.below(scale);
                let want = model.iter().map(|x| x.1).min().map(|m| m.saturating_sub(q));
                let got = tm.next(ms(q)).map(|d| d.as_millis() as u64);
                if got != want { c.fail(t, format!("next({}) is {:?}, expected {:?}", q, got, want)); return; }
            }
        }
        if tm.len() != model.len() || tm.is_empty() != model.is_empty() { c.fail(t, format!("{} timeouts tracked, expected {}", tm.len(), model.len())); return; }
    }
}

// ---------------------------------------------------------------- C10
pub fn filter_cache(c: &mut Case) {
    let t = "C10";
    let cap = *c.rng.pick(&[0usize, 1, 8, 32, 100, 1000]);
    let mut fc: FilterCache<BlockFilter> = FilterCache::new(cap);
    let mut m: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let big = c.rng.chance(1, 3);
    for _ in 0..1 + c.rng.below(60) {
        if c.rng.chance(3, 4) {
            let h = if c.rng.chance(1, 2) { m.keys().next_back().map_or(5, |h| h + 1) } else { c.rng.below(20) };
            let n = if big { c.rng.usize(cap + 3) } else { c.rng.usize(cap / 4 + 2) };
            let f = c.rng.bytes(n);
            c.op(format!("push({}, {} bytes)", h, n));
            let got = fc.push(h, BlockFilter::new(&f));
            let want = n <= cap;
            if want {
                if m.insert(h, f).is_some() { c.hit("replaced"); }
                while m.values().map(|v| v.len()).sum::<usize>() > cap { let k = *m.keys().next().unwrap(); m.remove(&k); c.hit("evicted"); }
            }
            if got != want { c.fail(t, format!("push of {} bytes with capacity {} returned {}", n, cap, got)); return; }
        } else {
            let h = c.rng.below(25);
            c.op(format!("rollback({})", h));
            fc.rollback(h);
            m.retain(|k, _| *k <= h);
        }
        let size: usize = m.values().map(|v| v.len()).sum();
        if fc.size() != size { c.fail(t, format!("size() is {}, the filters held add up to {}", fc.size(), size)); return; }
        if fc.capacity() != cap || fc.len() != m.len() || fc.is_empty() != m.is_empty() { c.fail(t, format!("len {} expected {}", fc.len(), m.len())); return; }
        if fc.start() != m.keys().next().copied() || fc.end() != m.keys().next_back().copied() { c.fail(t, format!("range {:?}..{:?}, expected {:?}", fc.start(), fc.end(), m.keys().collect::<Vec<_>>())); return; }
        let got: Vec<(u64, Vec<u8>)> = fc.iter().map(|(h, f)| (*h, f.content.clone())).collect();
        let want: Vec<(u64, Vec<u8>)> = m.iter().map(|(h, f)| (*h, f.clone())).collect();
        if got != want { c.fail(t, format!("contents at heights {:?}, expected {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>())); return; }
        if fc.heights().collect::<Vec<_>>() != m.keys().copied().collect::<Vec<_>>() { c.fail(t, "heights() differs from the contents".to_string()); return; }
        for h in 0..26 { if fc.get(&h).map(|f| f.content.clone()) != m.get(&h).cloned() { c.fail(t, format!("get({}) is wrong", h)); return; } }
    }
}

// ---------------------------------------------------------------- C12
fn coinbase(c: &mut Case, tag: u64) -> Transaction {
    let n = 1 + c.rng.usize(3);
    Transaction { version: 1, lock_time: PackedLockTime(0),
        input: vec![TxIn { previous_output: OutPoint::null(), script_sig: Script::from(tag.to_le_bytes().to_vec()), sequence: Sequence::MAX, witness: Witness::default() }],
        output: (0..n).map(|_| TxOut { value: 1 + c.rng.below(5_000_000_000), script_pubkey: Script::new() }).collect() }
}
type Utxo = HashMap<OutPoint, u64>;
fn ref_apply(u: &mut Utxo, tx: &Transaction) -> Option<(u64, u64)> {
    for (i, o) in tx.output.iter().enumerate() { u.insert(OutPoint { txid: tx.txid(), vout: i as u32 }, o.value); }
    if tx.is_coin_base() { return None; }
    let mut got = 0;
    for i in &tx.input { got += u.remove(&i.previous_output)?; }
    Some((got - tx.output.iter().map(|o| o.value).sum::<u64>(), tx.weight() as u64))
}
/// the rate, or two when the exact value is too close to a half to call
fn rates(fee: u64, w: u64) -> Vec<u64> {
    let (n, d) = (8 * fee as u128 + w as u128, 2 * w as u128); // floor(4 fee / w + 1/2)
    let r = (n / d) as u64;
    if n % d == 0 || n % d == d - 1 { vec![r, r.saturating_sub(1), r + 1] } else { vec![r] }
}
pub fn fees(c: &mut Case) {
    let t = "C12";
    // the summary of a list
    {
        let n = c.rng.usize(9);
        let m = *c.rng.pick(&[3u64, 50, 1_000_000, 2_100_000_000_000_000]);
        let v: Vec<u64> = (0..n).map(|_| c.rng.below(m)).collect();
        let mut s = v.clone();
        s.sort();
        let want = if s.is_empty() { None } else {
            Some(FeeEstimate { low: s[0], high: s[n - 1], median: if n % 2 == 1 { s[n / 2] } else { (s[n / 2 - 1] + s[n / 2] + 1) / 2 } })
        };
        let got = FeeEstimate::from(v.clone());
        if got != want { c.op(format!("FeeEstimate::from({:?})", v)); c.fail(t, format!("estimate of {:?} is {:?}, expected {:?}", v, got, want)); return; }
    }
    let mut fe = FeeEstimator::default();
    // states that can be restored, the current one last: (height, utxos)
    let mut hist: Vec<(u64, Utxo)> = vec![(0, Utxo::new())];
    let mut tag = 0;
    let mut all: Vec<OutPoint> = vec![];
    for _ in 0..4 + c.rng.below(30) {
        let (cur, u0) = hist.last().unwrap().clone();
        if c.rng.chance(1, 4) {
            let h = if c.rng.chance(1, 5) { cur + c.rng.below(3) } else { cur.saturating_sub(1 + c.rng.below(3)) };
            let keep = hist.iter().filter(|x| x.0 <= h).count();
            if keep == 0 { continue; } // further back than it remembers
            c.op(format!("rollback({})", h));
            c.hit(if h >= cur { "rollback to the future" } else { "rollback" });
            fe.rollback(h);
            hist.truncate(keep);
            continue;
        }
        let height = if c.rng.chance(1, 10) { cur.saturating_sub(c.rng.below(2)) } else { cur + 1 + if c.rng.chance(1, 5) { c.rng.below(3) } else { 0 } };
        let mut u = u0;
        tag += 1;
        let mut txs = vec![coinbase(c, tag)];
        let mut want: Vec<Vec<u64>> = vec![];
        ref_apply(&mut u, &txs[0]);
        for _ in 0..c.rng.usize(6) {
            let mut avail: Vec<OutPoint> = u.keys().copied().collect();
            avail.sort();
            c.rng.shuffle(&mut avail);
            let k = (1 + c.rng.usize(3)).min(avail.len());
            let mut ins: Vec<OutPoint> = avail[..k].to_vec();
            let total: u64 = ins.iter().map(|o| u[o]).sum();
            if c.rng.chance(1, 8) { // an output that is not known, or spent already
                let o = if c.rng.chance(1, 2) && !all.is_empty() { *c.rng.pick(&all) } else { OutPoint { txid: Txid::from_slice(&c.rng.bytes(32)).unwrap(), vout: 0 } };
                if !ins.contains(&o) && !u.contains_key(&o) { let p = c.rng.usize(ins.len() + 1); ins.insert(p, o); }
            }
            if ins.is_empty() { continue; }
            let fee = if c.rng.chance(1, 10) { 0 } else { c.rng.below(total.min(100_000) + 1) };
            let nout = 1 + c.rng.usize(3);
            let mut left = total - fee;
            let mut out = vec![];
            for i in 0..nout { let v = if i == nout - 1 { left } else { c.rng.below(left + 1) }; left -= v; let n = c.rng.usize(30); out.push(TxOut { value: v, script_pubkey: Script::from(c.rng.bytes(n)) }); }
            let tx = Transaction { version: 2, lock_time: PackedLockTime(c.rng.u64() as u32), input: ins.iter().map(|o| TxIn { previous_output: *o, script_sig: Script::new(), sequence: Sequence::MAX, witness: Witness::default() }).collect(), output: out };
            if let Some((fee, w)) = ref_apply(&mut u, &tx) { want.push(rates(fee, w)); c.hit("fee known"); } else { c.hit("input unknown"); }
            for i in 0..tx.output.len() { all.push(OutPoint { txid: tx.txid(), vout: i as u32 }); }
            txs.push(tx);
        }
        let block = Block { header: crate::chain::any_header(), txdata: txs };
        c.op(format!("process(block with {} txs, {}) expecting {:?}", block.txdata.len(), height, want));
        let got = fe.process(block, height);
        if height <= cur {
            if got.is_some() { c.fail(t, format!("a block at height {} was processed while at {}", height, cur)); return; }
            continue;
        }
        let mut lo: Vec<u64> = want.iter().map(|r| *r.iter().min().unwrap()).collect();
        let mut hi: Vec<u64> = want.iter().map(|r| *r.iter().max().unwrap()).collect();
        lo.sort();
        hi.sort();
        let med = |s: &Vec<u64>| if s.len() % 2 == 1 { s[s.len() / 2] } else { (s[s.len() / 2 - 1] + s[s.len() / 2] + 1) / 2 };
        let ok = match &got {
            None => want.is_empty(),
            Some(e) => !want.is_empty() && e.low >= lo[0] && e.low <= hi[0] && e.high >= lo[lo.len() - 1] && e.high <= hi[hi.len() - 1] && e.median >= med(&lo) && e.median <= med(&hi),
        };
        if !ok { c.fail(t, format!("estimate {:?}, the fee rates are {:?}", got, want)); return; }
        hist.push((height, u));
        if hist.len() > 13 { hist.remove(0); }
    }
}

// ---------------------------------------------------------------- C15
fn message(c: &mut Case) -> NetworkMessage {
    match c.rng.below(8) {
        0 => NetworkMessage::Verack,
        1 => NetworkMessage::Ping(c.rng.u64()),
        2 => NetworkMessage::Pong(c.rng.u64()),
        3 => { let n = c.rng.usize(20); NetworkMessage::Inv((0..n).map(|_| Inventory::Transaction(Txid::from_slice(&c.rng.bytes(32)).unwrap())).collect()) }
        4 => { let n = c.rng.usize(30); NetworkMessage::Headers((0..n).map(|_| crate::chain::any_header()).collect()) }
        5 => { let tag = c.rng.u64(); NetworkMessage::Tx(coinbase(c, tag)) }
        6 => NetworkMessage::SendHeaders,
        _ => { let n = c.rng.usize(700); NetworkMessage::Alert(c.rng.bytes(n)) }
    }
}
pub fn stream(c: &mut Case) {
    let t = "C15";
    let n = 1 + c.rng.usize(8);
    let magic = c.rng.u64() as u32;
    let mut sent = vec![];
    let mut bytes = vec![];
    for _ in 0..n {
        let m = RawNetworkMessage { magic, payload: message(c) };
        bytes.extend(encode::serialize(&m));
        sent.push(m);
    }
    // at most one of: the last message cut short, or followed by one with a broken checksum
    let mut complete = sent.len();
    let mut broken = false;
    if c.rng.chance(1, 4) {
        let l = encode::serialize(sent.last().unwrap()).len();
        let cut = 1 + c.rng.usize(l);
        bytes.truncate(bytes.len() - cut);
        complete -= 1;
        c.hit("cut short");
    } else if c.rng.chance(1, 4) {
        let mut b = encode::serialize(&RawNetworkMessage { magic, payload: NetworkMessage::Ping(c.rng.u64()) });
        let k = 20 + c.rng.usize(12);
        b[k] ^= 1 + c.rng.below(255) as u8;
        bytes.extend(b);
        broken = true;
        c.hit("broken");
    }
    let mut dec = nakamoto_p2p::stream::Decoder::new(c.rng.usize(2000));
    let mut got = 0;
    let mut failed = false;
    let mut off = 0;
    let max = *c.rng.pick(&[1usize, 2, 3, 30, 300, 100_000]);
    while off < bytes.len() && !failed {
        let k = (1 + c.rng.usize(max)).min(bytes.len() - off);
        c.op(format!("input({} bytes at {})", k, off));
        dec.input(&bytes[off..off + k]);
        off += k;
        // sometimes decode nothing, or only one message, between inputs
        let lim = *c.rng.pick(&[0usize, 1, 100, 100]);
        let last = off == bytes.len();
        for _ in 0..if last { 1000 } else { lim } {
            match dec.decode_next::<RawNetworkMessage>() {
                Ok(Some(m)) => {
                    if got >= complete || m != sent[got] { c.fail(t, format!("message {} decoded as {:?}", got, m)); return; }
                    got += 1;
                }
                Ok(None) => break,
                Err(_) => {
                    failed = true;
                    if !broken || got != complete { c.fail(t, format!("error after {} of {} good messages", got, complete)); return; }
                    break;
                }
            }
        }
    }
    if got != complete { c.fail(t, format!("{} messages delivered out of {}", got, complete)); }
    if broken && !failed { c.fail(t, "a message with a broken checksum was not reported".to_string()); }
}
