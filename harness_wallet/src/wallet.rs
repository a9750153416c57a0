//! The wallet's coins (C26): what its addresses were paid and has not been spent.
use crate::util::*;
use nakamoto_client::Client;
use nakamoto_common::bitcoin as btc;
use nakamoto_common::bitcoin::blockdata::opcodes;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::{Address, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use nakamoto_common::network::Network;
use nakamoto_wallet::wallet::db::{Read, Write};
use nakamoto_wallet::wallet::{Db, Hw, Wallet};
use std::collections::BTreeMap;

const T: &str = "C26";
type Reactor = nakamoto_net_poll::Reactor<std::net::TcpStream>;
type Handle = nakamoto_client::Handle<<Reactor as nakamoto_net::Reactor>::Waker>;

struct Rm(std::path::PathBuf);
impl Drop for Rm { fn drop(&mut self) { for x in ["", "-journal", "-wal", "-shm"] { let mut p = self.0.clone().into_os_string(); p.push(x); std::fs::remove_file(p).ok(); } } }
fn scratch(c: &Case) -> std::path::PathBuf {
    let d = std::path::Path::new(if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }).join("nakamoto-verif-scratch");
    std::fs::create_dir_all(&d).ok();
    d.join(format!("wallet-{}-{}", std::process::id(), c.seed))
}
fn script(c: &mut Case) -> Script {
    let h = c.rng.bytes(32);
    let b = btc::blockdata::script::Builder::new();
    match c.rng.below(4) {
        0 => b.push_opcode(opcodes::all::OP_DUP).push_opcode(opcodes::all::OP_HASH160).push_slice(&h[..20]).push_opcode(opcodes::all::OP_EQUALVERIFY).push_opcode(opcodes::all::OP_CHECKSIG).into_script(),
        1 => b.push_opcode(opcodes::all::OP_HASH160).push_slice(&h[..20]).push_opcode(opcodes::all::OP_EQUAL).into_script(),
        2 => b.push_int(0).push_slice(&h[..20]).into_script(),
        _ => b.push_int(0).push_slice(&h).into_script(),
    }
}
fn txid(c: &mut Case) -> Txid { Txid::from_slice(&c.rng.bytes(32)).unwrap() }
fn value(c: &mut Case) -> u64 { match c.rng.below(5) { 0 => *c.rng.pick(&[0u64, 1, 546, 2_100_000_000_000_000, (1 << 32) + 7]), 1 => c.rng.below(1 << 32), _ => c.rng.below(2_000_000_000_000) } }

type Coins = BTreeMap<OutPoint, (Script, u64)>;
fn same(c: &mut Case, db: &Db, want: &Coins, probe: &[OutPoint]) {
    let list = db.utxos().map(|v| { let n = v.len(); (n, v.into_iter().map(|(o, t)| (o, (t.script_pubkey, t.value))).collect::<Coins>()) });
    match list {
        Ok((n, g)) => c.check(n == want.len() && g == *want, T, || format!("the coins listed are {} instead of {}, or others", n, want.len())),
        Err(e) => c.fail(T, format!("the coins are not listed: {}", e)),
    }
    let b: u64 = want.values().map(|v| v.1).sum();
    let g = db.balance().map_err(|e| e.to_string());
    c.check(g == Ok(b), T, || format!("the balance is {:?} instead of {}", g, b));
    for o in probe {
        let g = db.utxo(o).map(|x| x.map(|(o, t)| (o, t.script_pubkey, t.value))).map_err(|e| e.to_string());
        let w = Ok(want.get(o).map(|(s, v)| (*o, s.clone(), *v)));
        c.check(g == w, T, || format!("the coin {} is {:?} instead of {:?}", o, g, w));
    }
}

pub fn coins(c: &mut Case) {
    let path = scratch(c);
    let _rm = Rm(path.clone());
    let net = *c.rng.pick(&[Network::Mainnet, Network::Testnet, Network::Regtest]);
    let mine: Vec<Script> = (0..1 + c.rng.usize(6)).map(|_| script(c)).collect();
    // transactions in the order of the chain: they spend outputs of earlier ones
    let mut txs: Vec<Transaction> = vec![];
    let mut outs: Vec<OutPoint> = vec![];
    let mut paid: Vec<OutPoint> = vec![];
    for n in 0..1 + c.rng.usize(25) {
        let mut input = vec![];
        for _ in 0..1 + c.rng.usize(4) {
            let p = match c.rng.below(6) {
                0 | 1 if !paid.is_empty() => { let k = c.rng.usize(paid.len()); paid.swap_remove(k) }
                2 if !outs.is_empty() => *c.rng.pick(&outs),
                // another output of a transaction that pays us
                3 if !outs.is_empty() => { let mut o = *c.rng.pick(&outs); o.vout = o.vout.wrapping_add(1 + c.rng.below(3) as u32); o }
                4 => OutPoint::null(),
                _ => OutPoint { txid: txid(c), vout: c.rng.below(4) as u32 },
            };
            if input.iter().any(|i: &TxIn| i.previous_output == p) { continue; }
            input.push(TxIn { previous_output: p, script_sig: Script::new(), sequence: Sequence(c.rng.u64() as u32), witness: Witness::new() });
        }
        let output: Vec<TxOut> = (0..1 + c.rng.usize(5)).map(|_| {
            let s = match c.rng.below(5) { 0 | 1 | 2 => c.rng.pick(&mine).clone(), 3 => script(c), _ => Script::from(c.rng.bytes(5)) };
            TxOut { value: value(c), script_pubkey: s }
        }).collect();
        let tx = Transaction { version: n as i32, lock_time: PackedLockTime(c.rng.u64() as u32), input, output };
        for (i, o) in tx.output.iter().enumerate() { let p = OutPoint { txid: tx.txid(), vout: i as u32 }; outs.push(p); if mine.contains(&o.script_pubkey) { paid.push(p); } }
        txs.push(tx);
    }
    let client = match Client::<Reactor>::new() { Ok(x) => x, Err(e) => { c.fail(T, format!("no client: {}", e)); return } };
    let open = |p: &std::path::Path| -> Result<(Wallet<Handle>, Db), String> {
        let a = Db::open(p).map_err(|e| e.to_string())?;
        let b = Db::open(p).map_err(|e| e.to_string())?;
        Ok((Wallet::new(client.handle(), net, a, Hw::new(std::str::FromStr::from_str("m/84'/0'/0'/0").unwrap())), b))
    };
    let (mut w, mut db) = match open(&path) { Ok(x) => x, Err(e) => { c.fail(T, format!("the wallet does not open: {}", e)); return } };
    let mut have = Coins::new();
    same(c, &db, &have, &[OutPoint::null()]);
    // the blocks are scanned again after a restart
    for round in 0..1 + c.rng.usize(2) {
        let stop = if round == 0 && c.rng.chance(1, 2) { c.rng.usize(txs.len() + 1) } else { txs.len() };
        for tx in &txs[..stop] {
            let id = tx.txid();
            c.op(format!("apply {} ({} in, {} out)", id, tx.input.len(), tx.output.len()));
            let known = have.clone();
            w.apply(tx, &mine);
            for (i, o) in tx.output.iter().enumerate() { if mine.contains(&o.script_pubkey) { have.insert(OutPoint { txid: id, vout: i as u32 }, (o.script_pubkey.clone(), o.value)); c.hit("paid"); } }
            for i in &tx.input { if have.remove(&i.previous_output).is_some() && known.contains_key(&i.previous_output) { c.hit("spent"); } }
            let mut probe: Vec<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
            for i in 0..tx.output.len() as u32 + 1 { probe.push(OutPoint { txid: id, vout: i }); }
            same(c, &db, &have, &probe);
            let b: u64 = have.values().map(|v| v.1).sum();
            let g = w.balance().map_err(|e| e.to_string());
            c.check(g == Ok(b), T, || format!("the wallet's balance is {:?} instead of {}", g, b));
            if !c.fails.is_empty() { return; }
            if c.rng.chance(1, 12) {
                c.op("restart");
                drop((w, db));
                match open(&path) { Ok(x) => { w = x.0; db = x.1; } Err(e) => { c.fail(T, format!("the wallet does not open again: {}", e)); return } }
                c.hit("restarts");
                same(c, &db, &have, &[]);
            }
        }
        if stop == txs.len() {
            // by the definition: paid to us, and no transaction spends it
            let mut def = Coins::new();
            for tx in &txs { for (i, o) in tx.output.iter().enumerate() {
                let p = OutPoint { txid: tx.txid(), vout: i as u32 };
                if mine.contains(&o.script_pubkey) && !txs.iter().any(|t| t.input.iter().any(|x| x.previous_output == p)) { def.insert(p, (o.script_pubkey.clone(), o.value)); }
            } }
            same(c, &db, &def, &outs);
            c.hit("scans");
        }
        if round == 0 { c.op("scan again"); }
    }
}

/// the database by itself
pub fn records(c: &mut Case) {
    let path = scratch(c);
    let _rm = Rm(path.clone());
    let net = *c.rng.pick(&[btc::Network::Bitcoin, btc::Network::Testnet, btc::Network::Regtest]);
    let mut db = match if c.rng.chance(1, 2) { Db::memory() } else { Db::open(&path) } { Ok(d) => d, Err(e) => { c.fail(T, format!("the database does not open: {}", e)); return } };
    let file = path.exists();
    let (mut have, mut addrs): (Coins, BTreeMap<String, (usize, Option<String>)>) = Default::default();
    let pool: Vec<OutPoint> = (0..3).flat_map(|_| { let t = txid(c); let v = c.rng.u64() as u32; [OutPoint { txid: t, vout: 0 }, OutPoint { txid: t, vout: 1 }, OutPoint { txid: t, vout: v }] }).collect();
    for n in 0..1 + c.rng.usize(30) {
        let o = *c.rng.pick(&pool);
        match c.rng.below(5) {
            0 | 1 => {
                let (s, v) = (script(c), value(c));
                c.op(format!("add {} {}", o, v));
                let a = Address::from_script(&s, net).unwrap();
                let g = db.add_utxo(o.txid, o.vout, a, v).map_err(|e| e.to_string());
                let new = !have.contains_key(&o);
                c.check(g == Ok(new), T, || format!("adding a coin says {:?} instead of {}", g, new));
                have.entry(o).or_insert((s, v));
            }
            2 => {
                c.op(format!("remove {}", o));
                let g = db.remove_utxo(&o).map(|x| x.map(|(o, t)| (o, t.script_pubkey, t.value))).map_err(|e| e.to_string());
                let w = Ok(have.remove(&o).map(|(s, v)| (o, s, v)));
                c.check(g == w, T, || format!("removing a coin gives {:?} instead of {:?}", g, w));
            }
            3 => {
                let known: Vec<String> = addrs.keys().cloned().collect();
                let label = match c.rng.below(3) { 0 => None, 1 => Some("it's \"mine\"; --".to_string()), _ => Some(format!("{}", n)) };
                let (a, i) = if !known.is_empty() && c.rng.chance(1, 3) { let k = c.rng.pick(&known).clone(); let i = addrs[&k].0; (k, i) } else { (Address::from_script(&script(c), net).unwrap().to_string(), n) };
                c.op(format!("address {} {} {:?}", a, i, label));
                let r = db.add_address(&a.parse().unwrap(), i, label.as_deref());
                c.check(r.is_ok(), T, || format!("adding an address fails: {:?}", r.as_ref().err().map(|e| e.to_string())));
                addrs.insert(a, (i, label));
            }
            _ if file => {
                c.op("reopen");
                drop(db);
                db = match Db::open(&path) { Ok(d) => d, Err(e) => { c.fail(T, format!("the database does not open again: {}", e)); return } };
                c.hit("reopened");
            }
            _ => {}
        }
        same(c, &db, &have, &pool);
        match db.addresses() {
            Ok(v) => { let n = v.len(); let g: BTreeMap<String, (usize, Option<String>)> = v.into_iter().map(|r| (r.address.to_string(), (r.index, r.label))).collect(); c.check(n == addrs.len() && g == addrs, T, || format!("the addresses are {:?} instead of {:?}", g, addrs)); }
            Err(e) => c.fail(T, format!("the addresses are not listed: {}", e)),
        }
        if !c.fails.is_empty() { return; }
    }
}
