//! The address book's file (C25): what is flushed is what is read back; damage is an error, not a panic.
use crate::store::{scratch, Rm};
use crate::util::*;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::block::time::LocalTime;
use std::collections::BTreeMap;
use std::net::{IpAddr, SocketAddr};

#[allow(dead_code)]
#[path = "/repo/client/src/peer.rs"]
mod cache;
use cache::{Cache, KnownAddress, Source, Store};

const T: &str = "C25";
fn ip(c: &mut Case) -> IpAddr {
    match c.rng.below(4) {
        0 => IpAddr::from([c.rng.below(4) as u8, 1, 2, 3]),
        1 => { let b = c.rng.bytes(4); IpAddr::from([b[0], b[1], b[2], b[3]]) }
        2 => IpAddr::from([0x2001, 0xdb8, 0, 0, 0, 0, 0, c.rng.below(4) as u16]),
        _ => { let mut s = [0u16; 8]; for x in s.iter_mut() { *x = if c.rng.chance(1, 3) { 0 } else { c.rng.u64() as u16 }; } IpAddr::from(s) }
    }
}
fn when(c: &mut Case) -> Option<LocalTime> {
    match c.rng.below(4) { 0 => None, 1 => Some(LocalTime::from_secs(c.rng.below(1 << 32))), 2 => Some(LocalTime::from_secs(*c.rng.pick(&[0, 1, u32::MAX as u64]))), _ => Some(LocalTime::from_secs(c.rng.below(1 << 31)) + nakamoto_common::block::time::LocalDuration::from_millis(c.rng.below(1000) as u128)) }
}
fn known(c: &mut Case, ip: IpAddr) -> KnownAddress {
    let port = c.rng.u64() as u16;
    let services = ServiceFlags::from(match c.rng.below(4) { 0 => 0, 1 => 1 | 64, 2 => u64::MAX, _ => c.rng.u64() });
    let source = match c.rng.below(4) { 0 => Source::Dns, 1 => Source::Imported, _ => { let i = self::ip(c); Source::Peer(SocketAddr::new(i, c.rng.u64() as u16)) } };
    KnownAddress { addr: Address::new(&SocketAddr::new(ip, port), services), source, last_success: when(c), last_sampled: when(c), last_attempt: when(c), last_active: when(c) }
}
/// as it comes back: times to the second
fn seconds(k: &KnownAddress) -> KnownAddress {
    let f = |t: Option<LocalTime>| t.map(|t| LocalTime::from_secs(t.as_secs()));
    KnownAddress { last_success: f(k.last_success), last_sampled: f(k.last_sampled), last_attempt: f(k.last_attempt), last_active: f(k.last_active), ..k.clone() }
}
fn all(s: &impl Store) -> BTreeMap<IpAddr, KnownAddress> { s.iter().map(|(i, k)| (*i, k.clone())).collect() }

pub fn peers(c: &mut Case) {
    let path = scratch(c, "peers");
    let _rm = Rm(path.clone());
    let mut s = match Cache::create(&path) { Ok(s) => s, Err(e) => { c.fail(T, format!("the file is not created: {}", e)); return } };
    c.check(Cache::create(&path).is_err(), T, || "an existing file is created again".into());
    let (mut now, mut saved): (BTreeMap<IpAddr, KnownAddress>, BTreeMap<IpAddr, KnownAddress>) = (BTreeMap::new(), BTreeMap::new());
    // (a store in memory does the same)
    let mut mem: std::collections::HashMap<IpAddr, KnownAddress> = Default::default();
    for _ in 0..5 + c.rng.usize(60) {
        if !c.fails.is_empty() { return; }
        match c.rng.below(12) {
            0..=4 => {
                let i = if !now.is_empty() && c.rng.chance(1, 4) { let v: Vec<IpAddr> = now.keys().cloned().collect(); *c.rng.pick(&v) } else { ip(c) };
                let k = known(c, i);
                let new = !now.contains_key(&i);
                c.op(format!("insert {}", i));
                let r = s.insert(i, k.clone());
                let r2 = Store::insert(&mut mem, i, k.clone());
                c.check(r == new && r2 == new, T, || format!("inserting {} says {}", i, r));
                now.entry(i).or_insert(k);
            }
            5 => {
                let i = if !now.is_empty() && c.rng.chance(3, 4) { let v: Vec<IpAddr> = now.keys().cloned().collect(); *c.rng.pick(&v) } else { ip(c) };
                c.op(format!("remove {}", i));
                let w = now.remove(&i);
                let r = s.remove(&i);
                let r2 = Store::remove(&mut mem, &i);
                c.check(r == w && r2 == w, T, || format!("removing {} gives {:?} instead of {:?}", i, r, w));
            }
            6 => if let Some(i) = now.keys().next().cloned() {
                let t = when(c);
                c.op(format!("change {}", i));
                now.get_mut(&i).unwrap().last_attempt = t;
                match s.get_mut(&i) { Some(k) => k.last_attempt = t, None => c.fail(T, format!("{} is not there", i)) }
                if let Some(k) = Store::get_mut(&mut mem, &i) { k.last_attempt = t; }
            },
            7 if c.rng.chance(1, 6) => { c.op("clear"); s.clear(); Store::clear(&mut mem); now.clear(); }
            8 | 9 => {
                c.op(format!("flush {} addresses", now.len()));
                let r = s.flush();
                c.check(r.is_ok(), T, || format!("flush fails: {:?}", r));
                saved = now.iter().map(|(i, k)| (*i, seconds(k))).collect();
            }
            10 => {
                c.op("open again");
                match Cache::open(&path) {
                    Ok(n) => {
                        let g = all(&n);
                        c.check(g == saved, T, || { let d: Vec<_> = saved.iter().filter(|(i, k)| g.get(i) != Some(k)).take(2).map(|(i, k)| format!("{}: saved {:?}, read {:?}", i, k, g.get(i))).collect(); format!("{} addresses read, {} saved; {}", g.len(), saved.len(), d.join("; ")) });
                        s = n;
                        now = saved.clone();
                        mem = now.clone().into_iter().collect();
                        c.hit("reopened");
                    }
                    Err(e) => c.fail(T, format!("the file of {} addresses is not read back: {}", saved.len(), e)),
                }
            }
            _ => {
                // damage to a copy of the file
                let p2 = path.with_extension("damaged");
                let _rm2 = Rm(p2.clone());
                let mut b = std::fs::read(&path).unwrap();
                if b.is_empty() { continue; }
                match c.rng.below(4) {
                    0 => { let n = c.rng.usize(b.len()); b.truncate(n); }
                    1 => { for _ in 0..1 + c.rng.usize(3) { let k = c.rng.usize(b.len()); b[k] ^= 1 << c.rng.below(8); } }
                    2 => { for _ in 0..1 + c.rng.usize(6) { let k = c.rng.usize(b.len()); b[k] = *c.rng.pick(b"0123456789.:[]{}\"abnull,"); } }
                    _ => { let k = c.rng.usize(b.len()); let n = (k + c.rng.usize(20)).min(b.len()); b.drain(k..n); }
                }
                std::fs::write(&p2, &b).unwrap();
                c.op("open a damaged copy");
                match Cache::open(&p2) { Ok(_) => c.hit("damage not noticed"), Err(_) => c.hit("damage noticed") }
            }
        }
        let g = all(&s);
        c.check(g == now && s.len() == now.len() && s.is_empty() == now.is_empty() && all(&mem) == now && Store::len(&mem) == now.len(), T, || format!("the store has {} addresses instead of {}, or others", g.len(), now.len()));
        if let Some((i, k)) = now.iter().next() { c.check(s.get(i) == Some(k), T, || format!("{} is not found as it was put in", i)); }
    }
}
