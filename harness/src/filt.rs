//! The filter header chain on its own: `FilterCache` over a file and over memory against a plain vector.
use crate::store::{scratch, Rm};
use crate::util::*;
use nakamoto_chain::block::store::{self, Store};
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{FilterHash, FilterHeader, Filters};
use nakamoto_common::block::store::Genesis;
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;

type H = (FilterHash, FilterHeader);
fn fhash(r: &mut Rng) -> FilterHash { FilterHash::hash(&r.bytes(9)) }
/// the chain is genesis followed by linked headers
fn unbroken(net: Network, m: &[H]) -> bool {
    let mut prev = FilterHeader::all_zeros();
    for (h, x) in m { if h.filter_header(&prev) != *x { return false; } prev = *x; }
    m[0].1 == FilterHeader::genesis(net)
}
fn compare<S: Store<Header = StoredHeader>>(c: &mut Case, f: &FilterCache<S>, m: &[H], net: Network) {
    let n = m.len() as u64 - 1;
    c.check(f.height() == n, "C09", || format!("height {} with {} headers imported", f.height(), n));
    let (a, b) = f.tip();
    c.check((*a, *b) == m[n as usize], "C09", || "the tip is not the last header".into());
    c.check(f.get_prev_header(0) == Some(FilterHeader::all_zeros()), "C09", || "the header before genesis is not the zero hash".into());
    for h in [0, n / 2, n.saturating_sub(1), n, n + 1, n + 2] {
        c.check(f.get_header(h) == m.get(h as usize).cloned(), "C09", || format!("get_header({}) of {}", h, n));
        if h > 0 { c.check(f.get_prev_header(h) == m.get(h as usize - 1).map(|x| x.1), "C09", || format!("get_prev_header({}) of {}", h, n)); }
    }
    for _ in 0..3 {
        let a = c.rng.below(n + 3);
        let b = a + c.rng.below(n + 3);
        let got = f.get_headers(a..=b);
        let want: Vec<H> = m.iter().skip(a as usize).take((b - a + 1) as usize).cloned().collect();
        c.check(got == want, "C09", || format!("get_headers({}..={}) of {}: {} headers instead of {}", a, b, n, got.len(), want.len()));
    }
    let ok = unbroken(net, m);
    c.check(f.verify(net).is_ok() == ok, "C09", || format!("verify() on {} headers says {:?}, but the chain is {}", n, f.verify(net).is_ok(), if ok { "unbroken" } else { "broken" }));
    c.hit(if ok { "chain-unbroken" } else { "chain-broken" });
}
fn run<S: Store<Header = StoredHeader>>(c: &mut Case, net: Network, m: &mut Vec<H>, mut open: impl FnMut(Option<S>) -> Result<S, String>, reopen: bool) {
    let s = match open(None) { Ok(s) => s, Err(e) => { c.fail("C09", format!("open: {}", e)); return; } };
    let mut f = match FilterCache::load(s) { Ok(f) => f, Err(e) => { c.fail("C09", format!("load: {}", e)); return; } };
    compare(c, &f, m, net);
    for _ in 0..6 + c.rng.usize(14) {
        match c.rng.below(10) {
            0..=4 => {
                let n = c.rng.usize(5);
                let mut prev = m.last().unwrap().1;
                let mut v = vec![];
                for _ in 0..n {
                    let h = fhash(&mut c.rng);
                    prev = if c.rng.chance(1, 40) { FilterHeader::from_inner(fhash(&mut c.rng).into_inner()) } else { h.filter_header(&prev) };
                    v.push((h, prev));
                }
                c.op(format!("import {} at {}", n, m.len()));
                m.extend(v.iter().cloned());
                match f.import_headers(v) { Ok(h) => c.check(h == m.len() as u64 - 1, "C09", || format!("import returns height {} instead of {}", h, m.len() - 1)), Err(e) => c.fail("C09", format!("import: {}", e)) }
            }
            5..=6 => {
                let n = m.len() as u64 - 1;
                let h = c.rng.below(n + 1);
                c.op(format!("rollback to {} of {}", h, n));
                if let Err(e) = f.rollback(h) { c.fail("C09", format!("rollback: {}", e)); }
                m.truncate(h as usize + 1);
            }
            7 => if c.rng.chance(1, 3) {
                c.op("clear");
                if let Err(e) = f.clear() { c.fail("C09", format!("clear: {}", e)); }
                m.truncate(1);
            },
            _ => if reopen {
                c.op("reload");
                drop(f);
                let s = match open(None) { Ok(s) => s, Err(e) => { c.fail("C09", format!("reopen: {}", e)); return; } };
                f = match FilterCache::load(s) { Ok(f) => f, Err(e) => { c.fail("C09", format!("reload: {}", e)); return; } };
                c.hit("reload");
            },
        }
        compare(c, &f, m, net);
        if !c.fails.is_empty() { return; }
    }
}
pub fn cache(c: &mut Case) {
    let net = *c.rng.pick(&[Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet]);
    let g = StoredHeader::genesis(net);
    let mut m: Vec<H> = vec![(g.hash, g.header)];
    if c.rng.chance(1, 10) {
        // a store whose first header is not the network's
        let h = fhash(&mut c.rng);
        m = vec![(h, h.filter_header(&FilterHeader::all_zeros()))];
    }
    let first = StoredHeader { hash: m[0].0, header: m[0].1 };
    if c.rng.chance(1, 2) {
        run(c, net, &mut m, |_: Option<store::Memory<StoredHeader>>| Ok(store::Memory::new(NonEmpty::new(first))), false);
    } else {
        let path = scratch(c, "filters");
        let _rm = Rm(path.clone());
        let _ = std::fs::remove_file(&path);
        run(c, net, &mut m, |_: Option<store::File<StoredHeader>>| store::File::open(&path, first).map_err(|e| e.to_string()), true);
    }
}
/// verification notices any altered, dropped, repeated or exchanged header of a long chain
pub fn verify(c: &mut Case) {
    let net = *c.rng.pick(&[Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet]);
    let g = StoredHeader::genesis(net);
    let mut m: Vec<H> = vec![(g.hash, g.header)];
    for _ in 0..c.rng.usize(40) { let h = fhash(&mut c.rng); let p = m.last().unwrap().1; m.push((h, h.filter_header(&p))); }
    let k = c.rng.usize(m.len());
    let what = c.rng.below(7);
    match what {
        0 => {}
        1 => m[k].0 = fhash(&mut c.rng),
        2 => m[k].1 = FilterHeader::from_inner(fhash(&mut c.rng).into_inner()),
        3 => if k > 0 { m.remove(k); },
        4 => { let x = m[k]; m.insert(k, x); }
        5 => if m.len() > 2 { let j = 1 + c.rng.usize(m.len() - 1); let k = k.max(1); m.swap(j, k); },
        _ => { let h = fhash(&mut c.rng); let p = if k > 0 { m[k - 1].1 } else { FilterHeader::all_zeros() }; m[k] = (h, h.filter_header(&p)); }
    }
    c.op(format!("{:?}: {} headers, alteration {} at {}", net, m.len(), what, k));
    let hs: Vec<StoredHeader> = m.iter().map(|(hash, header)| StoredHeader { hash: *hash, header: *header }).collect();
    let f = match FilterCache::load(store::Memory::new(NonEmpty::from_vec(hs).unwrap())) { Ok(f) => f, Err(e) => { c.fail("C09", format!("load: {}", e)); return; } };
    compare(c, &f, &m, net);
}
