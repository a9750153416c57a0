//! Header stores: the file-backed store (on a scratch file) and the in-memory one against a plain vector; block and filter caches reloaded from the file.
use crate::util::*;
use crate::chain::{mine, Clk};
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::{self, Store};
use nakamoto_chain::filter::cache::StoredHeader;
use nakamoto_common::bitcoin::TxMerkleNode;
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{FilterHash, FilterHeader};
use nakamoto_common::block::tree::{BlockReader, BlockTree};
use nakamoto_common::block::{BlockHash, BlockHeader};
use nakamoto_common::nonempty::NonEmpty;
use std::fmt::Debug;
use std::path::PathBuf;

pub fn scratch(c: &Case, what: &str) -> PathBuf {
    let d = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join("nakamoto-verif-scratch"));
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{}-{:?}", what, c.seed, std::thread::current().id()).replace(['(', ')'], ""))
}
pub struct Rm(pub PathBuf);
impl Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }

fn header(r: &mut Rng) -> BlockHeader {
    let mut p = [0u8; 32]; p.copy_from_slice(&r.bytes(32));
    let mut m = [0u8; 32]; m.copy_from_slice(&r.bytes(32));
    BlockHeader { version: r.u64() as i32, prev_blockhash: BlockHash::from_inner(p), merkle_root: TxMerkleNode::from_inner(m), time: r.u64() as u32, bits: r.u64() as u32, nonce: r.u64() as u32 }
}
fn fheader(r: &mut Rng) -> StoredHeader {
    let mut p = [0u8; 32]; p.copy_from_slice(&r.bytes(32));
    let mut m = [0u8; 32]; m.copy_from_slice(&r.bytes(32));
    StoredHeader { hash: FilterHash::from_inner(p), header: FilterHeader::from_inner(m) }
}

fn compare<S: Store>(c: &mut Case, s: &S, model: &[S::Header], what: &str) where S::Header: Debug {
    let eq = |a: &S::Header, b: &S::Header| format!("{:?}", a) == format!("{:?}", b);
    c.check(eq(&s.genesis(), &model[0]), "C06", || format!("{}: genesis differs", what));
    match s.len() { Ok(n) => c.check(n == model.len(), "C06", || format!("{}: len {} but {} headers were stored", what, n, model.len())), Err(e) => c.fail("C06", format!("{}: len failed: {}", what, e)) }
    match s.height() { Ok(n) => c.check(n + 1 == model.len() as u64, "C06", || format!("{}: height {} but {} headers were stored", what, n, model.len())), Err(e) => c.fail("C06", format!("{}: height failed: {}", what, e)) }
    c.check(s.check().is_ok(), "C06", || format!("{}: integrity check failed on intact data", what));
    let mut n = 0;
    for (i, r) in s.iter().enumerate() {
        match r {
            Ok((h, x)) => {
                if i >= model.len() || h != i as u64 || !eq(&x, &model[i]) { c.fail("C06", format!("{}: iteration yields ({}, {:?}) at position {} of {}", what, h, x, i, model.len())); return; }
            }
            Err(e) => { c.fail("C06", format!("{}: iteration failed at {}: {}", what, i, e)); return; }
        }
        n = i + 1;
    }
    c.check(n == model.len(), "C06", || format!("{}: iteration yields {} of {} headers", what, n, model.len()));
    for _ in 0..4 {
        let h = c.rng.usize(model.len() + 3);
        match s.get(h as u64) {
            Ok(x) => c.check(h < model.len() && eq(&x, &model[h]), "C06", || format!("{}: get({}) returned {:?}", what, h, x)),
            Err(e) => c.check(h >= model.len(), "C06", || format!("{}: get({}) of {} failed: {}", what, h, model.len(), e)),
        }
    }
}

fn drive<S: Store>(c: &mut Case, s: &mut S, model: &mut Vec<S::Header>, gen: fn(&mut Rng) -> S::Header, what: &str) where S::Header: Debug + Copy {
    if c.rng.chance(3, 5) {
        let n = match c.rng.below(5) { 0 => 0, 1 => 1, 2 => c.rng.range(14, 18), 3 => c.rng.range(30, 34), _ => c.rng.range(1, 50) };
        let v: Vec<_> = (0..n).map(|_| gen(&mut c.rng)).collect();
        c.op(format!("{}: put {}", what, n));
        match s.put(v.iter().cloned()) {
            Ok(h) => { model.extend(v); c.check(h + 1 == model.len() as u64, "C06", || format!("{}: put returned height {}, expected {}", what, h, model.len() - 1)); }
            Err(e) => c.fail("C06", format!("{}: put failed: {}", what, e)),
        }
    } else {
        let h = c.rng.usize(model.len());
        c.op(format!("{}: rollback to {}", what, h));
        if let Err(e) = s.rollback(h as u64) { c.fail("C06", format!("{}: rollback failed: {}", what, e)); }
        model.truncate(h + 1);
    }
    if c.rng.chance(1, 4) { if s.sync().is_err() { c.fail("C06", "sync failed"); } }
    compare(c, s, model, what);
}

fn file_ops<H: 'static + Copy + Debug>(c: &mut Case, gen: fn(&mut Rng) -> H, size: u64)
where store::File<H>: Store<Header = H> {
    let path = scratch(c, "store");
    let _rm = Rm(path.clone());
    let g = gen(&mut c.rng);
    let mut s = match store::File::open(&path, g) { Ok(s) => s, Err(e) => { c.fail("C06", format!("open: {}", e)); return; } };
    let mut model = vec![g];
    for _ in 0..c.rng.range(4, 14) {
        drive(c, &mut s, &mut model, gen, "file");
        if !c.fails.is_empty() { return; }
        if c.rng.chance(1, 3) {
            c.op("reopen");
            drop(s);
            s = match store::File::open(&path, g) { Ok(s) => s, Err(e) => { c.fail("C06", format!("reopen: {}", e)); return; } };
            compare(c, &s, &model, "reopened file");
        }
        if c.rng.chance(1, 3) {
            // a crash in the middle of an append: only a prefix of its bytes reached the disk
            let n = c.rng.range(1, 20) as u64;
            let v: Vec<H> = (0..n).map(|_| gen(&mut c.rng)).collect();
            let before = (model.len() as u64 - 1) * size;
            if s.put(v.iter().cloned()).is_err() { c.fail("C06", "put failed"); return; }
            drop(s);
            let cut = c.rng.below(n * size + 1);
            let cut = if c.rng.chance(1, 4) { cut - cut % size } else { cut };
            c.op(format!("append {} headers, crash after {} bytes, heal", n, cut));
            std::fs::OpenOptions::new().write(true).open(&path).and_then(|f| f.set_len(before + cut)).unwrap();
            s = match store::File::open(&path, g) { Ok(s) => s, Err(e) => { c.fail("C06", format!("reopen: {}", e)); return; } };
            c.check(s.check().is_ok() == (cut % size == 0), "C06", || format!("check() does not tell whether a partial record is there ({} extra bytes)", cut % size));
            c.check(s.len().is_ok() == (cut % size == 0), "C06", || "len() on a partial record".into());
            if let Err(e) = s.heal() { c.fail("C06", format!("heal failed: {}", e)); return; }
            c.check(s.check().is_ok(), "C06", || "check() fails after heal()".into());
            model.extend(v[..(cut / size) as usize].iter());
            c.hit("crash + heal");
            compare(c, &s, &model, "healed file");
        }
        if !c.fails.is_empty() { return; }
    }
}

pub fn ops(c: &mut Case) {
    match c.rng.below(3) {
        0 => file_ops::<BlockHeader>(c, header, 80),
        1 => file_ops::<StoredHeader>(c, fheader, 64),
        _ => {
            let g = header(&mut c.rng);
            let mut model = vec![g];
            let mut s = store::Memory::new(NonEmpty::new(g));
            for _ in 0..c.rng.range(4, 20) {
                drive(c, &mut s, &mut model, header, "memory");
                if !c.fails.is_empty() { return; }
            }
        }
    }
}

/// a block cache over a file: after any imports, what is on disk is the active chain, and reloading gives it back
pub fn reload(c: &mut Case) {
    let path = scratch(c, "chain");
    let _rm = Rm(path.clone());
    let net = nakamoto_common::network::Network::Regtest;
    let p = net.params();
    let g = net.genesis();
    let open = |c: &mut Case| -> Option<BlockCache<store::File<BlockHeader>>> {
        let s = match store::File::open(&path, g) { Ok(s) => s, Err(e) => { c.fail("C06", format!("open: {}", e)); return None; } };
        match BlockCache::from(s, p.clone(), &[]) { Ok(x) => Some(x), Err(e) => { c.fail("C06", format!("loading the stored chain failed: {}", e)); None } }
    };
    let mut cache = match open(c) { Some(x) => x, None => return };
    let mut known = vec![(0u64, g)];
    let clk = Clk(g.time + 1_000_000);
    for step in 0..c.rng.range(10, 60) {
        let tip = cache.tip().1;
        let (h, par) = if c.rng.chance(2, 3) { (cache.height(), tip) } else { let lo = known.len().saturating_sub(12); let k = lo + c.rng.usize(known.len() - lo); known[k] };
        let x = BlockHeader { version: 1, prev_blockhash: par.block_hash(), merkle_root: TxMerkleNode::from_inner([c.rng.u64() as u8; 32]), time: par.time + 1 + c.rng.below(30) as u32, bits: g.bits, nonce: step as u32 * 1000 };
        let x = match mine(x, 200) { Some(x) => x, None => continue };
        known.push((h + 1, x));
        let _ = cache.import_blocks(std::iter::once(x), &clk);
        if c.rng.chance(1, 6) {
            let want: Vec<_> = cache.iter().map(|(_, b)| b).collect();
            let (work, ht, th) = (cache.chain_work(), cache.height(), cache.tip().0);
            c.op(format!("reload at height {}", ht));
            drop(cache);
            cache = match open(c) { Some(x) => x, None => return };
            let got: Vec<_> = cache.iter().map(|(_, b)| b).collect();
            c.check(got == want, "C06", || format!("the chain loaded from disk has {} blocks, tip {:?}; the active chain had {}, tip {}", got.len(), got.last().map(|b| b.block_hash()), want.len(), th));
            c.check(cache.chain_work() == work && cache.height() == ht && cache.tip().0 == th, "C06", || "work, height or tip differ after reloading".into());
            for (i, b) in want.iter().enumerate() {
                let ok = cache.get_block(&b.block_hash()).map_or(false, |(h, y)| h == i as u64 && y == b);
                if !ok { c.fail("C06", format!("block {} cannot be looked up by hash after reloading", i)); }
            }
            if ht > 0 { c.hit("reload"); }
            if !c.fails.is_empty() { return; }
        }
    }
}
