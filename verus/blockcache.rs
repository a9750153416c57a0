// Unit: the block tree (chain/src/block/cache.rs and the parts of common/src/block it uses).
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {

global size_of usize == 8;

pub type Height = u64;
pub type BlockTime = u32;
pub type Bits = u32;
pub type Target = Uint256;
pub type Work = Uint256;

pub mod dep {
use vstd::prelude::*;
//@@ include shim_uint.rs
//@@ include shim_header.rs
//@@ include shim_params.rs
//@@ include shim_coll.rs
//@@ include shim_iter.rs
}
use dep::*;
use dep::bitcoin;

broadcast use {dep::axiom_u256, dep::lemma_wrap_range, dep::lemma_wrap_small, dep::lemma_wrap_add, dep::lemma_wrap_sub, dep::axiom_target_bound, dep::axiom_work_bound, spc::axiom_sorted_len};

//@@ struct chain/src/block/cache.rs | struct CachedBlock
//@ attr: #[derive(Clone, Copy)]
//@@ end
//@@ struct chain/src/block/cache.rs | struct Candidate
//@@ end
//@@ struct chain/src/block/cache.rs | struct BlockCache
//@ attr: #[verifier::reject_recursive_types(S)]
//@@ end

pub mod store { pub struct Error {} }
pub trait Store: Sized {
    /// the persisted sequence of headers, genesis first
    spec fn seq(&self) -> Seq<BlockHeader>;
    fn put(&mut self, headers: Vec<BlockHeader>) -> (r: Result<Height, Error>)
        ensures r.is_err() ==> r->Err_0 is Store, r.is_ok() ==> final(self).seq() == old(self).seq() + headers@;
    fn genesis(&self) -> (r: BlockHeader) requires self.seq().len() >= 1 ensures r == self.seq()[0];
    fn len(&self) -> (r: Result<usize, Error>) ensures r.is_ok() ==> r->Ok_0 == self.seq().len();
    /// heights and headers in order; ends early only with an error
    fn iter(&self) -> (r: SeqIter<Result<(Height, BlockHeader), Error>>)
        ensures forall|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).is_ok() ==> i < self.seq().len() && r@[i]->Ok_0 == (i as u64, self.seq()[i]),
            r@.len() >= 1, r@[0].is_ok(),
            r@.len() == self.seq().len() || exists|k: int| 1 <= k < r@.len() && (#[trigger] r@[k]).is_err();
    fn rollback(&mut self, height: Height) -> (r: Result<(), Error>)
        ensures r.is_err() ==> r->Err_0 is Store, r.is_ok() && height < old(self).seq().len() ==> final(self).seq() == old(self).seq().take(height + 1);
}
pub trait Clock { 
    spec fn now(&self) -> u32;
    fn block_time(&self) -> (r: BlockTime) ensures r == self.now();
}
pub enum Error {
    InvalidBlockPoW,
    InvalidBlockTarget(Target, Target),
    InvalidBlockHash(BlockHash, Height),
    InvalidBlockHeight(Height),
    InvalidBlockTime(BlockTime, Ordering),
    InvalidChain,
    DuplicateBlock(BlockHash),
    BlockMissing(BlockHash),
    BlockImportAborted(Box<Error>, usize, Height),
    Store(store::Error),
    Interrupted,
    GenesisMismatch,
}
pub enum ImportResult {
    TipChanged { header: BlockHeader, hash: BlockHash, height: Height, reverted: Vec<(Height, BlockHeader)>, connected: NonEmpty<(Height, BlockHeader)> },
    TipUnchanged,
}

// ---- total work -------------------------------------------------------------
pub trait Header {
    spec fn w(&self) -> nat;
    fn work(&self) -> (r: Work) ensures r.v() == self.w();
}
impl Header for BlockHeader {
    open spec fn w(&self) -> nat { work_of(*self) }
    #[verifier::external_body]
    fn work(&self) -> (r: Work) { unimplemented!() }
}
impl Header for CachedBlock {
    open spec fn w(&self) -> nat { work_of(self.header) }
//@@ fn chain/src/block/cache.rs | impl tree :: Header for CachedBlock / fn work
//@@ end
}
pub open spec fn total<H: Header>(s: Seq<H>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().w() }
}
pub struct Branch<'a, H: Header>(pub &'a [H]);
impl<'a, H: Header> Branch<'a, H> {
//@@ fn common/src/block/tree.rs | impl Branch / fn work
//@ spec:
    ensures r.v() == wrap(total(self.0@))
//@ loop 0 it=it:
    invariant
        it.seq().len() == self.0@.len(),
        forall|i: int| 0 <= i < self.0@.len() ==> *#[trigger] it.seq()[i] == self.0@[i],
        work.v() == wrap(total(self.0@.take(it.index@))),
//@ loop_end 0:
    proof {
        let n = it.index@;
        assert(self.0@.take(n + 1).drop_last() =~= self.0@.take(n));
        assert(self.0@.take(n + 1).last() == self.0@[n]);
    }
//@ loop_after 0:
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@@ end
}

impl CachedBlock {
//@@ fn chain/src/block/cache.rs | impl CachedBlock / fn hash
//@ spec:
    ensures r == hash_of(self.header)
//@@ end
}
impl std::ops::Deref for CachedBlock {
    type Target = BlockHeader;
//@@ fn chain/src/block/cache.rs | impl std :: ops :: Deref for CachedBlock / fn deref
//@ spec:
    ensures *r == self.header
//@@ end
}

/// A Vec never holds more than isize::MAX bytes; headers take 80 bytes, cached blocks 88.
pub axiom fn axiom_chain_mem(c: NonEmpty<CachedBlock>) ensures c@.len() <= 0x200_0000_0000_0000;
pub broadcast axiom fn axiom_branch_mem(v: Vec<BlockHeader>) ensures #[trigger] v@.len() <= 0x200_0000_0000_0000;

//@@ include spec_retarget.rs

pub mod spc { use super::*;
/// the elements in ascending order (std sort)
pub uninterp spec fn sorted<T>(s: Seq<T>) -> Seq<T>;
pub broadcast axiom fn axiom_sorted_len<T>(s: Seq<T>) ensures #[trigger] sorted(s).len() == s.len();
}
use spc::*;
// ---- what a valid header is (written from the consensus rules) ----------------
pub spec const MAX_FUTURE: int = 7200;   // two hours
pub open spec fn times_of(c: Seq<CachedBlock>, lo: int, hi: int) -> Seq<u32> {
    Seq::new((hi - lo) as nat, |i: int| c[lo + i].header.time)
}


/// Median of the timestamps of the (at most 11) blocks before `height`.
pub open spec fn mtp(c: Seq<CachedBlock>, height: int) -> u32 {
    let lo = sat_sub(height, 11);
    let t = sorted(times_of(c, lo, height));
    t[t.len() as int / 2]
}
/// Bits of the last block that was not mined under the minimum-difficulty exception.
pub open spec fn walk_bits(c: Seq<CachedBlock>, n: int, limit: u32, interval: int) -> u32 decreases n {
    if n <= 0 { limit } else if c[n - 1].header.bits != limit || (n - 1) % interval == 0 { c[n - 1].header.bits } else { walk_bits(c, n - 1, limit, interval) }
}
/// compact encoding of each network's proof-of-work limit (Bitcoin Core chainparams)
pub open spec fn limit_bits(n: Network) -> u32 { match n { Network::Bitcoin => 0x1d00ffff, Network::Testnet => 0x1d00ffff, Network::Regtest => 0x207fffff, Network::Signet => 0x1e0377ae } }

/// block locator heights from `from` down: the distance doubles from the ninth entry on, and genesis is always last
pub open spec fn u64s(s: Seq<u64>, n: u64) -> bool { true }
pub open spec fn loc_step(n: int) -> int decreases n { if n < 8 { 1 } else { 2 * loc_step(n - 1) } }
pub open spec fn loc(from: int, n: int) -> Seq<int> decreases from {
    if from <= 0 { seq![0] } else { seq![from] + loc(if loc_step(n) > 0 { sat_sub(from, loc_step(n)) } else { 0 }, n + 1) }
}
pub proof fn lemma_loc(from: int, n: int) requires from >= 0
    ensures loc(from, n).len() >= 1, forall|i: int| 0 <= i < loc(from, n).len() ==> 0 <= #[trigger] loc(from, n)[i] <= from,
        loc(from, n)[0] == from, loc(from, n).last() == 0,
        forall|i: int| 0 < i < loc(from, n).len() ==> #[trigger] loc(from, n)[i] < from
    decreases from
{
    if from > 0 {
        let f2 = if loc_step(n) > 0 { sat_sub(from, loc_step(n)) } else { 0 };
        lemma_loc(f2, n + 1);
        assert(loc(from, n) =~= seq![from] + loc(f2, n + 1));
        assert forall|i: int| 0 < i < loc(from, n).len() implies 0 <= #[trigger] loc(from, n)[i] < from by { assert(loc(from, n)[i] == loc(f2, n + 1)[i - 1]); }
        assert(loc(from, n).last() == loc(f2, n + 1).last());
    }
}
pub mod block { use super::*;
//@@ fn common/src/block.rs | fn pow_limit_bits
//@ props: C01 C02
//@ sigsubst: fn pow_limit_bits =>> pub fn pow_limit_bits
//@ spec:
    ensures r == limit_bits(*network)
//@@ end
//@@ fn common/src/block.rs | fn locators_indexes
//@ props: C08
//@ spec:
    ensures r@.len() == loc(from as int, 0).len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == loc(from as int, 0)[i]
//@ entry:
    let ghost f0 = from as int;
    let ghost mut sub: int = 0;
//@ loop 0:
    invariant
        u64s(indexes@, step),
        step == (if indexes@.len() == 0 { 1 } else { loc_step(indexes@.len() - 1) }),
        step >= 1, indexes@.len() > 0 ==> sub >= 2 * step - 1, sub >= 0, from + sub <= f0 || from == 0, f0 <= u64::MAX,
        loc(f0, 0).len() == indexes@.len() + loc(from as int, indexes@.len() as int).len(),
        forall|i: int| 0 <= i < indexes@.len() ==> #[trigger] indexes@[i] == loc(f0, 0)[i],
        forall|i: int| 0 <= i < loc(from as int, indexes@.len() as int).len() ==> #[trigger] loc(from as int, indexes@.len() as int)[i] == loc(f0, 0)[indexes@.len() + i],
    decreases from
//@ loop_end 0:
    proof {
        sub = sub + step;
        let n = indexes@.len() as int;
        assert(from1 > 0);
        assert(L == seq![from1] + loc(from as int, n));
        assert forall|i: int| 0 <= i < loc(from as int, n).len() implies #[trigger] loc(from as int, n)[i] == loc(f0, 0)[n + i] by { assert(L[i + 1] == loc(from as int, n)[i]); assert(L[i + 1] == loc(f0, 0)[n - 1 + (i + 1)]); }
    }
//@ loop_start 0:
    let ghost from1 = from as int;
    let ghost L = loc(from as int, indexes@.len() as int);
    proof { let n = indexes@.len() as int; assert(loc(from as int, n)[0] == loc(f0, 0)[n + 0]); }
//@ loop_after 0:
    proof { let n = indexes@.len() as int; assert(loc(from as int, n)[0] == loc(f0, 0)[n + 0]); }
//@ sigsubst: fn locators_indexes =>> pub fn locators_indexes
//@@ end
}
pub mod time { use super::*;
//@@ const common/src/block/time.rs | const MEDIAN_TIME_SPAN
//@@ end
//@@ const common/src/block/time.rs | const MAX_FUTURE_BLOCK_TIME
//@@ end
}

// ---- representation invariant -----------------------------------------------
pub open spec fn hdrs(c: Seq<CachedBlock>) -> Seq<BlockHeader> { c.map_values(|b: CachedBlock| b.header) }

/// what header validity depends on: the active chain and its index, the consensus parameters, the checkpoints
pub ghost struct Env { pub ch: Seq<CachedBlock>, pub m: Map<BlockHash, Height>, pub params: Params, pub k: Map<Height, BlockHash> }
impl Env {
    pub open spec fn c(self) -> Seq<CachedBlock> { self.ch }
    pub open spec fn hdr_at(self, h: int) -> BlockHeader { if h < self.c().len() { self.c()[h].header } else { self.c()[0].header } }

    /// the compact target the next block after (height, tip) must carry
    pub open spec fn required_bits(self, height: int, tip: BlockHeader, header: BlockHeader) -> u32 {
        if self.params.allow_min_difficulty_blocks && (height + 1) % self.params.interval() != 0 {
            if header.time > tip.time + self.params.pow_target_spacing * 2 { limit_bits(self.params.network) }
            else { walk_bits(self.c(), self.c().len() as int, limit_bits(self.params.network), self.params.interval()) }
        } else {
            spec_next_bits(self.hdr_at(sat_sub(height, self.params.interval() - 1)), height, tip.time as int, target_of(tip.bits), self.params)
        }
    }
    pub open spec fn checkpoint_ok(self, height: int, header: BlockHeader) -> bool {
        self.k.contains_key(height as Height) ==> self.k[height as Height] == hash_of(header)
    }
    /// `header` may follow `tip` (at `height`), as of time `now`
    #[verifier::opaque]
    pub open spec fn valid_next(self, height: int, tip: BlockHeader, header: BlockHeader, now: int) -> bool {
        &&& target_of(header.bits) == target_of(self.required_bits(height, tip, header))
        &&& pow_ok(header)
        &&& self.checkpoint_ok(height + 1, header)
        &&& (height < self.c().len() ==> header.time > mtp(self.c(), height + 1))
        &&& header.time <= now + MAX_FUTURE
    }

    /// every header of `hs` may follow its predecessor, starting from the active block at `fh`
    pub open spec fn valid_seq(self, fh: int, hs: Seq<BlockHeader>, now: int) -> bool {
        forall|i: int| 0 <= i < hs.len() ==> #[trigger] self.valid_at(fh, hs, i, now)
    }
    /// no valid side branch (of at most one block more than the active chain) would end up with more than `w` total work
    #[verifier::opaque]
    pub open spec fn optimal(self, o: Map<BlockHash, BlockHeader>, now: int, w: int) -> bool {
        forall|h: BlockHash| #[trigger] o.contains_key(h) && self.considered_o(o, h, now) ==> total(switched(self.c(), self.fork_of(o, h), path(o, h))) <= w
    }
    pub open spec fn links(self, fh: int, hs: Seq<BlockHeader>) -> bool { forall|i: int| 0 <= i < hs.len() ==> #[trigger] self.link_at(fh, hs, i) }
    pub open spec fn link_at(self, fh: int, hs: Seq<BlockHeader>, i: int) -> bool { hs[i].prev_blockhash == hash_of(self.prev_in(fh, hs, i)) }
    pub open spec fn valid_at(self, fh: int, hs: Seq<BlockHeader>, i: int, now: int) -> bool { self.valid_next(fh + i, self.prev_in(fh, hs, i), hs[i], now) }
    pub proof fn lemma_valid_time(self, height: int, tip: BlockHeader, header: BlockHeader, now: int)
        requires self.valid_next(height, tip, header, now) ensures header.time <= now + MAX_FUTURE, pow_ok(header), target_of(header.bits) == target_of(self.required_bits(height, tip, header))
    { reveal(Env::valid_next); }
    pub open spec fn prev_in(self, fh: int, hs: Seq<BlockHeader>, i: int) -> BlockHeader { if i == 0 { self.c()[fh].header } else { hs[i - 1] } }
    /// no checkpoint the active chain has reached lies above `fh`
    pub open spec fn above(self, fh: int) -> bool { forall|k: Height| #[trigger] self.k.contains_key(k) && k < self.ch.len() ==> k <= fh }
    /// the side branch ending in `h` hangs off the active chain at or above the last checkpoint reached, is at most one block higher, and is valid
    pub open spec fn considered_o(self, o: Map<BlockHash, BlockHeader>, h: BlockHash, now: int) -> bool {
        &&& self.m.contains_key(root(o, h))
        &&& self.above(self.fork_of(o, h))
        &&& self.fork_of(o, h) + path(o, h).len() <= self.c().len()
        &&& self.valid_seq(self.fork_of(o, h), path(o, h), now)
    }
    pub open spec fn fork_of(self, o: Map<BlockHash, BlockHeader>, h: BlockHash) -> int { self.m[root(o, h)] as int }
}
    /// side blocks from the first one after the active chain (or after a gap) up to `h`
    pub open spec fn path(o: Map<BlockHash, BlockHeader>, h: BlockHash) -> Seq<BlockHeader>
        decreases depth(h) via path_dec
    {
        if o.contains_key(h) && hash_of(o[h]) == h { path(o, o[h].prev_blockhash).push(o[h]) } else { Seq::empty() }
    }
    #[via_fn]
    proof fn path_dec(o: Map<BlockHash, BlockHeader>, h: BlockHash) {
        if o.contains_key(h) && hash_of(o[h]) == h { axiom_depth(o[h]); }
    }
    /// the hash the branch ending in `h` hangs off
    pub open spec fn root(o: Map<BlockHash, BlockHeader>, h: BlockHash) -> BlockHash {
        if path(o, h).len() == 0 { h } else { path(o, h)[0].prev_blockhash }
    }
    pub proof fn lemma_path(o: Map<BlockHash, BlockHeader>, h: BlockHash)
        ensures
            path(o, h).len() > 0 ==> hash_of(path(o, h).last()) == h,
            forall|i: int| 0 < i < path(o, h).len() ==> #[trigger] path(o, h)[i].prev_blockhash == hash_of(path(o, h)[i - 1]),
            forall|i: int| 0 <= i < path(o, h).len() ==> o.contains_key(hash_of(#[trigger] path(o, h)[i])) && o[hash_of(path(o, h)[i])] == path(o, h)[i],
            forall|i: int| 0 <= i < path(o, h).len() ==> depth(hash_of(#[trigger] path(o, h)[i])) <= depth(h),
            o.contains_key(h) && hash_of(o[h]) == h ==> root(o, h) == root(o, o[h].prev_blockhash),
        decreases depth(h)
    {
        if o.contains_key(h) && hash_of(o[h]) == h {
            axiom_depth(o[h]);
            lemma_path(o, o[h].prev_blockhash);
            let p = path(o, o[h].prev_blockhash);
            assert(path(o, h) == p.push(o[h]));
        }
    }

impl<S: Store> BlockCache<S> {
    pub open spec fn c(&self) -> Seq<CachedBlock> { self.chain@ }
    pub open spec fn env(&self) -> Env { Env { ch: self.c(), m: self.headers@, params: self.params, k: self.checkpoints@ } }
    /// heights are positions and every block points at its predecessor
    pub open spec fn linked(c: Seq<CachedBlock>) -> bool {
        &&& c.len() >= 1
        &&& c.len() <= 0x200_0000_0000_0000
        &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).height == i
        &&& forall|i: int| 0 < i < c.len() ==> #[trigger] c[i].header.prev_blockhash == hash_of(c[i - 1].header)
    }
    /// the hash index is exactly the set of active blocks, at their heights
    pub open spec fn indexed(c: Seq<CachedBlock>, m: Map<BlockHash, Height>) -> bool {
        &&& forall|i: int| 0 <= i < c.len() ==> m.contains_key(hash_of((#[trigger] c[i]).header)) && m[hash_of(c[i].header)] == i
        &&& forall|h: BlockHash| #[trigger] m.contains_key(h) ==> m[h] < c.len() && hash_of(c[m[h] as int].header) == h
    }
    pub open spec fn orphans_ok(&self) -> bool {
        forall|h: BlockHash| #[trigger] self.orphans@.contains_key(h) ==> hash_of(self.orphans@[h]) == h && !self.headers@.contains_key(h)
            && target_of(self.orphans@[h].bits) <= self.params.pow_limit.v()
    }
    pub open spec fn wf_mem(&self) -> bool {
        &&& Self::linked(self.c())
        &&& Self::indexed(self.c(), self.headers@)
        &&& self.orphans_ok()
        &&& self.chainwork.v() == wrap(total(self.c()))
        &&& self.params.wf()
        &&& forall|i: int| 0 <= i < self.c().len() ==> self.hdr_ok((#[trigger] self.c()[i]).header)
    }
    /// every active header's target is within the limit and its timestamp is before ~2106
    pub open spec fn hdr_ok(&self, h: BlockHeader) -> bool { target_of(h.bits) <= self.params.pow_limit.v() && self.time_ok(h.time as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.wf_mem()
        &&& self.store.seq() =~= hdrs(self.c())
    }

//@@ fn chain/src/block/cache.rs | impl BlockCache / fn extend_chain
//@ props: C03 C04 C05
//@ spec:
    requires
        old(self).wf_mem(),
        height == old(self).c().len(),
        hash == hash_of(header),
        header.prev_blockhash == hash_of(old(self).c().last().header),
        !old(self).headers@.contains_key(hash),
        old(self).hdr_ok(header),
    ensures
        final(self).wf_mem(),
        final(self).c() =~= old(self).c().push(CachedBlock { height, header }),
        final(self).store == old(self).store,
        final(self).params == old(self).params,
        final(self).checkpoints == old(self).checkpoints,
        final(self).orphans@ == old(self).orphans@.remove(hash),
//@ exit:
    proof { assert(self.c().drop_last() =~= old(self).c()); axiom_chain_mem(self.chain); }
//@@ end

//@@ fn chain/src/block/cache.rs | impl BlockCache / fn rollback
//@ props: C03 C04 C05
//@ attr: #[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@ spec:
    requires
        old(self).wf(),
        height < old(self).c().len(),
    ensures
        // memory: truncated to `height`; everything cut is reported (in height order) and becomes a side block
        final(self).wf_mem(),
        final(self).c() =~= old(self).c().take(height + 1),
        final(self).params == old(self).params,
        final(self).checkpoints == old(self).checkpoints,
        r.is_ok() ==> r->Ok_0@ =~= stale_of(old(self).c(), height as int),
        r.is_ok() ==> final(self).wf(),
        r.is_err() ==> r->Err_0 is Store,
        forall|h: BlockHash| #[trigger] final(self).orphans@.contains_key(h) <==>
            (old(self).orphans@.contains_key(h) || (old(self).headers@.contains_key(h) && old(self).headers@[h] > height)),
        forall|h: BlockHash| #[trigger] final(self).headers@.contains_key(h) <==>
            (old(self).headers@.contains_key(h) && old(self).headers@[h] <= height),
        forall|h: BlockHash| old(self).orphans@.contains_key(h) ==> #[trigger] final(self).orphans@[h] == old(self).orphans@[h],
        old(self).c().len() == height + 1 ==> final(self).orphans@ == old(self).orphans@,
//@ entry:
    let ghost C = self.c();
    let ghost k = height + 1;
    let ghost H = self.headers@;
    let ghost O = self.orphans@;
    proof { assert(self.chain.tail@ =~= C.skip(1)); }
//@ loop 0 it=it:
    invariant
        old(self).wf(), C == old(self).c(), H == old(self).headers@, O == old(self).orphans@,
        1 <= k <= C.len(), 
        it.seq().len() == C.len() - k,
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == C[k + i] && it.seq()[i].1 == k + i,
        self.c() =~= C.take(k),
        self.params == old(self).params, self.checkpoints == old(self).checkpoints, self.store == old(self).store,
        stale@ =~= stale_of(C.take(k + it.index@), k - 1),
        forall|h: BlockHash| #[trigger] self.headers@.contains_key(h) <==> (H.contains_key(h) && !(k <= H[h] < k + it.index@)),
        forall|h: BlockHash| #[trigger] self.headers@.contains_key(h) ==> self.headers@[h] == H[h],
        forall|h: BlockHash| #[trigger] self.orphans@.contains_key(h) <==> (O.contains_key(h) || (H.contains_key(h) && k <= H[h] < k + it.index@)),
        forall|h: BlockHash| #[trigger] self.orphans@.contains_key(h) ==> hash_of(self.orphans@[h]) == h,
        forall|h: BlockHash| #[trigger] self.orphans@.contains_key(h) ==> target_of(self.orphans@[h].bits) <= self.params.pow_limit.v(),
        forall|h: BlockHash| O.contains_key(h) ==> #[trigger] self.orphans@[h] == O[h],
        it.index@ == 0 ==> self.orphans@ == O,
        self.chainwork.v() == wrap(total(C) - (total(C.take(k + it.index@)) - total(C.take(k)))),
//@ loop_end 0:
    proof {
        let n = k + it.index@;
        assert(C.take(n + 1).drop_last() =~= C.take(n));
        assert(C.take(n + 1).last() == C[n]);
    }
//@ loop_after 0:
    proof {
        assert(C.take(C.len() as int) =~= C);
        assert(hdrs(C).take(k) =~= hdrs(C.take(k)));
        assert(self.orphans_ok());
        assert forall|i: int| 0 <= i < self.c().len() implies self.headers@.contains_key(hash_of((#[trigger] self.c()[i]).header))
            && self.headers@[hash_of(self.c()[i].header)] == i by { assert(self.c()[i] == C[i]); let h = hash_of(C[i].header); assert(H.contains_key(h) && H[h] == i); assert(self.headers@.contains_key(h)); }
        assert forall|h: BlockHash| #[trigger] self.headers@.contains_key(h) implies self.headers@[h] < self.c().len()
            && hash_of(self.c()[self.headers@[h] as int].header) == h by { assert(H.contains_key(h) && H[h] < C.len() && hash_of(C[H[h] as int].header) == h); assert(self.c()[H[h] as int] == C[H[h] as int]); }
    }
//@@ end


    // ---- construction from a store ----
    pub open spec fn fresh(&self) -> bool {
        &&& self.c() =~= seq![CachedBlock { height: 0, header: self.store.seq()[0] }]
        &&& self.headers@ == Map::<BlockHash, Height>::empty().insert(hash_of(self.store.seq()[0]), 0)
        &&& self.orphans@ == Map::<BlockHash, BlockHeader>::empty()
        &&& self.chainwork.v() == work_of(self.store.seq()[0])
    }
    /// what a store written by this node holds: a linked chain of acceptable headers
    pub open spec fn store_ok(&self) -> bool {
        let s = self.store.seq();
        &&& 1 <= s.len() <= 0x200_0000_0000_0000
        &&& forall|i: int| 0 < i < s.len() ==> #[trigger] s[i].prev_blockhash == hash_of(s[i - 1])
        &&& forall|i: int| 0 <= i < s.len() ==> self.hdr_ok(#[trigger] s[i])
    }
    proof fn lemma_index_push(c: Seq<CachedBlock>, n: int, m: Map<BlockHash, Height>)
        requires Self::linked(c), 0 < n < c.len(), Self::indexed(c.take(n), m)
        ensures Self::indexed(c.take(n + 1), m.insert(hash_of(c[n].header), n as u64)), !m.contains_key(hash_of(c[n].header))
    {
        let d = c.take(n); let e = c.take(n + 1); let x = hash_of(c[n].header);
        assert(Self::linked(d));
        assert(d.last() == c[n - 1]);
        Self::lemma_fresh(d, m, c[n].header);
        let m2 = m.insert(x, n as u64);
        assert forall|i: int| 0 <= i < e.len() implies m2.contains_key(hash_of((#[trigger] e[i]).header)) && m2[hash_of(e[i].header)] == i by { if i < n { assert(e[i] == d[i]); } }
        assert forall|h: BlockHash| #[trigger] m2.contains_key(h) implies m2[h] < e.len() && hash_of(e[m2[h] as int].header) == h by { if h != x { assert(m.contains_key(h)); assert(e[m[h] as int] == d[m[h] as int]); } }
    }
    /// an index has exactly one entry per block
    proof fn lemma_index_len(c: Seq<CachedBlock>, m: Map<BlockHash, Height>)
        requires Self::indexed(c, m)
        ensures m.dom().len() == c.len()
        decreases c.len()
    {
        if c.len() == 0 { assert(m.dom() =~= Set::<BlockHash>::empty()); }
        else {
            let d = c.drop_last(); let x = hash_of(c.last().header); let m2 = m.remove(x);
            assert(m.contains_key(hash_of(c[c.len() - 1].header)));
            assert forall|i: int| 0 <= i < d.len() implies m2.contains_key(hash_of((#[trigger] d[i]).header)) && m2[hash_of(d[i].header)] == i by { assert(d[i] == c[i]); }
            assert forall|h: BlockHash| #[trigger] m2.contains_key(h) implies m2[h] < d.len() && hash_of(d[m2[h] as int].header) == h by { assert(m.contains_key(h)); if m[h] == c.len() - 1 { assert(h == x); } }
            Self::lemma_index_len(d, m2);
            assert(m.dom() =~= m2.dom().insert(x));
        }
    }
//@@ fn chain/src/block/cache.rs | impl BlockCache / fn new
//@ props: C06
//@ subst: checkpoints.iter().cloned().collect() =>> btree_from_slice(checkpoints)
//@ spec:
    requires store.seq().len() >= 1
    ensures r.is_ok() ==> r->Ok_0.fresh() && r->Ok_0.store == store && r->Ok_0.params == params
//@ before `headers.insert(`:
    proof { assert(chain@[0] == chain.head); }
//@@ end
//@@ fn chain/src/block/cache.rs | impl BlockCache / fn load_with
//@ props: C06
//@ attr: #[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@ sigsubst: mut self =>> self
//@ sigsubst: impl Fn(Height) -> ControlFlow<()> =>> Progress
//@ subst: self =>> this
//@ subst: progress(height) =>> progress.call(height)
//@ subst: this.store.iter().skip(1) =>> this.store.iter().skip(1).vec()
//@ subst: in this.chain.tail.iter() =>> in this.chain.tail.iter().vec()
//@ subst: common::network::Network::from(this.params.network).genesis_hash() =>> genesis_hash(this.params.network)
//@ entry:
    let mut this = self;
    let ghost S = self.store.seq();
    proof { assert(S.take(1) =~= seq![S[0]]); assert(hdrs(this.c()) =~= S.take(1)); assert(this.c().drop_last() =~= Seq::empty()); assert(total(this.c()) == work_of(S[0])) by { reveal_with_fuel(total, 2); } }
//@ loop 0 it=it:
    invariant
        S == self.store.seq(), self.fresh(), self.store_ok(), self.params.wf(),
        this.store == self.store, this.params == self.params, this.checkpoints == self.checkpoints, this.headers == self.headers, this.orphans == self.orphans,
        forall|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).is_ok() ==> i + 1 < S.len() && it.seq()[i]->Ok_0 == ((i + 1) as u64, S[i + 1]),
        it.seq().len() == S.len() - 1 || exists|k: int| 0 <= k < it.seq().len() && (#[trigger] it.seq()[k]).is_err(),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]).is_ok(),
        it.index@ + 1 <= S.len(),
        this.c().len() == it.index@ + 1,
        forall|i: int| 0 <= i < this.c().len() ==> (#[trigger] this.c()[i]).height == i && this.c()[i].header == S[i],
        this.chainwork.v() == wrap(total(this.c())),
//@ loop_start 0:
    let ghost c0 = this.c();
//@ loop_end 0:
    proof { assert(this.c().drop_last() =~= c0); }
//@ loop_before 1:
    proof { assert(hdrs(this.c()) =~= S); assert(Self::linked(this.c())); assert(this.chain.tail@ =~= this.c().skip(1)); }
    let ghost C = this.c();
//@ loop 1 it=it2:
    invariant
        S == self.store.seq(), self.fresh(), self.store_ok(), Self::linked(C), hdrs(C) =~= S,
        this.c() == C, this.store == self.store, this.params == self.params, this.checkpoints == self.checkpoints, this.orphans == self.orphans,
        this.chainwork.v() == wrap(total(this.c())),
        it2.seq().len() == C.len() - 1, forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == C[i + 1],
        // blocks 0 .. n-1 are indexed, nothing else
        it2.index@ == 0 ==> this.headers@ == self.headers@,
        it2.index@ > 0 ==> Self::indexed(C.take(it2.index@), this.headers@),
//@ loop_start 1:
    let ghost m0 = this.headers@;
//@ loop_end 1:
    proof {
        let n = it2.index@;
        if n == 0 { assert(this.headers@ =~= m0); assert(C.take(1)[0] == C[0]); }
        else { Self::lemma_index_push(C, n, m0); }
    }
//@ loop_after 1:
    proof {
        let n = C.len() - 1;
        assert(C.take(n + 1) =~= C);
        if n > 0 { Self::lemma_index_push(C, n, this.headers@); Self::lemma_index_len(C, this.headers@.insert(hash_of(C[n].header), n as u64)); }
        else { Self::lemma_index_len(C, this.headers@.insert(hash_of(C[0].header), 0)); assert(this.headers@.insert(hash_of(C[0].header), 0) =~= this.headers@); }
    }
//@ spec:
    requires self.fresh(), self.store_ok(), self.params.wf()
    ensures
        // the loaded chain is the stored one, coherent and fully indexed
        r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.store == self.store && r->Ok_0.params == self.params && r->Ok_0.checkpoints == self.checkpoints
        && r->Ok_0.orphans@ == Map::<BlockHash, BlockHeader>::empty(),
//@@ end

    // ---- readers ----
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn get_block
//@ props: C04 C08
//@ spec:
    requires self.wf_mem()
    ensures
        r.is_some() <==> self.headers@.contains_key(*hash),
        r.is_some() ==> hash_of(*r.unwrap().1) == *hash && r.unwrap().0 < self.c().len()
            && self.c()[r.unwrap().0 as int].header == *r.unwrap().1 && r.unwrap().0 == self.headers@[*hash],
//@ closure 0: |height: &Height| -> (o: Option<&CachedBlock>) ensures o.is_some() == (*height < self.c().len()), o.is_some() ==> *o.unwrap() == self.c()[*height as int]
//@ closure 1: |blk: &CachedBlock| -> (o: (Height, &BlockHeader)) ensures o.0 == blk.height, *o.1 == blk.header
//@@ end

//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn get_block_by_height
//@ props: C04 C08
//@ spec:
    requires self.wf_mem()
    ensures
        r.is_some() <==> height < self.c().len(),
        r.is_some() ==> *r.unwrap() == self.c()[height as int].header,
//@ closure 0: |b: &CachedBlock| -> (o: &BlockHeader) ensures *o == b.header
//@@ end

//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn tip
//@ props: C04 C03 C05
//@ spec:
    requires self.wf_mem()
    ensures r.0 == hash_of(self.c().last().header), r.1 == self.c().last().header,
//@@ end
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn chain_work
//@ props: C03 C04
//@ spec:
    requires self.wf_mem()
    ensures r.v() == wrap(total(self.c()))
//@@ end
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn genesis
//@ props: C04
//@ spec:
    ensures *r == self.c()[0].header
//@@ end
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn height
//@ props: C04 C07
//@ spec:
    requires Self::linked(self.c())
    ensures r == self.c().len() - 1
//@@ end
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn is_known
//@ props: C04
//@ spec:
    ensures r == (self.headers@.contains_key(*hash) || self.orphans@.contains_key(*hash))
//@@ end
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn contains
//@ props: C04
//@ spec:
    ensures r == self.headers@.contains_key(*hash)
//@@ end
//@@ fn chain/src/block/cache.rs | impl BlockCache / fn chain_suffix
//@ props: C03 C05
//@ spec:
    requires self.wf_mem(), height < self.c().len()
    ensures r@ =~= self.c().skip(height + 1)
//@ subst: & self.chain.tail[height as usize ..] =>> self.chain.tail.suffix(height as usize)
//@ entry:
    proof { assert(self.c().skip(1) =~= self.chain.tail@); assert(self.c().skip(1).skip(height as int) =~= self.c().skip(height + 1)); }
//@@ end

    /// the last checkpoint the active chain has reached (0 if none)
    pub open spec fn is_last_checkpoint(&self, k: Height) -> bool {
        &&& k == 0 || (self.checkpoints@.contains_key(k) && k < self.c().len())
        &&& forall|j: Height| #[trigger] self.checkpoints@.contains_key(j) && j < self.c().len() ==> j <= k
    }
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn last_checkpoint
//@ props: C07
//@ spec:
    requires self.wf_mem()
    ensures self.is_last_checkpoint(r)
//@ closure 0: |p: (&Height, &BlockHash)| -> (y: Height) ensures y == *p.0 ;; let (h, _) = p;
//@ closure 1: |h: &Height| -> (b: bool) ensures b == (*h <= height)
//@@ end

//@@ fn chain/src/block/cache.rs | impl BlockCache / fn range
//@ props: C04 C01
//@ sig: fn range(&self, range: std::ops::Range<Height>) -> (r: SeqIter<&CachedBlock>)
//@ spec:
    requires self.wf_mem(), range.start <= range.end
    ensures
        range.end <= self.c().len() ==> r@.len() == range.end - range.start,
        r@.len() <= range.end - range.start,
        r@.len() <= self.c().len(),
        range.end > self.c().len() ==> r@.len() == sat_sub(self.c().len() as int, range.start as int),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.c()[range.start + i],
//@@ end

    // ---- serving headers ----
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn find_branch
//@ props: C08
//@ spec:
    requires self.wf_mem()
    ensures
        // an active block is its own branch
        self.headers@.contains_key(*to) ==> r.is_some() && r.unwrap().0 == self.headers@[*to] && r.unwrap().1@ =~= seq![self.c()[self.headers@[*to] as int].header],
        // a side block: the fork block followed by the side blocks up to it
        !self.headers@.contains_key(*to) ==> (r.is_some() <==> self.headers@.contains_key(root(self.orphans@, *to))),
        !self.headers@.contains_key(*to) && r.is_some() ==> r.unwrap().0 == self.env().fork_of(self.orphans@, *to)
            && r.unwrap().1@ =~= seq![self.c()[r.unwrap().0 as int].header] + path(self.orphans@, *to),
//@ entry:
    proof { self.lemma_links(*to); }
//@@ end

    /// position of the first locator on the active chain (len if none)
    pub open spec fn first_known(m: Map<BlockHash, Height>, l: Seq<BlockHash>, n: int) -> bool {
        &&& 0 <= n <= l.len()
        &&& n < l.len() ==> m.contains_key(l[n])
        &&& forall|i: int| 0 <= i < n ==> !m.contains_key(#[trigger] l[i])
    }
    pub open spec fn serve_from(&self, l: Seq<BlockHash>, n: int) -> int { if n < l.len() { self.headers@[l[n]] as int } else { 0 } }
    pub open spec fn serve_to(&self, stop: BlockHash) -> int { if self.headers@.contains_key(stop) { self.headers@[stop] as int } else { self.c().len() - 1 } }
//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn locate_headers
//@ props: C08
//@ spec:
    requires self.wf_mem(), max_headers <= 0x4000_0000_0000_0000,
    ensures
        locators@.len() == 0 ==> r@ =~= (if self.headers@.contains_key(stop_hash) { seq![self.c()[self.headers@[stop_hash] as int].header] } else { Seq::empty() }),
        // the active headers right after the first known locator, in order, up to the stop hash, the tip or the maximum
        locators@.len() > 0 ==> forall|n: int| #[trigger] Self::first_known(self.headers@, locators@, n) ==> {
            let a = self.serve_from(locators@, n);
            let z = self.serve_to(stop_hash);
            &&& r@.len() == (if z < a { 0 } else if z - a < max_headers { z - a } else { max_headers as int })
            &&& forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.c()[a + 1 + i].header
        },
//@ subst: locators.iter().find( =>> slice_find(locators,
//@ subst: vec![*header] =>> once_vec(*header)
//@ subst: vec![] =>> Vec::new()
//@ closure 0: |h: &&BlockHash| -> (b: bool) ensures b == self.headers@.contains_key(**h)
//@ closure 1: |p: (Height, &BlockHeader)| -> (o: Height) ensures o == p.0 ;; let (h, _) = p;
//@ closure 2: || -> (o: Height) ensures o == self.c().len() - 1
//@ closure 3: |h: &CachedBlock| -> (o: BlockHeader) ensures o == h.header
//@ entry:
    proof {
        assert forall|a: int, b: int| #![trigger Self::first_known(self.headers@, locators@, a), Self::first_known(self.headers@, locators@, b)]
            Self::first_known(self.headers@, locators@, a) && Self::first_known(self.headers@, locators@, b) implies a == b by {
            if a < b { let x = locators@[a]; } else if b < a { let x = locators@[b]; }
        }
    }
//@ before `let (height, _) = self.get_block(hash)`:
    proof {
        let m = choose|m: int| 0 <= m < locators@.len() && #[trigger] locators@[m] == *hash && self.headers@.contains_key(locators@[m]) && forall|i: int| 0 <= i < m ==> !self.headers@.contains_key(#[trigger] locators@[i]);
        assert(Self::first_known(self.headers@, locators@, m));
    }
//@ before `let start = start + 1`:
    proof {
        assert forall|n: int| #[trigger] Self::first_known(self.headers@, locators@, n) implies start == self.serve_from(locators@, n) by {
            if n < locators@.len() { let x = locators@[n]; }
        }
    }
//@@ end

//@@ fn chain/src/block/cache.rs | impl BlockReader for BlockCache / fn locator_hashes
//@ props: C08
//@ spec:
    requires self.wf_mem(), from < self.c().len(),
    ensures
        r@.len() <= loc(from as int, 0).len(),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == hash_of(self.c()[loc(from as int, 0)[i]].header),
        // stops exactly where the heights fall below the last checkpoint
        forall|k: Height| #[trigger] self.is_last_checkpoint(k) ==> (forall|i: int| 0 <= i < r@.len() ==> #[trigger] loc(from as int, 0)[i] >= k) && (r@.len() < loc(from as int, 0).len() ==> loc(from as int, 0)[r@.len() as int] < k),
//@ entry:
    proof { lemma_loc(from as int, 0); assert forall|a: Height, b: Height| #![trigger self.is_last_checkpoint(a), self.is_last_checkpoint(b)] self.is_last_checkpoint(a) && self.is_last_checkpoint(b) implies a == b by { let x = self.checkpoints@.contains_key(a); let y = self.checkpoints@.contains_key(b); } }
//@ loop 0 it=it:
    invariant_except_break hashes@.len() == it.index@,
    invariant
        self.wf_mem(), from < self.c().len(), self.is_last_checkpoint(last_checkpoint),
        it.seq().len() == loc(from as int, 0).len(),
        hashes@.len() <= loc(from as int, 0).len(),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == loc(from as int, 0)[i],
        forall|i: int| 0 <= i < loc(from as int, 0).len() ==> 0 <= #[trigger] loc(from as int, 0)[i] <= from,
        forall|i: int| 0 <= i < hashes@.len() ==> #[trigger] hashes@[i] == hash_of(self.c()[loc(from as int, 0)[i]].header),
        forall|i: int| 0 <= i < hashes@.len() ==> #[trigger] loc(from as int, 0)[i] >= last_checkpoint,
    ensures hashes@.len() < loc(from as int, 0).len() ==> loc(from as int, 0)[hashes@.len() as int] < last_checkpoint,
//@@ end


    // ---- header validation ----
    pub open spec fn time_ok(&self, t: int) -> bool { t + 2 * self.params.pow_target_spacing <= u32::MAX }

//@@ fn chain/src/block/cache.rs | impl BlockCache / fn median_time_past
//@ props: C01
//@ spec:
    requires self.wf_mem(), 0 < height,
    ensures height <= self.c().len() ==> r == mtp(self.c(), height as int),
//@ subst: self.range(start..end).enumerate() =>> self.range(start..end).enumerate().vec()
//@ subst: times[0..(end - start) as usize] =>> prefix_copy(&times, (end - start) as usize)
//@ loop 0 it=it:
    invariant
        self.wf_mem(),
        start == sat_sub(height as int, 11), end == height, 
        it.seq().len() <= end - start,
        height <= self.c().len() ==> it.seq().len() == end - start,
        times@.len() == 11,
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == self.c()[start + i],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] times@[i] == self.c()[start + i].header.time,
//@ loop_after 0:
    proof { if height <= self.c().len() { assert(times@.take(end - start) =~= times_of(self.c(), start as int, end as int)); } }
//@@ end

    #[verifier::external_body]
    fn iter(&self) -> (r: SeqIter<(Height, BlockHeader)>)
        ensures r@.len() == self.c().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as Height, self.c()[i].header)
    { unimplemented!() }

//@@ fn chain/src/block/cache.rs | impl BlockCache / fn next_min_difficulty_target
//@ props: C01
//@ spec:
    requires self.wf_mem(), *params == self.params, params.allow_min_difficulty_blocks,
    ensures r == walk_bits(self.c(), self.c().len() as int, limit_bits(params.network), params.interval()),
//@ subst: self.iter().rev() =>> self.iter().rev().vec()
//@ loop 0 it=it:
    invariant
        self.wf_mem(), *params == self.params, pow_limit_bits == limit_bits(params.network),
        it.seq().len() == self.c().len(),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == ((self.c().len() - 1 - i) as Height, self.c()[self.c().len() - 1 - i].header),
        walk_bits(self.c(), self.c().len() as int, pow_limit_bits, params.interval())
            == walk_bits(self.c(), self.c().len() - it.index@, pow_limit_bits, params.interval()),
//@@ end

//@@ fn common/src/block/tree.rs | trait BlockReader / fn next_difficulty_target
//@ props: C01 C02
//@ spec:
    requires
        self.wf_mem(), params.wf(), last_height < u64::MAX, last_target.v() <= params.pow_limit.v(),
    ensures
        r == spec_next_bits(self.env().hdr_at(sat_sub(last_height as int, params.interval() - 1)), last_height as int, last_time as int, last_target.v(), *params),
//@ closure 0: || -> (g: &BlockHeader) ensures *g == self.c()[0].header
//@ entry:
    proof { lemma_mul_bound(last_target.v() as int, params.pow_limit.v() as int, params.pow_target_timespan as int); }
//@@ end

//@@ fn chain/src/block/cache.rs | impl BlockCache / fn validate
//@ props: C01 C07
//@ spec:
    requires
        self.wf_mem(),
        header.prev_blockhash == hash_of(tip.header),
        tip.height < 0x400_0000_0000_0000,
        target_of(tip.header.bits) <= self.params.pow_limit.v(),
        self.time_ok(tip.header.time as int),
        self.time_ok(clock.now() + MAX_FUTURE),
    ensures
        r.is_ok() ==> self.env().valid_next(tip.height as int, tip.header, *header, clock.now() as int),
        tip.height < self.c().len() && self.env().valid_next(tip.height as int, tip.header, *header, clock.now() as int) ==> r.is_ok(),
        r.is_err() ==> !(r->Err_0 is Store),
        r.is_ok() ==> header.time <= clock.now() + MAX_FUTURE,
//@ entry:
    proof { reveal(Env::valid_next); }
//@@ end


    // ---- branches ----
    /// `c` is the side branch ending in `h`
    pub open spec fn is_branch(&self, o: Map<BlockHash, BlockHeader>, h: BlockHash, c: Candidate) -> bool {
        &&& c.tip == h
        &&& c.headers@ =~= path(o, h)
        &&& c.headers@.len() > 0
        &&& c.fork_height < self.c().len()
        &&& self.c()[c.fork_height as int].header == c.fork_header
        &&& hash_of(c.fork_header) == root(o, h)
    }
//@@ fn chain/src/block/cache.rs | impl BlockCache / fn fork
//@ props: C03 C05
//@ spec:
    requires self.wf_mem(), !self.headers@.contains_key(*tip),
    ensures
        r.is_some() ==> self.is_branch(self.orphans@, *tip, r.unwrap()),
        r.is_none() ==> !self.headers@.contains_key(root(self.orphans@, *tip)),
//@ loop 0:
    invariant
        self.wf_mem(),
        path(self.orphans@, tip) =~= path(self.orphans@, cursor) + headers@,
        !self.headers@.contains_key(tip),
        headers@.len() == 0 ==> cursor == tip,
        headers@.len() > 0 ==> headers@[0].prev_blockhash == cursor,
    ensures !self.orphans@.contains_key(cursor),
    decreases depth(cursor)
//@ loop_start 0:
    proof { axiom_depth(*header); }
//@ loop_after 0:
    proof { lemma_path(self.orphans@, tip); assert(path(self.orphans@, cursor).len() == 0); assert(path(self.orphans@, tip) =~= headers@); assert(root(self.orphans@, tip) == cursor); }
//@@ end

//@@ fn chain/src/block/cache.rs | impl BlockCache / fn validate_branch
//@ props: C01 C03 C07
//@ spec:
    requires
        self.wf_mem(),
        candidate.fork_height < self.c().len(),
        self.c()[candidate.fork_height as int].header == candidate.fork_header,
        self.env().links(candidate.fork_height as int, candidate.headers@),
        forall|i: int| 0 <= i < candidate.headers@.len() ==> target_of((#[trigger] candidate.headers@[i]).bits) <= self.params.pow_limit.v(),
        self.time_ok(clock.now() + MAX_FUTURE),
    ensures
        r.is_ok() ==> self.env().valid_seq(candidate.fork_height as int, candidate.headers@, clock.now() as int) && self.env().above(candidate.fork_height as int),
        // a valid branch at most one block higher than the active chain is accepted
        candidate.fork_height + candidate.headers@.len() <= self.c().len()
            && self.env().valid_seq(candidate.fork_height as int, candidate.headers@, clock.now() as int) && self.env().above(candidate.fork_height as int) ==> r.is_ok(),
        r.is_err() ==> !(r->Err_0 is Store),
//@ entry:
    proof {
        axiom_branch_mem(candidate.headers);
        assert forall|k: Height| #[trigger] self.is_last_checkpoint(k) && self.env().above(candidate.fork_height as int) implies k <= candidate.fork_height by { let x = self.env().k.contains_key(k); }
    }
//@ loop 0 it=it:
    invariant
        self.wf_mem(), self.time_ok(clock.now() + MAX_FUTURE),
        candidate.fork_height < self.c().len(),
        candidate.headers@.len() <= 0x200_0000_0000_0000,
        self.env().above(candidate.fork_height as int),
        self.env().links(candidate.fork_height as int, candidate.headers@),
        forall|i: int| 0 <= i < candidate.headers@.len() ==> target_of((#[trigger] candidate.headers@[i]).bits) <= self.params.pow_limit.v(),
        it.seq().len() == candidate.headers@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == candidate.headers@[i],
        tip.height == candidate.fork_height + it.index@,
        tip.header == self.env().prev_in(candidate.fork_height as int, candidate.headers@, it.index@),
        target_of(tip.header.bits) <= self.params.pow_limit.v(), self.time_ok(tip.header.time as int),
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] self.env().valid_at(candidate.fork_height as int, candidate.headers@, i, clock.now() as int),
//@ loop_start 0:
    proof { assert(*header == candidate.headers@[it.index@]); assert(self.env().link_at(candidate.fork_height as int, candidate.headers@, it.index@)); assert(self.env().valid_at(candidate.fork_height as int, candidate.headers@, it.index@, clock.now() as int) == self.env().valid_next(tip.height as int, tip.header, *header, clock.now() as int)); assert(self.env().prev_in(candidate.fork_height as int, candidate.headers@, it.index@ + 1) == *header); }
//@@ end

    proof fn lemma_links(&self, h: BlockHash)
        requires self.wf_mem()
        ensures
            forall|b: Candidate| #[trigger] self.is_branch(self.orphans@, h, b) ==> self.env().links(b.fork_height as int, b.headers@),
            forall|b: Candidate| #[trigger] self.is_branch(self.orphans@, h, b) ==> forall|i: int| 0 <= i < b.headers@.len() ==> target_of((#[trigger] b.headers@[i]).bits) <= self.params.pow_limit.v(),
            forall|b: Candidate| #[trigger] self.is_branch(self.orphans@, h, b) ==> b.fork_height == self.env().fork_of(self.orphans@, h),
    {
        lemma_path(self.orphans@, h);
        assert forall|b: Candidate| #[trigger] self.is_branch(self.orphans@, h, b) implies self.env().links(b.fork_height as int, b.headers@) by {
            assert forall|i: int| 0 <= i < b.headers@.len() implies #[trigger] self.env().link_at(b.fork_height as int, b.headers@, i) by { let x = path(self.orphans@, h)[i].prev_blockhash; }
        }
        assert forall|b: Candidate| #[trigger] self.is_branch(self.orphans@, h, b) implies b.fork_height == self.env().fork_of(self.orphans@, h) by { let x = self.c()[b.fork_height as int]; }
    }
    pub open spec fn cands(s: Seq<Candidate>) -> bool { true }
//@@ fn chain/src/block/cache.rs | impl BlockCache / fn chain_candidates
//@ props: C03 C07
//@ spec:
    requires self.wf_mem(), self.time_ok(clock.now() + MAX_FUTURE),
    ensures
        forall|i: int| 0 <= i < r@.len() ==> self.orphans@.contains_key((#[trigger] r@[i]).tip) && self.is_branch(self.orphans@, r@[i].tip, r@[i])
            && self.env().valid_seq(r@[i].fork_height as int, r@[i].headers@, clock.now() as int) && self.env().above(r@[i].fork_height as int),
        forall|h: BlockHash| #[trigger] self.orphans@.contains_key(h) && self.env().considered_o(self.orphans@, h, clock.now() as int)
            ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).tip == h,
//@ loop 0 it=it:
    invariant
        Self::cands(branches@),
        self.wf_mem(), self.time_ok(clock.now() + MAX_FUTURE),
        forall|i: int| 0 <= i < it.seq().len() ==> self.orphans@.contains_key(*#[trigger] it.seq()[i]),
        forall|k: BlockHash| self.orphans@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *#[trigger] it.seq()[i] == k,
        forall|i: int| 0 <= i < branches@.len() ==> self.orphans@.contains_key((#[trigger] branches@[i]).tip) && self.is_branch(self.orphans@, branches@[i].tip, branches@[i])
            && self.env().valid_seq(branches@[i].fork_height as int, branches@[i].headers@, clock.now() as int) && self.env().above(branches@[i].fork_height as int),
        forall|j: int| 0 <= j < it.index@ && self.env().considered_o(self.orphans@, *#[trigger] it.seq()[j], clock.now() as int)
            ==> exists|i: int| 0 <= i < branches@.len() && (#[trigger] branches@[i]).tip == *it.seq()[j],
//@ loop_start 0:
    proof {
        let h = *tip;
        lemma_path(self.orphans@, h);
        assert(*it.seq()[it.index@] == h);
        self.lemma_links(h);
    }
    let ghost b0 = branches@;
//@ loop_end 0:
    proof {
        assert forall|j: int| 0 <= j < it.index@ + 1 && self.env().considered_o(self.orphans@, *#[trigger] it.seq()[j], clock.now() as int)
            implies exists|i: int| 0 <= i < branches@.len() && (#[trigger] branches@[i]).tip == *it.seq()[j] by {
            if j < it.index@ { let i = choose|i: int| 0 <= i < b0.len() && (#[trigger] b0[i]).tip == *it.seq()[j]; assert(branches@[i].tip == *it.seq()[j]); }
            else { assert(branches@.last().tip == *it.seq()[j]); }
        }
    }
//@@ end

    /// `branch` hangs off the active chain at its fork height and none of its blocks is active
    pub open spec fn attachable(&self, branch: Candidate) -> bool {
        &&& branch.fork_height < self.c().len()
        &&& self.c()[branch.fork_height as int].header == branch.fork_header
        &&& branch.headers@.len() > 0
        &&& self.env().links(branch.fork_height as int, branch.headers@)
        &&& forall|i: int| 0 <= i < branch.headers@.len() ==> self.hdr_ok(#[trigger] branch.headers@[i])
    }
    proof fn lemma_chain_depth(c: Seq<CachedBlock>, i: int, j: int)
        requires Self::linked(c), 0 <= i <= j < c.len(),
        ensures depth(hash_of(c[i].header)) <= depth(hash_of(c[j].header)),
        decreases j - i
    {
        if i < j { axiom_depth(c[j].header); Self::lemma_chain_depth(c, i, j - 1); }
    }
    /// a block that links to the tip cannot already be active
    proof fn lemma_fresh(c: Seq<CachedBlock>, m: Map<BlockHash, Height>, h: BlockHeader)
        requires Self::linked(c), Self::indexed(c, m), h.prev_blockhash == hash_of(c.last().header),
        ensures !m.contains_key(hash_of(h)),
    {
        if m.contains_key(hash_of(h)) {
            axiom_depth(h);
            Self::lemma_chain_depth(c, m[hash_of(h)] as int, c.len() - 1);
        }
    }
//@@ fn chain/src/block/cache.rs | impl BlockCache / fn switch_to_fork
//@ props: C03 C04 C05
//@ attr: #[verifier::spinoff_prover]
//@ spec:
    requires old(self).wf(), old(self).attachable(*branch),
    ensures
        r.is_ok() ==> final(self).wf(),
        r.is_ok() ==> final(self).c() =~= switched(old(self).c(), branch.fork_height as int, branch.headers@),
        r.is_ok() ==> r->Ok_0@ =~= stale_of(old(self).c(), branch.fork_height as int),
        r.is_err() ==> r->Err_0 is Store,
        final(self).params == old(self).params,
        final(self).checkpoints == old(self).checkpoints,
//@ subst: branch.headers.iter().enumerate() =>> branch.headers.iter_enumerate()
//@ subst: branch.headers.iter().cloned() =>> branch.headers.iter_cloned()
//@ entry:
    proof { axiom_branch_mem(branch.headers); }
    let ghost fh = branch.fork_height as int;
    let ghost C = self.c();
//@ loop 0 it=it:
    invariant
        0 <= fh < C.len(), fh == branch.fork_height, C == old(self).c(), C.len() <= 0x200_0000_0000_0000,
        branch.headers@.len() <= 0x200_0000_0000_0000,
        old(self).attachable(*branch),
        it.seq().len() == branch.headers@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == branch.headers@[i],
        self.wf_mem(), self.params == old(self).params, self.checkpoints == old(self).checkpoints,
        self.c() =~= C.take(fh + 1) + cached(branch.headers@.take(it.index@), fh + 1),
        self.store.seq() =~= hdrs(C.take(fh + 1)),
//@ loop_start 0:
    let ghost n = it.index@;
    proof {
        assert(it.seq()[n].0 == n);
        assert(*header == branch.headers@[n]);
        if n > 0 { assert(self.c().last() == cached(branch.headers@.take(n), fh + 1)[n - 1]); }
        assert(self.c().last().header == old(self).env().prev_in(fh, branch.headers@, n));
        assert(old(self).env().link_at(fh, branch.headers@, n));
        Self::lemma_fresh(self.c(), self.headers@, *header);
    }
//@ loop_after 0:
    proof {
        assert(branch.headers@.take(branch.headers@.len() as int) =~= branch.headers@);
        assert(hdrs(self.c()) =~= hdrs(C.take(fh + 1)) + branch.headers@);
    }
//@@ end

//@@ fn chain/src/block/cache.rs | impl BlockTree for BlockCache / fn extend_tip
//@ props: C01 C04 C05
//@ attr: #[verifier::spinoff_prover]
//@ spec:
    requires old(self).wf(), old(self).time_ok(clock.now() + MAX_FUTURE), old(self).bits_axioms(),
    ensures
        final(self).params == old(self).params,
        final(self).checkpoints == old(self).checkpoints,
        r.is_ok() ==> final(self).wf(),
        // a header that does not follow the tip, or is not valid, changes nothing
        r.is_ok() && r->Ok_0 is TipUnchanged ==> header.prev_blockhash != hash_of(old(self).c().last().header) && final(self).c() == old(self).c(),
        r.is_err() && !(r->Err_0 is Store) ==> final(self).c() == old(self).c() && final(self).store == old(self).store && final(self).wf(),
        r.is_ok() && r->Ok_0 is TipChanged ==> {
            &&& header.prev_blockhash == hash_of(old(self).c().last().header)
            &&& old(self).env().valid_next(old(self).c().len() - 1, old(self).c().last().header, header, clock.now() as int)
            &&& final(self).c() =~= old(self).c().push(CachedBlock { height: old(self).c().len() as Height, header })
            &&& r->Ok_0->header == header && r->Ok_0->hash == hash_of(header) && r->Ok_0->height == old(self).c().len()
            &&& r->Ok_0->reverted@.len() == 0
            &&& r->Ok_0->connected@ =~= seq![(old(self).c().len() as Height, header)]
        },
        // and a valid one always extends it
        header.prev_blockhash == hash_of(old(self).c().last().header) && old(self).env().valid_next(old(self).c().len() - 1, old(self).c().last().header, header, clock.now() as int)
            ==> (r.is_ok() && r->Ok_0 is TipChanged) || (r.is_err() && r->Err_0 is Store),
//@ subst: std::iter::once(header) =>> once_vec(header)
//@ entry:
    proof { if header.prev_blockhash == hash_of(self.c().last().header) { Self::lemma_fresh(self.c(), self.headers@, header); self.lemma_required(header); reveal(Env::valid_next); } }
//@ exit:
    proof { if ret__.is_ok() && ret__->Ok_0 is TipChanged { assert(hdrs(self.c()) =~= hdrs(old(self).c()) + seq![header]); } }
//@@ end
    /// assumed about the dependency's compact encoding: encoding never rounds a target up, and the
    /// network's proof-of-work limit is below the limit (proved for the four networks by Kani)
    pub open spec fn bits_axioms(&self) -> bool {
        &&& target_of(limit_bits(self.params.network)) <= self.params.pow_limit.v()
        &&& forall|t: nat| target_of(#[trigger] compact_of(t)) <= t
    }
    proof fn lemma_walk(&self, n: int)
        requires self.wf_mem(), self.bits_axioms(), n <= self.c().len()
        ensures target_of(walk_bits(self.c(), n, limit_bits(self.params.network), self.params.interval())) <= self.params.pow_limit.v()
        decreases n
    {
        if n > 0 { let _ = self.c()[n - 1]; self.lemma_walk(n - 1); }
    }
    /// the required target never exceeds the limit
    proof fn lemma_required(&self, header: BlockHeader)
        requires self.wf_mem(), self.bits_axioms(),
        ensures target_of(self.env().required_bits(self.c().len() - 1, self.c().last().header, header)) <= self.params.pow_limit.v()
    {
        self.lemma_walk(self.c().len() as int);
        let _ = self.c().last();
    }

    // ---- chain selection ----
    proof fn lemma_total_split<H: Header>(s: Seq<H>, k: int)
        requires 0 <= k <= s.len(),
        ensures total(s) == total(s.take(k)) + total(s.skip(k)), total(s) >= 0, total(s.take(k)) >= 0, total(s.skip(k)) >= 0,
        decreases s.len() - k
    {
        if k == s.len() { assert(s.take(k) =~= s); assert(s.skip(k).len() == 0); Self::lemma_total_nonneg(s); }
        else {
            Self::lemma_total_split(s, k + 1);
            assert(s.take(k + 1).drop_last() =~= s.take(k));
            Self::lemma_total_head(s.skip(k));
            assert(s.skip(k).skip(1) =~= s.skip(k + 1));
            Self::lemma_total_nonneg(s.take(k));
        }
    }
    proof fn lemma_total_nonneg<H: Header>(s: Seq<H>) ensures total(s) >= 0 decreases s.len() { if s.len() > 0 { Self::lemma_total_nonneg(s.drop_last()); } }
    proof fn lemma_total_head<H: Header>(s: Seq<H>)
        requires s.len() > 0 ensures total(s) == s[0].w() + total(s.skip(1)) decreases s.len()
    {
        if s.len() == 1 { assert(total(s.drop_last()) == 0); assert(total(s.skip(1)) == 0); assert(s.last() == s[0]); }
        else {
            Self::lemma_total_head(s.drop_last());
            assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
            assert(s.drop_last()[0] == s[0]);
            assert(s.skip(1).last() == s.last());
        }
    }
    proof fn lemma_total_cached(hs: Seq<BlockHeader>, from: int)
        ensures total(cached(hs, from)) == total(hs) decreases hs.len()
    {
        if hs.len() > 0 { Self::lemma_total_cached(hs.drop_last(), from); assert(cached(hs, from).drop_last() =~= cached(hs.drop_last(), from)); }
    }
    /// total work after switching
    proof fn lemma_switched(c: Seq<CachedBlock>, fh: int, hs: Seq<BlockHeader>)
        requires 0 <= fh < c.len(),
        ensures total(switched(c, fh, hs)) == total(c) - total(c.skip(fh + 1)) + total(hs)
    {
        let n = switched(c, fh, hs);
        Self::lemma_total_split(c, fh + 1);
        Self::lemma_total_split(n, fh + 1);
        assert(n.take(fh + 1) =~= c.take(fh + 1));
        assert(n.skip(fh + 1) =~= cached(hs, fh + 1));
        Self::lemma_total_cached(hs, fh + 1);
    }
    pub open spec fn added(c: Seq<CachedBlock>, b: Candidate) -> int { total(b.headers@) - total(c.skip(b.fork_height + 1)) }
    pub open spec fn conn_headers(s: Seq<(Height, BlockHeader)>) -> Seq<BlockHeader> { s.map_values(|p: (Height, BlockHeader)| p.1) }
    pub open spec fn conn_of(c: Seq<CachedBlock>, from: int) -> Seq<(Height, BlockHeader)> { Seq::new((c.len() - from) as nat, |i: int| ((from + i) as Height, c[from + i].header)) }
    pub open spec fn opt_added(c: Seq<CachedBlock>, b: Option<&Candidate>) -> int { match b { None => 0, Some(x) => Self::added(c, *x) } }
    pub open spec fn is_some_of(s: Seq<Candidate>, b: Candidate, n: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == b }

//@@ fn chain/src/block/cache.rs | impl BlockCache / fn import_block
//@ props: C01 C03 C04 C05 C07
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(200)]
//@ spec:
    requires
        old(self).wf(), old(self).time_ok(clock.now() + MAX_FUTURE), old(self).bits_axioms(),
        // total work stays below 2^256
        total(old(self).c()) < p256(),
        forall|h: BlockHash| total(#[trigger] path(old(self).orphans@.insert(hash_of(header), header), h)) < p256(),
    ensures
        // [C04]
        final(self).params == old(self).params,
        final(self).checkpoints == old(self).checkpoints,
        !(r.is_err() && r->Err_0 is Store) ==> final(self).wf(),
        // [C01 C04 C05]
        // refused headers leave the active chain and the store alone
        r.is_err() && !(r->Err_0 is Store) ==> final(self).c() == old(self).c() && final(self).store == old(self).store,
        (old(self).headers@.contains_key(hash_of(header)) || old(self).orphans@.contains_key(hash_of(header))) ==> r.is_err(),
        // [C01]
        // proof of work, and the rules for a block that extends the tip
        r.is_ok() ==> pow_ok(header) && target_of(header.bits) <= old(self).params.pow_limit.v(),
        r.is_ok() && header.prev_blockhash == hash_of(old(self).c().last().header)
            ==> old(self).env().valid_next(old(self).c().len() - 1, old(self).c().last().header, header, clock.now() as int),
        // [C07]
        // nothing may branch off below the last checkpoint reached
        r.is_ok() && old(self).headers@.contains_key(header.prev_blockhash)
            ==> forall|k: Height| #[trigger] old(self).checkpoints@.contains_key(k) && k < old(self).c().len() ==> k <= old(self).headers@[header.prev_blockhash],
        // [C05]
        r.is_ok() && r->Ok_0 is TipUnchanged ==> final(self).c() == old(self).c() && final(self).store == old(self).store,
        // [C03]
        // the active chain has at least as much work as every valid branch known
        r.is_ok() ==> old(self).env().optimal(old(self).orphans@.insert(hash_of(header), header), clock.now() as int, total(final(self).c())),
        // [C03]
        // a switch gains work (or, off mainnet, ties with a lower hash)
        r.is_ok() && r->Ok_0 is TipChanged ==> total(final(self).c()) > total(old(self).c())
                || (old(self).params.network != Network::Bitcoin && total(final(self).c()) == total(old(self).c()) && hash_lt(r->Ok_0->hash, hash_of(old(self).c().last().header))),
        // [C05]
        // it replaces exactly what it reports
        r.is_ok() && r->Ok_0 is TipChanged ==> {
            let fh = r->Ok_0->connected@[0].0 - 1;
            &&& 0 <= fh < old(self).c().len()
            &&& fh + 1 < final(self).c().len()
            &&& final(self).c().take(fh + 1) =~= old(self).c().take(fh + 1)
            &&& r->Ok_0->reverted@ =~= stale_of(old(self).c(), fh)
            &&& r->Ok_0->connected@ =~= Self::conn_of(final(self).c(), fh + 1)
            &&& r->Ok_0->header == final(self).c().last().header
            &&& r->Ok_0->hash == hash_of(final(self).c().last().header)
            &&& r->Ok_0->height == final(self).c().len() - 1
        },
        // [C01]
        // and only ever brings in valid headers
        r.is_ok() && r->Ok_0 is TipChanged ==> old(self).env().valid_seq(r->Ok_0->connected@[0].0 - 1, hdrs(final(self).c()).skip(r->Ok_0->connected@[0].0 as int), clock.now() as int),
        // [C07]
        // and never crosses a checkpoint already reached
        r.is_ok() && r->Ok_0 is TipChanged ==> old(self).env().above(r->Ok_0->connected@[0].0 - 1),
//@ subst: . filter ( | h | self . contains ( h ) ) . cloned ( ) . collect :: < Vec < _ >> ( ) =>> . filter_cloned ( | h : & & BlockHash | -> ( b : bool ) ensures b == self . headers @ . contains_key ( * * h ) { self . contains ( h ) } )
//@ closure 1: |b: &CachedBlock| -> (o: (Height, BlockHeader)) ensures o == (b.height, b.header)
//@ entry:
    let ghost C = self.c();
    let ghost O1 = self.orphans@.insert(hash_of(header), header);
    let ghost now = clock.now() as int;
    let ghost T = hash_of(C.last().header);
    let ghost mut bh: Seq<BlockHeader> = Seq::empty();
    proof { if header.prev_blockhash == T { self.lemma_required(header); } }
//@ before `if candidates . is_empty ( )`:
    proof { self.lemma_cands_intro(O1, candidates@, now); if candidates@.len() == 0 { self.lemma_optimal(O1, candidates@, now, 0); } }
//@ loop 0 it=it:
    invariant
        Self::opt_added(C, best_branch) == best_work.v(),
        C == self.c(), C == old(self).c(), O1 == self.orphans@, now == clock.now(), T == hash_of(C.last().header), C.len() >= 1,
        self.wf_mem(), self.params == old(self).params, self.checkpoints == old(self).checkpoints, self.store == old(self).store,
        self.headers@ == old(self).headers@,
        it.seq().len() == candidates@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == candidates@[i],
        self.cands_ok(O1, candidates@, now),
        forall|j: int| 0 <= j < it.index@ ==> Self::added(C, #[trigger] candidates@[j]) <= best_work.v(),
        best_branch.is_some() ==> Self::is_some_of(candidates@, *best_branch.unwrap(), it.index@) && best_hash == best_branch.unwrap().tip,
        best_branch.is_some() && best_work.v() == 0 ==> self.params.network != Network::Bitcoin && hash_lt(best_hash, T),
        best_branch.is_none() ==> best_hash == T,
//@ loop_start 0:
    proof {
        assert(*branch == candidates@[it.index@]);
        self.lemma_cand(O1, candidates@, now, it.index@);
        axiom_hash_trans(branch.tip, best_hash, T);
    }
//@ loop_end 0:
    proof { if best_branch.is_some() && *best_branch.unwrap() == *branch { assert(candidates@[it.index@] == *best_branch.unwrap()); } }
//@ loop_after 0:
    proof { 
        self.lemma_optimal(O1, candidates@, now, best_work.v() as int);
        if best_branch.is_some() { 
            let j = choose|j: int| 0 <= j < candidates@.len() && #[trigger] candidates@[j] == *best_branch.unwrap();
            assert(candidates@[j] == *best_branch.unwrap());
            self.lemma_cand(O1, candidates@, now, j);
            self.lemma_attach(O1, *best_branch.unwrap(), now);
            lemma_path(O1, best_branch.unwrap().tip);
            bh = best_branch.unwrap().headers@;
            Self::lemma_switched(C, best_branch.unwrap().fork_height as int, best_branch.unwrap().headers@);
        }
    }
//@ loop_before 1:
    proof { assert(hashes@.len() == 0) by { if hashes@.len() > 0 { let x = hashes@[0]; } } }
//@ loop 1 it=it1:
    invariant it1.seq().len() == 0, self.wf(), self.orphans@ == O1, self.params == old(self).params, self.checkpoints == old(self).checkpoints, self.store == old(self).store, self.c() == C, self.headers@ == old(self).headers@,
//@ exit:
    proof {
        if ret__.is_ok() && ret__->Ok_0 is TipChanged {
            let fh = ret__->Ok_0->connected@[0].0 - 1;
            assert(hdrs(self.c()).skip(fh + 1) =~= bh);
            assert(self.c().take(fh + 1) =~= C.take(fh + 1));
        }
    }
//@@ end
    #[verifier::opaque]
    pub open spec fn cands_ok(&self, o: Map<BlockHash, BlockHeader>, cs: Seq<Candidate>, now: int) -> bool {
        &&& forall|i: int| 0 <= i < cs.len() ==> o.contains_key((#[trigger] cs[i]).tip) && self.is_branch(o, cs[i].tip, cs[i]) && self.env().valid_seq(cs[i].fork_height as int, cs[i].headers@, now) && self.env().above(cs[i].fork_height as int) && total(cs[i].headers@) < p256()
        &&& total(self.c()) < p256()
        &&& forall|h: BlockHash| #[trigger] o.contains_key(h) && self.env().considered_o(o, h, now) ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).tip == h
    }
    proof fn lemma_cands_intro(&self, o: Map<BlockHash, BlockHeader>, cs: Seq<Candidate>, now: int)
        requires
            total(self.c()) < p256(),
            forall|h: BlockHash| total(#[trigger] path(o, h)) < p256(),
            forall|i: int| 0 <= i < cs.len() ==> o.contains_key((#[trigger] cs[i]).tip) && self.is_branch(o, cs[i].tip, cs[i]) && self.env().valid_seq(cs[i].fork_height as int, cs[i].headers@, now) && self.env().above(cs[i].fork_height as int),
            forall|h: BlockHash| #[trigger] o.contains_key(h) && self.env().considered_o(o, h, now) ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).tip == h,
        ensures self.cands_ok(o, cs, now)
    {
        reveal(BlockCache::cands_ok);
        assert forall|i: int| 0 <= i < cs.len() implies total((#[trigger] cs[i]).headers@) < p256() by { assert(cs[i].headers@ =~= path(o, cs[i].tip)); }
    }
    proof fn lemma_cand(&self, o: Map<BlockHash, BlockHeader>, cs: Seq<Candidate>, now: int, j: int)
        requires self.cands_ok(o, cs, now), 0 <= j < cs.len(), self.wf_mem()
        ensures self.is_branch(o, cs[j].tip, cs[j]), self.env().valid_seq(cs[j].fork_height as int, cs[j].headers@, now), self.env().above(cs[j].fork_height as int),
            0 <= total(cs[j].headers@) < p256(), cs[j].fork_height < self.c().len(),
            0 <= total(self.c().skip(cs[j].fork_height + 1)) < p256(),
    {
        reveal(BlockCache::cands_ok);
        Self::lemma_total_nonneg(cs[j].headers@);
        Self::lemma_total_split(self.c(), cs[j].fork_height + 1);
    }
    proof fn lemma_optimal(&self, o: Map<BlockHash, BlockHeader>, cs: Seq<Candidate>, now: int, best: int)
        requires self.cands_ok(o, cs, now), self.wf_mem(), forall|j: int| 0 <= j < cs.len() ==> Self::added(self.c(), #[trigger] cs[j]) <= best,
        ensures self.env().optimal(o, now, total(self.c()) + best)
    {
        reveal(Env::optimal);
        assert forall|h: BlockHash| #[trigger] o.contains_key(h) && self.env().considered_o(o, h, now) implies total(switched(self.c(), self.env().fork_of(o, h), path(o, h))) <= total(self.c()) + best by {
            reveal(BlockCache::cands_ok);
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).tip == h;
            assert(cs[i].headers@ =~= path(o, h));
            let _ = self.c()[cs[i].fork_height as int];
            assert(self.env().fork_of(o, h) == cs[i].fork_height);
            Self::lemma_switched(self.c(), cs[i].fork_height as int, path(o, h));
        }
    }
    proof fn lemma_attach(&self, o: Map<BlockHash, BlockHeader>, b: Candidate, now: int)
        requires self.wf_mem(), o == self.orphans@, self.is_branch(o, b.tip, b), self.env().valid_seq(b.fork_height as int, b.headers@, now), self.time_ok(now + MAX_FUTURE)
        ensures self.attachable(b)
    {
        lemma_path(o, b.tip);
        assert forall|i: int| 0 <= i < b.headers@.len() implies #[trigger] self.env().link_at(b.fork_height as int, b.headers@, i) by { let x = path(o, b.tip)[i].prev_blockhash; }
        assert forall|i: int| 0 <= i < b.headers@.len() implies self.hdr_ok(#[trigger] b.headers@[i]) by {
            assert(self.env().valid_at(b.fork_height as int, b.headers@, i, now));
            self.env().lemma_valid_time(b.fork_height + i, self.env().prev_in(b.fork_height as int, b.headers@, i), b.headers@[i], now);
        }
    }
}
    /// the active chain after switching to `hs` at `fh`
    pub open spec fn switched(c: Seq<CachedBlock>, fh: int, hs: Seq<BlockHeader>) -> Seq<CachedBlock> {
        c.take(fh + 1) + cached(hs, fh + 1)
    }
pub open spec fn cached(hs: Seq<BlockHeader>, from: int) -> Seq<CachedBlock> {
    Seq::new(hs.len(), |i: int| CachedBlock { height: (from + i) as Height, header: hs[i] })
}
/// `arr[0..n]`; the code sorts this prefix in place and never looks at the array again
#[verifier::external_body]
pub fn btree_from_slice(v: &[(Height, BlockHash)]) -> (r: BTreeMap<Height, BlockHash>) { unimplemented!() }
#[verifier::external_body]
pub fn genesis_hash(n: Network) -> (r: BlockHash) { unimplemented!() }
pub struct Progress {}
pub struct Flow { pub brk: bool }
impl Flow { pub fn is_break(&self) -> bool { self.brk } }
impl Progress {
    #[verifier::external_body]
    pub fn call(&self, h: Height) -> Flow { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
}
impl<T> TailVec<T> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: SeqIter<&T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&T>) ensures r.is_some() == (self@.len() > 0), r.is_some() ==> *r.unwrap() == self@[0] { unimplemented!() }
}
#[verifier::external_body]
pub fn prefix_copy(v: &[u32; 11], n: usize) -> (r: Vec<u32>) requires n <= 11 ensures r@ == v@.take(n as int) { unimplemented!() }
pub assume_specification<T: Ord> [<[T]>::sort_unstable] (s: &mut [T])
    ensures final(s)@ == sorted(old(s)@), final(s)@.len() == old(s)@.len();
pub open spec fn stale_of(c: Seq<CachedBlock>, height: int) -> Seq<(Height, BlockHeader)> {
    Seq::new((c.len() - (height + 1)) as nat, |i: int| ((height + 1 + i) as Height, c[height + 1 + i].header))
}
} // verus!
fn main() {}
