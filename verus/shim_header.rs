// ---- assumed contracts on bitcoin::BlockHeader / BlockHash (dependency) ----
/// Compact ("bits") encoding of a target, and its decoding: uninterpreted, so the
/// proof holds for whatever encoding the dependency implements.
pub uninterp spec fn compact_of(t: nat) -> u32;
pub uninterp spec fn target_of(bits: u32) -> nat;
pub uninterp spec fn hash_of(h: BlockHeader) -> BlockHash;
/// proof of work carried by a header (dependency: BlockHeader::work)
pub uninterp spec fn work_of(h: BlockHeader) -> nat;
/// true when the header's hash, read as a number, does not exceed its own target
pub uninterp spec fn pow_ok(h: BlockHeader) -> bool;

pub broadcast axiom fn axiom_target_bound(b: u32)
    ensures #[trigger] target_of(b) < p256();
pub broadcast axiom fn axiom_work_bound(h: BlockHeader)
    ensures #[trigger] work_of(h) < p256();

#[verifier::external_body]
pub struct BlockHash { x: [u8; 32] }
impl Clone for BlockHash {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for BlockHash {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for BlockHash {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlockHash) -> bool { *self == *o }
}
impl PartialEq for BlockHash {
    #[verifier::external_body]
    fn eq(&self, o: &BlockHash) -> bool { unimplemented!() }
}
impl Eq for BlockHash {}
pub uninterp spec fn hash_lt(a: BlockHash, b: BlockHash) -> bool;
pub broadcast axiom fn axiom_hash_order(a: BlockHash, b: BlockHash)
    ensures #[trigger] hash_lt(a, b) ==> a != b && !hash_lt(b, a);
pub axiom fn axiom_hash_trans(a: BlockHash, b: BlockHash, c: BlockHash)
    ensures hash_lt(a, b) && hash_lt(b, c) ==> hash_lt(a, c);
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BlockHash {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BlockHash) -> Option<std::cmp::Ordering> {
        if *self == *o { Some(std::cmp::Ordering::Equal) }
        else if hash_lt(*self, *o) { Some(std::cmp::Ordering::Less) }
        else { Some(std::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for BlockHash {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &BlockHash) -> Option<std::cmp::Ordering> { unimplemented!() }
}

#[derive(Clone, Copy)]
pub struct BlockHeader {
    pub version: i32,
    pub prev_blockhash: BlockHash,
    pub merkle_root: BlockHash,
    pub time: u32,
    pub bits: u32,
    pub nonce: u32,
}

impl BlockHeader {
    #[verifier::external_body]
    pub fn block_hash(&self) -> (r: BlockHash) ensures r == hash_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn work(&self) -> (r: Uint256) ensures r.v() == work_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn target(&self) -> (r: Uint256) ensures r.v() == target_of(self.bits) { unimplemented!() }
    #[verifier::external_body]
    pub fn u256_from_compact_target(bits: u32) -> (r: Uint256) ensures r.v() == target_of(bits) { unimplemented!() }
    #[verifier::external_body]
    pub fn compact_target_from_u256(value: &Uint256) -> (r: u32) ensures r == compact_of(value.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn validate_pow(&self, required_target: &Uint256) -> (r: Result<BlockHash, bitcoin::util::Error>)
        ensures
            r.is_ok() <==> (target_of(self.bits) == required_target.v() && pow_ok(*self)),
            target_of(self.bits) != required_target.v() ==> r == Err::<BlockHash, _>(bitcoin::util::Error::BlockBadTarget),
            target_of(self.bits) == required_target.v() && !pow_ok(*self) ==> r == Err::<BlockHash, _>(bitcoin::util::Error::BlockBadProofOfWork),
    { unimplemented!() }
}
pub mod bitcoin { pub use super::Network; pub mod util { pub enum Error { BlockBadProofOfWork, BlockBadTarget, Other } } }
/// Idealisation of SHA-256d: hash links are acyclic (a header cannot be its own ancestor).
pub uninterp spec fn depth(h: BlockHash) -> nat;
pub broadcast axiom fn axiom_depth(h: BlockHeader)
    ensures depth(h.prev_blockhash) < #[trigger] depth(hash_of(h));
