// ---- data of the protocol state machine: dependencies as opaque data, the event type extracted ----
#[verifier::external_body]
pub struct SocketAddr { x: u64 }
impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SocketAddr {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SocketAddr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &SocketAddr) -> bool { *self == *o }
}
impl PartialEq for SocketAddr { #[verifier::external_body] fn eq(&self, o: &SocketAddr) -> bool { unimplemented!() } }
pub type PeerId = SocketAddr;
#[verifier::external_body]
pub struct BlockHash { x: [u8; 32] }
impl Clone for BlockHash { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BlockHash {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for BlockHash {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlockHash) -> bool { *self == *o }
}
impl PartialEq for BlockHash { #[verifier::external_body] fn eq(&self, o: &BlockHash) -> bool { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct BlockHeader { pub merkle: u64, pub time: u32, pub hash: BlockHash }
impl BlockHeader {
    pub fn block_hash(&self) -> (r: BlockHash) ensures r == self.hash { self.hash }
}
#[derive(Copy, Clone)]
pub struct Txid { pub x: u64 }
#[derive(Copy, Clone)]
pub struct Wtxid { pub x: u64 }
#[verifier::external_body]
pub struct Script { x: Vec<u8> }
#[verifier::external_body]
pub struct Transaction { x: Vec<u8> }
pub uninterp spec fn txid_of(t: Transaction) -> Txid;
pub uninterp spec fn wtxid_of(t: Transaction) -> Wtxid;
impl Transaction {
    #[verifier::external_body]
    pub fn txid(&self) -> (r: Txid) ensures r == txid_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn wtxid(&self) -> (r: Wtxid) ensures r == wtxid_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Transaction) ensures r == *self { unimplemented!() }
}
pub struct Block { pub header: BlockHeader, pub txdata: Vec<Transaction> }
pub uninterp spec fn merkle_ok(b: Block) -> bool;
impl Block {
    pub fn block_hash(&self) -> (r: BlockHash) ensures r == self.header.hash { self.header.block_hash() }
    #[verifier::external_body]
    pub fn check_merkle_root(&self) -> (r: bool) ensures r == merkle_ok(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Block) ensures r == *self { unimplemented!() }
}
#[derive(Copy, Clone)]
pub struct ServiceFlags { pub x: u64 }
pub uninterp spec fn has_services(a: ServiceFlags, b: ServiceFlags) -> bool;
impl ServiceFlags { pub const NONE: ServiceFlags = ServiceFlags { x: 0 }; pub const NETWORK: ServiceFlags = ServiceFlags { x: 1 }; pub const COMPACT_FILTERS: ServiceFlags = ServiceFlags { x: 64 }; #[verifier::external_body] pub fn has(&self, o: ServiceFlags) -> (r: bool) ensures r == has_services(*self, o) { unimplemented!() } }
pub struct Address { pub services: ServiceFlags, pub address: [u16; 8], pub port: u16 }
impl Clone for Address { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct IoError { x: u64 }
#[verifier::external_body]
pub struct DecodeError { x: u64 }
pub struct AnyError {}
//@@ enum net/src/lib.rs | enum Disconnect
//@ subst: Arc<std::io::Error> =>> IoError
//@@ end
pub enum Source { Imported, Dns, Peer(SocketAddr) }
pub struct FeeEstimate { pub low: u64, pub median: u64, pub high: u64 }
#[derive(Copy, Clone)]
pub struct FilterType { pub x: u8 }
/// header announcements and requests
pub struct GetHeadersMessage { pub version: u32, pub locator_hashes: Vec<BlockHash>, pub stop_hash: BlockHash }
pub type Locators = (Vec<BlockHash>, BlockHash);
pub struct CFHeaders { pub filter_type: u8, pub stop_hash: BlockHash, pub previous_filter_header: FilterHeader, pub filter_hashes: Vec<FilterHash> }
impl CFHeaders { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct GetCFHeaders { pub filter_type: u8, pub start_height: u32, pub stop_hash: BlockHash }
#[derive(Copy, Clone)]
pub struct GetCFilters { pub filter_type: u8, pub start_height: u32, pub stop_hash: BlockHash }
pub struct CFilter { pub filter_type: u8, pub block_hash: BlockHash, pub filter: Vec<u8> }
impl CFilter { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Copy, Clone)]
pub enum Inventory { Error, Transaction(Txid), Block(BlockHash), WTx(Wtxid), WitnessTransaction(Txid), WitnessBlock(BlockHash), Unknown }
/// a user agent string
#[verifier::external_body]
pub struct String { x: u64 }
impl Clone for String { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct VersionMessage { pub version: u32, pub services: ServiceFlags, pub timestamp: i64, pub receiver: Address, pub sender: Address, pub nonce: u64, pub user_agent: String, pub start_height: i32, pub relay: bool }
impl VersionMessage { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct CommandString { pub x: u64 }
pub enum NetworkMessage { Version(VersionMessage), Verack, WtxidRelay, SendHeaders, Unknown { command: CommandString, payload: Vec<u8> }, Ping(u64), Pong(u64), Inv(Vec<Inventory>), GetData(Vec<Inventory>), Tx(Transaction), Block(Block), GetCFHeaders(GetCFHeaders), CFHeaders(CFHeaders), GetCFilters(GetCFilters), CFilter(CFilter), GetHeaders(GetHeadersMessage), Headers(Vec<BlockHeader>), Addr(Vec<(u32, Address)>), GetAddr, Other }
//@@ enum net/src/lib.rs | enum Link
//@ attr: #[derive(Copy, Clone)]
//@@ end
impl Link {
//@@ fn net/src/lib.rs | impl Link / fn is_outbound
//@ subst: *self == Link::Outbound =>> (match *self { Link::Outbound => true, _ => false })
//@ spec:
    ensures r == (*self is Outbound)
//@@ end
//@@ fn net/src/lib.rs | impl Link / fn is_inbound
//@ subst: *self == Link::Inbound =>> (match *self { Link::Inbound => true, _ => false })
//@ spec:
    ensures r == (*self is Inbound)
//@@ end
}
//@@ enum p2p/src/fsm/event.rs | enum TxStatus
//@ subst: net::SocketAddr =>> SocketAddr
//@@ end
//@@ enum p2p/src/fsm.rs | enum DisconnectReason
//@ subst: Arc<encode::Error> =>> DecodeError
//@@ end
//@@ enum p2p/src/fsm/event.rs | enum Event
//@ attr: #[allow(inconsistent_fields)]
//@ subst: net::SocketAddr =>> SocketAddr
//@ subst: fsm::DisconnectReason =>> DisconnectReason
//@ subst: Arc<io::Error> =>> IoError
//@ subst: Arc<dyn error::Error + 'static + Sync + Send> =>> AnyError
//@@ end
/// the active chain of block headers, as its users see it (contracts proved in property C04)
pub trait BlockReader: Sized {
    spec fn bc(&self) -> Seq<BlockHash>;
    fn get_block(&self, hash: &BlockHash) -> (r: Option<(Height, &BlockHeader)>)
        ensures r.is_some() == self.bc().contains(*hash), r.is_some() ==> r.unwrap().0 < self.bc().len() && self.bc()[r.unwrap().0 as int] == *hash && r.unwrap().1.hash == *hash;
    fn get_block_by_height(&self, height: Height) -> (r: Option<&BlockHeader>)
        ensures r.is_some() == (height < self.bc().len()), r.is_some() ==> r.unwrap().hash == self.bc()[height as int];
    fn height(&self) -> (r: Height) ensures r == self.bc().len() - 1;
    /// a chain has a genesis block, no block twice, and fits in memory
    proof fn lemma_bc(&self)
        ensures 1 <= self.bc().len() <= 0x200_0000_0000_0000, forall|i: int, j: int| 0 <= i < self.bc().len() && 0 <= j < self.bc().len() && #[trigger] self.bc()[i] == #[trigger] self.bc()[j] ==> i == j;
    fn checkpoints(&self) -> (r: BTreeMap<Height, BlockHash>);
    /// hashes sent to peers to tell where our chain is (contract proved in property C08)
    spec fn locs(&self) -> Seq<BlockHash>;
    fn locator_hashes(&self, from: Height) -> (r: Vec<BlockHash>) ensures from == self.bc().len() - 1 ==> r@ == self.locs();
    /// headers served for given locators (contract proved in property C08)
    spec fn located(&self, l: Seq<BlockHash>, stop: BlockHash, max: int) -> Seq<BlockHeader>;
    fn locate_headers(&self, locators: &Vec<BlockHash>, stop_hash: BlockHash, max_headers: usize) -> (r: Vec<BlockHeader>) ensures r@ == self.located(locators@, stop_hash, max_headers as int), r@.len() <= max_headers;
    spec fn known(&self, h: BlockHash) -> bool;
    fn is_known(&self, hash: &BlockHash) -> (r: bool) ensures r == self.known(*hash);
    fn contains(&self, hash: &BlockHash) -> (r: bool) ensures r == self.bc().contains(*hash);
    spec fn tip_header(&self) -> BlockHeader;
    fn tip(&self) -> (r: (BlockHash, BlockHeader)) ensures r.0 == self.bc().last(), r.1 == self.tip_header();
}
pub trait Clock: Sized {
    /// the time during one call
    spec fn now(&self) -> LocalTime;
    fn local_time(&self) -> (r: LocalTime) ensures r == self.now(), r.ms() <= 0x1_0000_0000_0000_0000;
}
pub open spec fn msg_of(e: Event) -> NetworkMessage { *(e->MessageReceived_message) }
