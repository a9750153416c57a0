"""What each check runs."""
CHAIN_TRUST = ["SHA-256d is treated as injective on headers and its links as acyclic",
               "bitcoin crate: Uint256 arithmetic, compact target conversion, block_hash, validate_pow and work, by assumed contracts (shim_uint, shim_header)",
               "std/nonempty collections and iterator adapters, by assumed contracts (shim_coll, shim_iter)"]
PROPS = {
    "C01": {"units": ["blockcache"], "trusted": CHAIN_TRUST,
            "bounded": "random header trees (<= ~40 headers, 3 difficulty regimes) on the real BlockCache against a reference model; batches of up to 6"},
    "C02": {"units": ["retarget", "blockcache"], "unit_props": {"retarget": ["C02"]}, "trusted": CHAIN_TRUST,
            "bounded": "random parameters, heights, times and targets against an independent 320-bit multiply/divide"},
    "C03": {"units": ["blockcache"], "trusted": CHAIN_TRUST,
            "bounded": "random header trees on the real BlockCache; exact tie-breaking and batches are decided here only"},
    "C04": {"units": ["blockcache"], "trusted": CHAIN_TRUST,
            "bounded": "random header trees, every reader query compared with the reference chain; iter/range adapters are decided here only"},
    "C05": {"units": ["blockcache"], "trusted": CHAIN_TRUST,
            "bounded": "random header trees and batches; the batch accumulation of import_blocks is decided here only"},
    "C06": {"units": ["store", "blockcache"], "unit_props": {"store": ["C06"]}, "trusted": ["std::fs::File in append mode is a byte sequence: writes append (a failed write appends a prefix), set_len truncates, handles can be duplicated (shim_file)",
                "fixed-size records: encoding has the size of the type and decoding inverts it (bitcoin crate)", "the stored file is written by this node only, and its links are intact when it is loaded"] + CHAIN_TRUST[2:],
            "bounded": "random put/rollback/get/iterate/reopen histories on a real scratch file and on the memory store, appends cut at a random byte then healed, and chains reloaded from the file; the boxed iterator of File::iter is decided here only"},
    "C07": {"units": ["blockcache"], "trusted": CHAIN_TRUST,
            "bounded": "random trees plus a directed scenario: branch below a checkpoint completed late"},
    "C08": {"units": ["blockcache"], "trusted": CHAIN_TRUST,
            "bounded": "random trees: locators from every height, random locator lists, stop hashes and maxima"},
    "C10": {"units": ["filtercache"], "trusted": ["BTreeMap keys/insert/remove/len by assumed contracts (shim_coll, shim_keys)", "the length of a filter does not change while it is cached", "capacity at most half the address space"],
            "bounded": "random pushes (half of them out of order) and rollbacks, all queries compared with a reference map; iter() and heights() are decided here only"},
    "C12": {"units": ["fees"], "trusted": ["blocks processed are consensus-valid: values fit 64 bits and no transaction spends more than it gets", "txid, weight and is_coin_base of the bitcoin crate; HashMap/VecDeque by assumed contracts",
                "f64: exact on integers and halves below 2^53 (median); the rounded quotient of a fee rate is an uninterpreted function in the proof"],
            "bounded": "random chains of transactions, gaps, rollbacks and replays against a reference ledger; the numeric value of a fee rate is decided here only"},
    "C13": {"units": ["adjtime"], "trusted": ["HashSet, Vec::sort_unstable, i64::unsigned_abs by assumed contracts", "local time between 1970-01-01 01:10 and 2106 (32-bit block time)"],
            "bounded": "random offset sequences with extreme values; the RefClock and trait wrappers are decided here only"},
    "C14": {"units": ["timeouts"], "trusted": ["Vec::sort_unstable_by and iter().any by assumed contracts", "derived comparisons of LocalTime/LocalDuration compare the field"],
            "bounded": "random histories around the threshold boundary against a reference list"},
    "C15": {"units": ["stream"], "trusted": ["encode::deserialize_partial: what it decodes depends only on the bytes it consumes, and a message that ends early is reported as end-of-file (assumed of the bitcoin crate)", "Vec::drain(..n) by assumed contract"],
            "bounded": "random message streams cut at random places, decoded at random moments, with a truncated or corrupted last message"},
    "C09": {"units": ["filterhdrs", "cbf"], "trusted": ["filter hash and filter header computation of the bitcoin crate (an uninterpreted function)", "the header store: contract proved in property C06", "std collections and iterators by assumed contracts (shim_coll, shim_iter)", "storage errors: after a failed write nothing is claimed"],
            "bounded": "a real node driven by simulated peers: random chains, reorganisations, honest, stale and corrupt cfheaders/getcfheaders, disconnections, timeouts, against a reference filter header chain"},
    "C11": {"units": ["cbf"], "trusted": ["BIP158 filter matching and filter hashing of the bitcoin crate (uninterpreted functions)", "the filter cache: contract proved in property C10", "the active chain as its readers see it: contract proved in property C04", "the filter header storage: contract proved in property C09", "std collections and iterators by assumed contracts (shim_coll, shim_set, shim_iter)"],
            "bounded": "a real node driven by simulated peers: random chains, reorganisations, rescans of random ranges and scripts, honest, duplicated, reordered, corrupt and stale filters, timeouts, against a reference scan"},
    "C19": {"units": ["ping"], "trusted": ["the clock reads one time during a call", "std collections by assumed contracts (shim_coll); random nonces: any value", "the peer manager announces each completed handshake and each disconnection once"],
            "bounded": "a real node driven by simulated peers that answer pings rightly, wrongly, late or not at all, against a reference"},
    "C17": {"units": ["inv"], "trusted": ["transaction ids, block hashes and merkle root check of the bitcoin crate (uninterpreted; equal wtxids mean equal transactions)", "fee estimation: property C12", "the active chain as its readers see it: property C04; the reverted blocks reported with imported headers are those that left the chain, from the tip down: property C05", "std collections and iterators by assumed contracts (shim_coll, shim_book)", "the clock reads one time during a call"],
            "bounded": "a real node driven by simulated peers: blocks arriving authentic, corrupt, repeated, out of order or not at all, reorganisations, submitted transactions confirmed, reverted, requested and announced, against a reference"},
    "C18": {"units": ["peer"], "trusted": ["the transport reports connections, failures and disconnections once and in order (the preconditions of peer_connected and peer_disconnected)", "the clock reads one time during a call; fewer than 2^32 peers and failures in a row", "std collections and iterator adaptors by assumed contracts (shim_coll, shim_set, shim_it); random nonces: any value", "which addresses the address book offers (property C21), the user's hook, which addresses are local: arbitrary"],
            "bounded": "a real node with simulated dials, inbound connections, handshake messages in any order and of any content, commands and time, against a reference"},
    "C16": {"units": ["sync"], "trusted": ["what importing headers does to the block tree: properties C01 to C05; what its readers see: properties C04 and C08", "the clock reads one time during a call, later than two hours and three block intervals after 1970", "std collections and iterator adaptors by assumed contracts (shim_coll, shim_book, shim_it)", "the peer manager announces each completed handshake and each disconnection once"],
            "bounded": "a real node on trees of headers with simulated peers of any claimed height that announce, answer, shorten, stall and lie, against a reference judged after every input; chains of 4100 headers for the limits of one message"},
    "C21": {"units": ["addr", "peer"], "trusted": ["the peer store behaves as a map from IP addresses to entries (contract of the Store trait; its two HashMap implementations forward to std)", "random choices (fastrand): any choice; std::net's address predicates and conversions by assumed contracts over the octets", "the clock reads one time during a call; the node was initialised", "std collections and iterator adaptors by assumed contracts (shim_coll, shim_set, shim_it, shim_keys)"],
            "bounded": "a real node on a peer store the harness looks into, with dials, inbound connections, handshakes, bans, addr messages of any content and size, imports and time, against a reference compared with the store after every input and output"},
    "C20": {"units": ["cbf", "inv", "peer", "sync", "addr", "ping", "fees", "filtercache", "filterhdrs", "adjtime", "timeouts", "stream", "retarget", "blockcache", "fsm"], "panics": True,
            "trusted": ["only obligations whose failure is a panic, an overflow, a division by zero or a loop without end count here: unwrap, expect, indexing, assertions (debug assertions too), panic and unreachable, arithmetic; in every function under contract in these units", "blocks on the most-work chain are consensus-valid in their amounts; header and filter storage does not fail; heights the user passes are below 2^62 and a rescan's range is not empty (the TODO at Handle::rescan)", "the transport reports connections, failures and disconnections once and in order, as the reactor does", "the bitcoin crate and std do not panic on what their assumed contracts allow", "loops marked exec_allows_no_decreases_clause: their end is decided by the bounded stand-in only", "StateMachine::new, Config::default and the status logging in StateMachine::timer_expired (p2p/src/fsm.rs), and outbox functions: decided by the bounded stand-in only"],
            "bounded": "a real node in a debug build (overflow checks and debug assertions on) driven as the reactor does, with any message of any content, honest, spoiled, reordered and repeated answers, any command, connections, failures and disconnections, and times up to a year apart"},
    "C22": {"units": ["fsm"],
            "trusted": ["what each part (address book, peers, pings, filters, headers, inventory) does with what it is handed: C09 to C21; here each is a recorder of the calls made to it and a queue of what it wants done", "sending on a user's channel is a recorded effect; the user's hook, predicate and query are arbitrary functions of their argument", "the header tree is seen through its tip, lookups and heights (C01, C02)", "StateMachine::new and the status logging in timer_expired are not under contract", "the order in which a HashMap yields peers is arbitrary"],
            "bounded": "a real node driven by any messages, connections, failures, disconnections, timers and commands; every output is compared with what its parts were told and with independent books of peers, hooks and answers"},
    "C23": {"units": ["reactor"],
            "trusted": ["the kernel: a connection takes and gives bytes in order; poll reports descriptors that are registered, each at most once; a clean SO_ERROR on a writable socket means it is connected; getsockname, getsockopt and fcntl on an open socket don't fail with a timeout or interruption", "`dial` and `listen` (system calls) and popol are not under contract; `fallible!` (test builds only) is cut", "the service asks for connections only to addresses it has none with (C18, C22) and for timers of less than 2^64 ms; the system clock is below 2^64 ms", "which timers are due: C14", "one thread: the reactor owns its state (Rust's ownership)", "`for x in v.drain(..)` and `for x in channel.try_iter()` are read as taking one element at a time, in order"],
            "bounded": "the real reactor on loopback sockets with dials (answered, refused at once or late, cut), connections from other ends (also from an address connected already), transfers in both directions of 1 byte to 20 MB in any order, hang-ups, disconnections, timers, command bursts, floods and signals"},
    "C24": {"units": ["client"],
            "trusted": ["the node itself (C22) is a recorder of the calls made to it and a queue of what it wants done; the stream decoder is its contract (C15); encoding is an uninterpreted function of the message", "channels: what is sent arrives once, in order; a reply is what the holder of the other end sends first; `Sender::send` and `Waker::wake` are read as taking `&mut self` (recorders of what was sent and of what waited at the time)", "net::event: Emitter, Subscriber and Broadcast (a lock around a list of senders) are not under contract; `event::wait` is, for any function, and its use with a function that keeps no state is read from that", "wait, wait_for_peers, wait_for_height, query_tree, find_branch, Client::new and Client::load are not under contract", "clone of a channel or waker goes to the same place"],
            "bounded": "a real Service fed with cut, malformed and foreign byte streams over connections that come and go; every method of a real handle against a stand-in reactor that acts only when woken; subscribers that come and go; a client on a scratch directory stopped and started again"},
    "C25": {"units": ["addrstore"],
            "trusted": ["microserde: a value's text followed by a newline is read back as that value; an object is a map from texts to values", "std::net: an address is read back from the text it is written as (addresses with an IPv6 flow label are not); bitcoin's `Address::new` and `SocketAddr::from` keep the sixteen octets and the port", "the file: a sequence of bytes and a position; a write that succeeds puts the bytes there", "LocalTime: `block_time` and `from_block_time` are seconds as 32-bit numbers", "Store::seed, Store::iter, Store::is_empty, Cache::open and Cache::create are not under contract (the last four are run by the harness)"],
            "bounded": "random books on a scratch directory: addresses of both kinds, every source, missing and extreme times, inserted, changed, removed, flushed and reopened in any order, next to a map in memory; copies of the file cut, edited and bit-flipped are opened"},
    "C26": {"units": ["wallet"], "harness": "harness_wallet",
            "trusted": ["the database (wallet/src/wallet/db.rs: SQL through SQLite) is a map from outpoints to coins: `add_utxo` adds what is not there, `remove_utxo` removes, `balance` is the sum; its methods are read as taking `&mut self`. SQL is outside the verifier's reach: these contracts are what the harness checks against the real database, bounded", "bitcoin: a transaction's id, `Address::from_script` keeps the script; scripts watched have an address; a transaction has fewer than 2^32 outputs", "the display (Ui) shows the balance it was last given", "Wallet::run (channels, terminal, hardware device) is not under contract"],
            "bounded": "chains of transactions that pay and spend watched, foreign and unusual outputs, applied to a real wallet on a scratch database, restarted anywhere and scanned again; the database by itself against a map"},
}
