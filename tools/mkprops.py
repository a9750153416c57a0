import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,hook=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs or [],"hook_needed":hook}})
C="chain/src/block/cache.rs"
p("C01","Only headers that obey the consensus rules become active",
 "A header joins the active chain only if its proof of work meets the difficulty its predecessor requires, its timestamp is after the median of the (at most 11) blocks before it and at most two hours after network time, and it matches the checkpoint at its height if there is one. A header that follows the tip and satisfies all of these is accepted; one that violates any of them is refused and changes nothing.",
 ["inputs","histories"],"for every block tree state reachable by imports, every header and every network time",
 "Tests import a handful of prepared chains; the rules have to hold for every timestamp, target and height combination, including interval boundaries and chains shorter than the median window.",
 [C,"common/src/block/time.rs","common/src/block.rs"],
 [("header validation",C+" BlockCache::validate"),("median time past",C+" BlockCache::median_time_past"),("minimum difficulty rule",C+" BlockCache::next_min_difficulty_target"),("branch validation",C+" BlockCache::validate_branch")],
 ["result of importing a header","active chain after the import"])
p("C02","Difficulty retargeting follows the consensus rule exactly",
 "At every multiple of the adjustment interval the required difficulty is the previous target scaled by the time the interval really took, with that time clamped to between a quarter and four times the intended span (also when the clock ran backwards) and the result capped at the network's limit; between adjustments it does not change. On networks without retargeting the difficulty never changes.",
 ["inputs","configurations"],"for every height, timestamp pair, target and set of consensus parameters",
 "The existing tests sample a few mainnet heights; clamping, rounding and the cap depend on the full 256-bit arithmetic over arbitrary times, including an interval whose end precedes its start.",
 ["common/src/block/tree.rs","common/src/block.rs"],
 [("retarget rule","common/src/block/tree.rs BlockReader::next_difficulty_target"),("proof-of-work limits","common/src/block.rs pow_limit_bits")],
 ["difficulty bits reported for the next block"])
p("C03","The active chain is the valid chain with the most work",
 "After every import the active chain carries at least as much total work as any known valid branch that hangs off it; it switches only to a branch with strictly more work, except that off mainnet a tie goes to the lower tip hash. The reported chain work always equals the sum of the work of the active headers.",
 ["histories","inputs"],"for every sequence of header imports, in any order, including orphans that connect later and branches of unequal difficulty",
 "A fixed set of fork shapes is tested; the choice has to be right for every tree of headers, arrival order and work distribution.",
 [C,"common/src/block/tree.rs"],
 [("candidate search",C+" BlockCache::chain_candidates, BlockCache::fork"),("switching",C+" BlockCache::import_block, BlockCache::switch_to_fork"),("work sum","common/src/block/tree.rs Branch::work")],
 ["tip and chain work after an import"])
p("C04","Every view of the active chain agrees with every other",
 "At any moment the active chain starts at genesis, each block names its predecessor by hash, and a block's height is its position. Looking a block up by hash, by height, by range or by iteration, asking for the tip, the height or whether a hash is active or known, all give answers consistent with that one chain.",
 ["histories"],"after every sequence of imports and reorganisations, successful or refused",
 "Tests look blocks up after a few imports; the indexes must stay coherent across every history of extensions, reverts, reconnects and refusals.",
 [C],[("hash index and chain vector",C+" BlockCache::extend_chain, BlockCache::rollback, BlockCache::switch_to_fork"),("readers",C+" impl BlockReader for BlockCache")],
 ["answers of the block reader queries"])
p("C05","An import reports exactly how the active chain changed",
 "When importing headers succeeds, the reported result is the exact difference between the active chain before and after: the reported tip is the tip, the reverted blocks are precisely those no longer active with their heights, and the connected blocks precisely those newly active, each once, in height order. No change is reported if and only if the active chain is the same as before, and an import that fails leaves the active chain as it was.",
 ["histories","inputs"],"for every single header and every batch of headers, from every tree state",
 "Tests check the report for a few simple reorganisations; batches that revert and re-connect the same blocks, or several reorganisations in one batch, are not reached.",
 [C],[("single import",C+" BlockCache::import_block"),("batch accumulation",C+" BlockCache::import_blocks"),("tip extension",C+" BlockCache::extend_tip")],
 ["result of importing headers"])
S="chain/src/block/store/io.rs"
p("C06","Stored headers survive restarts and crashes",
 "The header store returns exactly the headers appended and not rolled back, in order, by height or by iteration, with the right length and height, also after reopening. If a crash leaves only part of an append on disk, the integrity check notices a partial record and healing leaves the headers stored before plus a prefix of those being appended. What is stored is always the active chain, and loading it restores the same chain, work and lookups.",
 ["histories","crash_points","inputs"],"for every sequence of appends, rollbacks and reopenings, every store length relative to the read batch, and every byte at which an append can be cut off",
 "Tests store a few dozen headers and cut the file at one place; batch boundaries, partial records and arbitrary operation histories need every length and offset.",
 [S,"chain/src/block/store/memory.rs",C],[("append and lookup",S+" put, get"),("buffered reading",S+" FileReader::next, Iter::next"),("rollback, length, integrity, healing",S+" impl Store for File"),("in-memory store","chain/src/block/store/memory.rs impl Store for Memory"),("loading",C+" BlockCache::load_with")],
 ["headers returned by the store","chain after loading"])
p("C07","Checkpoints cannot be bypassed",
 "A block at a checkpointed height becomes active only if its hash is the checkpoint's. Once the active chain has reached a checkpoint, no import, in whatever order the headers arrive, ever replaces a block at or below it.",
 ["histories","inputs","configurations"],"for every set of checkpoints and every order of header arrival, including side branches whose missing middle block arrives after the checkpoint was passed",
 "Tests cover a direct fork below a checkpoint; branches completed late by a withheld header, and checkpoints reached in the middle of a reorganisation, are not sampled.",
 [C],[("checkpoint hash check",C+" BlockCache::validate"),("fork height check",C+" BlockCache::import_block, BlockCache::validate_branch"),("last checkpoint reached",C+" BlockCache::last_checkpoint")],
 ["active chain after an import"])
p("C08","Locators and header requests are answered from the active chain",
 "A block locator from a height lists active block hashes from that height down, one by one at first and then at doubling distances, ending at genesis or just before it would pass below the last reached checkpoint. A header request is answered with the consecutive active headers right after the first locator hash that is active (or after genesis if none is), never beyond the stop hash, the tip or the maximum; with no locators it is answered with the stop block alone if that is active.",
 ["inputs","histories"],"for every chain, start height, list of locator hashes, stop hash and maximum",
 "Tests fix a few heights and hashes; the off-by-one boundaries at the stop hash, the tip, the maximum and the checkpoint need all values.",
 [C,"common/src/block.rs"],[("locator heights","common/src/block.rs locators_indexes"),("locator hashes",C+" BlockCache::locator_hashes"),("header range",C+" BlockCache::locate_headers"),("branch search",C+" BlockCache::find_branch")],
 ["locator hashes","headers returned for a request"])
FC="p2p/src/fsm/filter_cache.rs"
p("C10","The compact filter cache keeps exactly the newest filters that fit",
 "The cache holds, for each height, the filter last pushed there. The size it reports is the total size of the filters it holds and never exceeds its capacity. A filter that could never fit is refused and changes nothing; otherwise it is stored and, if room is needed, filters are given up from the lowest height upwards, no more of them than necessary. Rolling back removes exactly the filters above the given height.",
 ["histories","inputs"],"for every capacity and every sequence of pushes (also at heights already cached) and rollbacks",
 "The existing property test pushes ascending heights only; replaced heights, out-of-order pushes and exact eviction need every history.",
 [FC],[("push and eviction",FC+" FilterCache::push"),("rollback",FC+" FilterCache::rollback"),("queries",FC+" FilterCache::start, end, get, size, iter")],
 ["contents and size of the cache"])
FE="p2p/src/fsm/fees.rs"
p("C12","Fee estimates describe the block and survive reorganisations",
 "The estimate for a block is the lowest, median and highest fee rate over the transactions of the block whose spent outputs are all known (the median of an even number is the average of the middle two, halves up), and there is none when no such transaction exists. A block at or below the current height is ignored. Rolling back up to twelve processed blocks restores exactly the outputs known after the last block that is kept, so that processing the same blocks again gives the same estimates; rolling back to the current height or above changes nothing.",
 ["histories","inputs"],"for every sequence of valid blocks and rollbacks, gaps in height included",
 "Tests process one generated chain and two rollbacks; the restored state has to be right for every depth, gap and repetition.",
 [FE],[("estimate of a list",FE+" FeeEstimate::from"),("applying a transaction",FE+" FeeEstimator::apply"),("snapshots",FE+" FeeEstimator::process, FeeEstimator::rollback")],
 ["fee estimate of a processed block"])
BT="common/src/block/time.rs"
p("C13","Network time never strays more than 70 minutes from local time",
 "The offset applied to local time is the median of the time samples (our own zero included) at the last moment their number was odd and at least five, or zero when that median is more than 70 minutes away or there were never enough samples. Each source is heard once and at most 200 are heard. Network time is local time plus that offset. This holds whatever timestamps peers send; none makes the node fail.",
 ["inputs","histories"],"for every sequence of peer offsets over the whole 64-bit range, repeated sources included, and every local time before 2106",
 "Tests feed a few dozen hand-picked offsets; extreme timestamps, ties and source limits need the whole input space.",
 [BT,"net/src/time.rs"],[("median offset",BT+" AdjustedTime::record_offset"),("adjustment",BT+" AdjustedTime::from, AdjustedTime::get")],
 ["network-adjusted time and offset"])
TM="net/poll/src/time.rs"
p("C14","Timers fire exactly once, in order, and never late",
 "A wake-up request is refused exactly when another pending one is closer to it than the threshold, and is otherwise kept until it fires. The wait reported is exactly the time to the earliest pending wake-up (zero if it is already due). Waking at a given time reports every wake-up due by then, each exactly once and in time order, and leaves every later one pending.",
 ["histories","inputs"],"for every threshold and every sequence of registrations, wakes and queries at any times",
 "The property test registers whole seconds and wakes at the reported delays; thresholds, equal times and wakes that are late or early are not sampled.",
 [TM,"net/src/time.rs"],[("registration",TM+" TimeoutManager::register"),("waiting time",TM+" TimeoutManager::next"),("firing",TM+" TimeoutManager::wake"),("time arithmetic","net/src/time.rs LocalTime::diff, Sub, Add")],
 ["keys woken and wait reported"])
p("C15","Messages are decoded the same however the bytes arrive",
 "Whatever way a byte stream is cut into pieces, and whether or not decoding is attempted in between, the decoder yields exactly the messages of the stream, in order, each once, unaltered. An incomplete message is kept until the rest arrives; a message that is not decodable is reported as an error and nothing after it is misread as a message.",
 ["inputs","schedules"],"for every sequence of well-formed messages, every way of splitting the bytes, every interleaving of input and decoding",
 "The property test splits two fixed messages into equal chunks; arbitrary messages, split points and decode schedules are not covered.",
 ["p2p/src/stream.rs"],[("input and decoding","p2p/src/stream.rs Decoder::input, Decoder::decode_next")],
 ["messages returned by the decoder"])
CB="p2p/src/fsm/cbfmgr.rs"
CF="chain/src/filter/cache.rs"
p("C09","Filter headers form one unbroken chain that only grows by verified answers",
 "The filter headers held are one unbroken hash chain from the network's genesis filter header, never longer than the active block chain, and what is persisted is what is in memory. They change only by a cfheaders message that answers a request of ours (its stop block), has the basic filter type, continues exactly our last filter header and covers exactly the next heights up to its stop block on the active chain, 1 to 2000 of them; they then grow by exactly the headers the message's filter hashes imply. Any other message leaves them unchanged, and an answer that a reorganisation made stale is not held against the peer that sent it. A reorganisation cuts them back to the fork. Verification of the stored headers reports an error exactly when the chain is broken. A peer asking for filter headers gets all of the range or no answer, at most 2000.",
 ["inputs","histories"],"for every chain of blocks, every cfheaders and getcfheaders message from any peer, in any order with reorganisations, disconnections and timeouts",
 "Tests replay a few well-formed messages; a broken chain accepted once makes every later filter unverifiable, so every message, count and history matters.",
 [CB,CF,"common/src/block/filter.rs"],[("accepting headers",CB+" FilterManager::received_cfheaders"),("requests",CB+" FilterManager::sync, send_getcfheaders, get_cfheaders"),("serving headers",CB+" FilterManager::received_getcfheaders"),("reorganisation",CB+" FilterManager::rollback"),("storage",CF+" FilterCache::import_headers, rollback, clear, get_headers, load_with, verify_with")],
 ["filter headers and height","filter header messages and misbehaviour reports"])
CR="p2p/src/fsm/cbfmgr/rescan.rs"
p("C11","A rescan matches every filter once, in order, and fetches the matching blocks",
 "Once a rescan is started for a range of heights, the filters of the active chain are matched in height order from its start, each once, with no gap and never past its end; the filter used at a height is the one the filter header chain commits to for the active block there: a cfilter message that is not is refused, one for a block off the active chain or with another filter type is ignored, neither changes the scan. A block is requested exactly when its filter matches a watched script or all the outputs of a watched unconfirmed transaction, at most once while it is awaited, and it is reported as matched exactly once, when the awaited block has been fetched and processed. Each filter processed is reported with its height, block and whether it matched; the end of the scan is reported exactly when the filter at the end height has been matched. Only missing filters are requested. A reorganisation below the current height of an active scan sets it back to the fork, though not before its start, and filters of blocks that left the chain are forgotten; a finished scan is not resumed, and scripts added during a scan count from the current height on. Timers and other messages do not change the progress of the scan.",
 ["inputs","histories"],"for every chain, set of scripts, start and end, every order of filters, cache content, peer messages, reorganisations and timeouts",
 "A skipped or doubly counted filter silently loses or repeats a user's transaction; tests scan a few short honest chains.",
 [CR,CB],[("matching in order",CR+" Rescan::process, match_filter, received"),("requests",CR+" Rescan::requests; "+CB+" FilterManager::get_cfilters"),("filter messages",CB+" FilterManager::received_cfilter, received_event"),("starting",CB+" FilterManager::rescan; "+CR+" Rescan::restart"),("reorganisations",CB+" FilterManager::rollback; "+CR+" Rescan::rollback")],
 ["filter, block matched, scanned and rescan events","getcfilters and block requests"])
PM="p2p/src/fsm/pingmgr.rs"
p("C19","Peers are pinged on time, dead ones are dropped and live ones are not",
 "A peer is sent one ping when its handshake completes, and one more at the first timer two minutes or more after it answered the last one; never two without an answer in between. A pong counts as the answer only if it comes from that peer and carries the nonce of the ping outstanding with it; any other pong changes nothing. When a timer fires, exactly the peers that have owed an answer for the ping timeout or longer are told to disconnect for it, and no other peer. Every ping from a peer past its handshake is answered to that peer with a pong of the same nonce, a ping from anyone else is not. A peer that disconnected is neither pinged nor dropped any more, and at most 64 latencies are kept per peer.",
 ["inputs","histories"],"for every set of peers, every sequence and timing of pings, pongs (right, wrong or repeated nonces), timers and disconnections",
 "Tests play one ping and one timeout; a wrong deadline or nonce check drops live peers or keeps dead ones, which stalls the node.",
 [PM],[("handshake",PM+" PingManager::peer_negotiated"),("timers",PM+" PingManager::timer_expired"),("messages",PM+" PingManager::received_ping, received_pong, received_event")],
 ["ping and pong messages","disconnections for ping timeout"])
IM="p2p/src/fsm/invmgr.rs"
p("C17","Blocks asked for arrive once, in chain order; transaction statuses follow",
 "Every block asked for is requested from a peer that serves blocks, and again every 15 seconds until it arrives or leaves the active chain. A block message counts only if that block is awaited, its transactions match its merkle root and it is on the active chain; any other changes nothing. Once no request is outstanding, the blocks received are processed in increasing height, each exactly once, each reported with its height on the active chain. A transaction the user submitted is reported confirmed exactly when a processed block contains it, with that block and height, and is then neither offered to peers nor served any more; if that block leaves the chain (and it was not buried more than 12 deep), the transaction is reported reverted, once, is back in the mempool and is offered to all relaying peers again. A peer that asks for a submitted, unconfirmed transaction gets it, nothing else is served; the first such request of a peer it was offered to is reported as an acknowledgement, later ones are not. Unacknowledged offers name exactly the transactions outstanding with that peer, are repeated at most three times a minute or more apart, and then that peer alone is reported as timed out.",
 ["inputs","histories"],"for every order of requests, blocks (authentic, corrupt, repeated, stale), reorganisations, submissions, getdata messages, peers and timers",
 "A lost, repeated or out of order block or status corrupts a wallet built on it; tests cover one block and one transaction at a time.",
 [IM],[("receiving blocks",IM+" InventoryManager::received_block, process_received"),("reorganisations",IM+" InventoryManager::block_reverted, received_event"),("offering transactions",IM+" InventoryManager::announce, peer_negotiated, timer_expired"),("serving transactions",IM+" InventoryManager::received_getdata"),("requests",IM+" InventoryManager::get_block, timer_expired")],
 ["block processed and transaction status events","getdata, inv and tx messages"])
PE="p2p/src/fsm/peermgr.rs"
p("C18","Peers must complete an acceptable handshake; connections follow the limits",
 "A peer is reported negotiated exactly when the first verack follows the first version message of its present connection and that version was acceptable; so at most once per connection, and with the data of that version message: a negative height as zero, the lower of the two protocol versions, and wtxid relay if wtxidrelay came before the verack. A version is refused, and the peer disconnected with that reason, exactly if the protocol version is below 70012, its nonce is one of our own on an open outbound connection, the user's hook refuses it, or, on outbound connections, it lacks the required services or lags more than 2016 blocks and the peer is not trusted (on a local address, whitelisted or one the user asked to connect to), or lacks the preferred services while the outbound target is met. An accepted one is answered with (our version, if the connection is inbound,) wtxidrelay, verack and sendheaders, in this order. A verack or wtxidrelay after the handshake disconnects the peer, before the version they are ignored, as is any further version message. When a timer fires, exactly the peers that have been connecting for 6 seconds or more, or have owed their version or verack for 12 seconds or more, are disconnected for it. No address is dialed that is connected, being dialed or being disconnected, or of a disabled address family. A configured persistent peer that was lost is dialed again at the first timer after 2^n seconds (at most an hour), n being the failures in a row, and nothing else is dialed on the node's own initiative if there are persistent peers; otherwise at most as many as leave room within the outbound target. An inbound connection beyond the limit is disconnected. Every connection established or ended and every failed attempt is reported exactly once.",
 ["inputs","histories"],"for every order and timing of connections, failures, handshake messages of any content, user commands and timers, and every configuration of targets, limits, services, persistent peers and address families",
 "The handshake is the node's gate: a peer let through half-negotiated, a live peer dropped, or a slot leaked appears only in particular orders of messages, timers and disconnections, of which tests play a few.",
 [PE],[("handshake",PE+" PeerManager::handle_version, received_verack, received_wtxidrelay"),("connections",PE+" PeerManager::peer_connected, peer_disconnected, connect, disconnect"),("limits",PE+" PeerManager::delta, maintain_connections"),("timeouts and retries",PE+" PeerManager::timer_expired, maintain_persistent, persistent_disconnected")],
 ["peer connected, negotiated, disconnected and connection failed events","handshake messages, dials and disconnections requested from the reactor"])
SY="p2p/src/fsm/syncmgr.rs"
p("C16","Header sync asks, imports and reports exactly what it should",
 "Headers change the chain only if they come in a headers message of at most 2000 from a peer past its handshake, of at most 24 if that peer owes us no headers, or are imported by the user; a message of more than 2000 is reported as misbehaviour. Whenever the chain changes, the blocks that left it are reported from the old tip down, then those that joined it in order, then the new tip with both lists, all exactly once; nothing is reported otherwise; and each inbound peer not known to have the new tip's height, and no other peer, is sent it. No peer is asked for headers while it owes us an answer; a peer owes it until it sends a headers message, disconnects, or 30 seconds have passed. A full message of 2000 headers that changed the chain is followed by a request to the same peer for those after the new tip, and a peer that then stays silent is disconnected; headers that lead nowhere are followed by a request to their sender for those that lead up to the first of them, unless that was the last thing it was asked; a block announced by inv that we do not know is asked for while no answer is owed, and if unanswered asked for again from other outbound peers, at most three times, before the last one is disconnected. When peers join, headers shorter than a full message are imported, or every ten minutes, the node reports being in sync if no peer is known to have a longer chain and the tip is not stale (two hours old, or unchanged for three block intervals), and otherwise, if some peer has a longer chain and nobody owes us the same headers, asks a peer for the headers after our tip. With a stale tip, all outbound peers not asked the same before are asked, once an hour. A peer that asks for headers gets those of our chain that follow its locator, at most 2000 up to its stop hash, exactly if we wait for none ourselves and there are any. A disconnected peer is forgotten.",
 ["inputs","histories"],"for every chain and tree of headers, every set of peers and heights they claim, every headers, getheaders and inv message of any content in any order, disconnections and timers",
 "A lost request stalls the node for good, a repeated one floods a peer, a wrong report corrupts everything built on the chain; tests play single exchanges with honest peers.",
 [SY],[("importing and reporting",SY+" SyncManager::received_headers, import_blocks"),("requests",SY+" SyncManager::request, sync, received_inv, sample_peers, preferred_peer"),("timeouts",SY+" SyncManager::timer_expired, idle"),("serving",SY+" SyncManager::received_getheaders, broadcast_tip"),("peers",SY+" SyncManager::peer_negotiated, unregister, received_event")],
 ["getheaders and headers messages","block connected, disconnected, imported and synced events","disconnections for unanswered getheaders"])
AD="p2p/src/fsm/addrmgr.rs"
p("C21","The address book takes in, keeps and hands out only acceptable addresses",
 "An address enters the book only from an addr message of 1 to 1000 entries or by the user's import, and only if it has the required services and neither GETUTXO nor BLOOM, was last active (imports excepted) at a time other than zero and at most an hour after the last idle tick, is of an enabled address family, globally routable, not local, not one of our own addresses as told by any peer in its version message, and not banned; every such address does enter, with its source and last active time, unless its IP address is known already: known entries are never overwritten. The range of an address is its first 16 bits (IPv4) or 32 bits (IPv6) modulo 255; each range keeps at most 256 addresses, and a full one gives up one of its own for each new one; nothing else ever removes an address but a ban. A peer that we were connected to and disconnected for a reason other than the connection limit, a timeout or a low height is removed and its IP address banned: it never enters the book again. An address handed out for a connection is in the book, of an enabled address family, has the services asked for, is of no IP address we have a connection with, was not tried in vain and not handed out within the last three minutes, and is marked as handed out; none is handed out only if there is no such address. Addresses with the preferred services are taken first, then with the required ones, then any. Attempts, handshakes and signs of life are recorded in the entry of the peer's IP address with their time, and the services it announced with them. A peer in the book is asked for addresses at its first successful handshake. When a timer fires, all addresses are used up and this was not the case within the last minute, the outbound peers past their handshake are each asked for addresses once. A getaddr message is answered with exactly one known address of each range that has any, with the time it was last active. The book is saved at every idle tick, the first timer a minute or more after the last one.",
 ["inputs","histories"],"for every initial book, every addr message, import, connection, handshake, disconnection for any reason, timer and random choice, in any order",
 "The book decides whom a node talks to: an attacker's way to eclipse it is to fill the book, to have bans forgotten or good addresses dropped, by sequences of messages that tests do not play.",
 [AD],[("what enters the book",AD+" AddressManager::insert, received_addr, populate_address_ranges, is_routable, is_local, addr_key"),("what is handed out",AD+" AddressManager::sample, sample_with, is_connected"),("bans",AD+" AddressManager::peer_disconnected, ban; p2p/src/fsm.rs DisconnectReason::is_transient"),("asking and answering",AD+" AddressManager::timer_expired, is_exhausted, get_addresses, received_getaddr, peer_negotiated")],
 ["the contents of the peer store","dials","getaddr and addr messages","the address book exhausted event"])
FS="p2p/src/fsm.rs"
p("C20","No message, network event or command makes the node panic, overflow or loop",
 "Whatever messages peers send (of any type and content, in any order, before, during or after the handshake, from unknown addresses or for another network), whichever dials fail, connections end and timers fire, and whatever the user commands, every input to the node returns and the output it leads to ends: no panic of any kind (also none of the code's own assertions, in debug builds), no arithmetic overflow and no endless loop. Taken for granted: the node was initialised, the transport reports events once and in order, storage does not fail, blocks on the most-work chain spend no more than they get, heights the user passes are below 2^62 and a rescan's range is not empty.",
 ["inputs","histories"],"for every sequence of messages, connections, failures, timers and commands, and every configuration of limits",
 "One crafted message that panics takes down every node it is sent to; tests send well-formed messages in the expected order.",
 [FS,AD,CB,IM,SY,PE,PM],[("headers and blocks",SY+" SyncManager::received_headers; "+IM+" InventoryManager::received_block"),("filters",CB+" FilterManager::received_cfheaders, received_cfilter, get_cfilters, rescan"),("handshake and connections",PE+" PeerManager::handle_version, peer_connected, peer_disconnected"),("addresses",AD+" AddressManager::insert, sample"),("routing",FS+" StateMachine::message_received, command, timer_expired")],
 ["the node's thread stays alive","every input returns"])
p("C22","Every input reaches the node's parts once, and their output the world once",
 "A message for another network only gets its sender disconnected for that reason, if it is connected. A message from an address with no connection, or one the user's hook refuses, changes nothing and causes nothing to be sent; any other message reaches every part whose business it is exactly once. Whatever a part of the node wants done (connect, disconnect, send, wake up, tell the user) is done exactly once, unaltered, in that part's order, and messages carry the magic of the network configured. Every event is heard by every part and by the user exactly once; a timer wakes every part; attempts, connections and disconnections reported by the transport reach the peer manager; initialising reports Initializing and then Ready with the tip, the filter tip and the time. Every command reaches its part with the user's arguments and is answered exactly once, with that part's result: the tip; the header asked for by hash or height; exactly the peers past their handshake that offer the services asked for; exactly the peers past their version message that the predicate selects, each of which is sent the message once; the peers a transaction is announced to, or that there are none, the transaction being watched.",
 ["inputs","histories"],"for every sequence of messages, connections, failures, timers and commands, every hook and predicate",
 "A message handled twice, an event one part never hears or an output dropped shows up only as two parts of the node disagreeing much later.",
 [FS],[("input",FS+" StateMachine::message_received, attempted, connected, disconnected, timer_expired"),("output",FS+" StateMachine::next, event, broadcast; p2p/src/fsm/output.rs Outbox::next"),("commands",FS+" StateMachine::command"),("start",FS+" StateMachine::initialize")],
 ["what the node sends, connects to and disconnects","events","what commands are answered"])
RE="net/poll/src/reactor.rs"
p("C23","The reactor reports connections truthfully and moves every byte once, in order",
 "For every address the service hears: attempted (when it asked for the connection), then connected, then disconnected, each at most once per connection, in that order, and never a second connection for an address that has one. A dial that fails is reported as a failure and never as connected; a connection that ends is reported gone exactly once; one the service asks to end is ended, and reported with the service's reason. While a connection lasts, the bytes the service writes reach the other end whole, in order and once, however much the kernel takes at a time, and the bytes the other end sends reach the service in order and once; nothing is sent on a connection that was ended, and nothing of one connection ends up in another. Events the service emits are published once, in order; commands are handed to it once, in order, however many wait when it is woken; timers wake it, not early, also while peers send without pause; signals don't stop it, and a shutdown ends it.",
 ["schedules","inputs","fault_sequences"],"for every order of readiness, every amount the kernel takes or gives at a time, and every failure of a dial, read or write",
 "Partial writes, a refusal that comes late, or a timer while the sockets are busy depend on the kernel's timing, which the tests' simulator doesn't have.",
 [RE,"net/poll/src/socket.rs"],[("loop",RE+" Reactor::run"),("output",RE+" Reactor::process, register_peer, unregister_peer"),("readiness",RE+" Reactor::handle_readable, handle_writable"),("bytes","net/poll/src/socket.rs Socket::push, flush, read")],
 ["what the service is told about connections","bytes at both ends of a connection","events published","commands and timers"])
CL="client/src/client.rs"
p("C24","The client hands over every message, command, answer and event once, in order",
 "The bytes of a connection reach the node as the messages they encode, each once, in order and from that address, however the bytes are cut; a malformed message ends the connection; bytes left over when a connection ends never mix with a later one from the same address; and what the node writes leaves as the encoding of exactly that message. Each call on a handle sends the node one command, the one it names, wakes it afterwards, and returns the node's answer to that command; calls that wait (connect, disconnect, waiting for peers or a height) notice everything that happens from before their command on, return at the first event that satisfies them, and otherwise time out when their time is up, not before. Each subscriber to events, blocks or filters gets everything published since it subscribed, once and in order, whoever else subscribes or goes away; and a client that is stopped and started again has the chain it had.",
 ["inputs","schedules","histories"],"for every way to cut the byte streams, every order of calls, events, subscriptions and answers, and every stop and start",
 "A message cut at one particular byte, a reconnection in the middle of a message, or an event between a command and the wait for it are interleavings the tests sample only by accident.",
 ["client/src/service.rs",CL,"client/src/handle.rs","net/src/event.rs"],[("bytes to messages","client/src/service.rs Service::message_received, connected, disconnected, next"),("commands and answers",CL+" Handle"),("waiting","net/src/event.rs wait"),("feeds","net/src/event.rs Emitter, Subscriber"),("start",CL+" Client::load")],
 ["messages the node gets","bytes written","answers to calls on the handle","events received by subscribers","the chain after a restart"])
p("C25","The saved address book is read back as it was, and damage to it is an error",
 "What the address book holds when it is flushed is what the next start reads: the same addresses and no others, each with its port, services, source and the times it was last tried, connected to, sampled and seen, to the second, whatever the file held before. A stored address is looked up, changed, removed, counted and listed as itself, and adding an address that is already there changes nothing and says so. A file that holds anything else is refused with an error or read as what it says; opening it never panics.",
 ["inputs","histories"],"for every set of addresses and times, every order of inserting, changing, removing, flushing and reopening, and every content of the file",
 "The two tests write one book once, with two of the four times missing; a second, shorter flush, an overwritten entry or a damaged field are never tried.",
 ["client/src/peer.rs","common/src/p2p/peer.rs"],[("records","common/src/p2p/peer.rs KnownAddress::to_json, from_json"),("file","client/src/peer.rs Cache::flush, from, open"),("store","common/src/p2p/peer.rs Store impls; client/src/peer.rs Store for Cache")],
 ["the file's bytes","addresses after reopening","results of insert, remove, get"])
p("C26","The wallet's coins are what its addresses were paid and have not spent",
 "After the transactions of a chain were handed to the wallet in order, with the scripts it watches, its coins are exactly the outputs among them that pay one of these scripts and are spent by none of the transactions, each once, with its value and script; its balance is the sum of their values. That stays so when it is stopped and started again at any point, and when the same transactions are handed over again from the start; looking up, adding or removing a coin or an address finds, adds or removes that one and no other.",
 ["inputs","histories"],"for every sequence of transactions in the order of a chain, every set of watched addresses, and every stop, start and rescan",
 "The tests add and remove one coin directly in the database; no transaction is ever applied to a wallet.",
 ["wallet/src/wallet.rs","wallet/src/wallet/db.rs","wallet/src/wallet/db/types.rs"],[("applying transactions","wallet/src/wallet.rs Wallet::apply, handle_client_event"),("coins and addresses","wallet/src/wallet/db.rs Read and Write for Db")],
 ["coins and balance","results of adding and removing coins and addresses"])
def three(s):
    """at most three sentences, the schema asks: the rest become clauses"""
    x=[y.strip() for y in s.rstrip(".").split(". ")]
    n=len(x)
    if n<=3: return s
    low=lambda y: y if len(y)>1 and y[1].isupper() else y[0].lower()+y[1:]
    g=[x[n*i//3:n*(i+1)//3] for i in range(3)]
    return " ".join("; ".join([y[0]]+[low(z) for z in y[1:]])+"." for y in g)
for x in P: x["statement"]=three(x["statement"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
