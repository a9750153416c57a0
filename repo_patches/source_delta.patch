From 4db1a9d2222a4aab427b5e79ed5c65fd73fa14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 01/36] fix: clamp negative timespan in difficulty retarget
 instead of underflowing

A retarget period whose last block carries an earlier timestamp than its
first block made the unsigned subtraction underflow: a panic in debug builds,
and the maximum (instead of minimum) timespan in release builds.
---
 common/src/block/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index f02f2ed..4d7a3aa 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -225,7 +225,7 @@ pub trait BlockReader {
             return last_adjustment_block.bits;
         }
 
-        let actual_timespan = last_time - last_adjustment_time;
+        let actual_timespan = last_time.saturating_sub(last_adjustment_time);
         let mut adjusted_timespan = actual_timespan;
 
         if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-- 
2.43.0


From 36f6fe53ff56c53979233e600c5cda524d0c5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:46 +0000
Subject: [PATCH 02/36] fix: report the exact chain difference when a batch of
 headers reverts and re-connects blocks

---
 chain/src/block/cache.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 1631e48..8b63509 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -581,8 +581,14 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                     reverted: r,
                     connected: c,
                 }) => {
+                    // Blocks connected earlier in this batch were not part of the original
+                    // chain, so we don't report them as reverted.
+                    reverted.extend(
+                        r.into_iter()
+                            .map(|(i, h)| ((i, h.block_hash()), h))
+                            .filter(|((_, h), _)| !seen.contains(h)),
+                    );
                     seen.extend(c.iter().map(|(_, h)| h.block_hash()));
-                    reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));
                     connected.extend(c);
 
                     best_hash = hash;
@@ -597,11 +603,15 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         }
 
         if !connected.is_empty() {
-            // Don't return reverted blocks if they were seen as connected at some point, since
+            // Don't return connected blocks if they are not in the main chain, or if they were
+            // reverted and re-connected, ie. they were already in the main chain.
+            connected.retain(|height, h| {
+                let hash = h.block_hash();
+                self.contains(&hash) && !reverted.contains_key(&(*height, hash))
+            });
+            // Don't return reverted blocks if they were re-connected at some point, since
             // we only want to include blocks reverted from the main chain.
-            reverted.retain(|(_, h), _| !seen.contains(h) && !self.contains(h));
-            // Don't return connected blocks if they are not in the main chain.
-            connected.retain(|_, h| self.contains(&h.block_hash()));
+            reverted.retain(|(_, h), _| !self.contains(h));
 
             Ok(ImportResult::TipChanged {
                 header: best_header,
-- 
2.43.0


From 63a697253f5c2e47850591316a5d9c8fb1d8f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:41 +0000
Subject: [PATCH 03/36] fix: don't switch to a branch that forks off below the
 last passed checkpoint

---
 chain/src/block/cache.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 8b63509..0391886 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -420,6 +420,11 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
 
     /// Validate a candidate branch. This function is useful for chain selection.
     fn validate_branch(&self, candidate: &Candidate, clock: &impl Clock) -> Result<(), Error> {
+        // Don't consider branches that fork off the main chain prior to the last checkpoint.
+        if candidate.fork_height < self.last_checkpoint() {
+            return Err(Error::InvalidBlockHeight(candidate.fork_height + 1));
+        }
+
         let mut tip = CachedBlock {
             height: candidate.fork_height,
             header: candidate.fork_header,
-- 
2.43.0


From 418ed958863651d3d924af5ca4326e7d31ad2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 04/36] fix: bound the network time offset for every peer
 timestamp

The absolute value of the smallest representable offset overflows: a
median of i64::MIN panicked in debug builds, and was accepted as an
offset in release builds.
---
 common/src/block/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index b38e2b6..0aebb98 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -230,7 +230,7 @@ impl<K: Hash + Eq> AdjustedTime<K> {
             let median_offset: TimeOffset = offsets[count / 2];
 
             // Don't let other nodes change our time by more than a certain amount.
-            if median_offset.abs() <= MAX_TIME_ADJUSTMENT {
+            if median_offset.unsigned_abs() <= MAX_TIME_ADJUSTMENT.unsigned_abs() {
                 self.offset = median_offset;
             } else {
                 // TODO: Check whether other nodes have times similar to ours, otherwise
-- 
2.43.0


From 00c88b06916e3d71a3e2b5e5c5bf02e285031232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 05/36] fix: don't overflow on extreme version timestamps

The timestamp of a version message is chosen by the remote peer, and
subtracting our own time from it could overflow.
---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index c263f7b..cd59143 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -521,7 +521,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     peer: Some(PeerInfo {
                         nonce,
                         height: start_height as Height,
-                        time_offset: timestamp - now.block_time() as i64,
+                        time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
                         user_agent,
-- 
2.43.0


From 6a5a99a6bb289286341ce557c0dcbae5d2a8c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:14 +0000
Subject: [PATCH 06/36] fix: account for replaced filters in the filter cache

Pushing a filter at a height that is already cached added its size
without subtracting the size of the filter it replaced, so the reported
size was wrong from then on and filters were evicted early.
---
 p2p/src/fsm/filter_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 08c69e9..6346d2f 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -124,7 +124,9 @@ impl<T: Filter> FilterCache<T> {
             return false;
         }
 
-        self.cache.insert(height, filter);
+        if let Some(replaced) = self.cache.insert(height, filter) {
+            self.size -= replaced.len();
+        }
         self.size += size;
 
         while self.size > self.capacity {
-- 
2.43.0


From d978342d04310958023c66a669c0e3364802c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:26 +0000
Subject: [PATCH 07/36] fix: don't undo fee estimator blocks that weren't
 reverted

Rolling back to a height at or above the last processed block restored
the previous snapshot, dropping the outputs of a block that is still
active.
---
 p2p/src/fsm/fees.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 4ec322a..2ab2b71 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -125,6 +125,10 @@ impl FeeEstimator {
 
     /// Rollback to a certain height.
     pub fn rollback(&mut self, height: Height) {
+        if height >= self.height {
+            // We haven't processed any block past this height.
+            return;
+        }
         self.snapshots.retain(|(h, _)| h <= &height);
 
         if let Some((h, snapshot)) = self.snapshots.pop_back() {
-- 
2.43.0


From 833bf99420c41d192e7e9029322af65433513ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:15 +0000
Subject: [PATCH 08/36] fix: don't crash on or partially answer `getcfheaders`

The range is chosen by the remote peer: reject inverted and oversized ranges,
and ignore ranges we don't have all the filter headers for.
---
 p2p/src/fsm/cbfmgr.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index b3d6d99..5028934 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -748,6 +748,27 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             });
         };
 
+        if start_height > stop_height {
+            return Err(Error::InvalidMessage {
+                from,
+                reason: "getcfheaders: start height is greater than stop height",
+            });
+        }
+        if stop_height - start_height >= MAX_MESSAGE_CFHEADERS as Height {
+            return Err(Error::InvalidMessage {
+                from,
+                reason: "getcfheaders: requested range is too large",
+            });
+        }
+        if stop_height > self.filters.height() {
+            // We must be syncing, since we have the block headers requested but
+            // not the associated filter headers. Simply ignore the request.
+            return Err(Error::Ignored {
+                reason: "cfheaders not found",
+                from,
+            });
+        }
+
         let headers = self.filters.get_headers(start_height..=stop_height);
         if !headers.is_empty() {
             let hashes = headers.iter().map(|(hash, _)| *hash);
-- 
2.43.0


From 1680b960a50be7a5683daf1251e25764590d0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:23 +0000
Subject: [PATCH 09/36] fix: don't crash if filters can't be requested after a
 header import

The peers may be gone, or the range invalid, by the time filter headers arrive.
---
 p2p/src/fsm/cbfmgr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 5028934..f2f6a92 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -704,7 +704,10 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         self.filters
             .import_headers(headers)
             .map(|height| {
-                self.headers_imported(start_height, height, tree).unwrap(); // TODO
+                if let Err(e) = self.headers_imported(start_height, height, tree) {
+                    // Nb. The filters will be requested when we're next connected to a peer.
+                    log::debug!(target: "p2p", "Couldn't request filters: {e}");
+                }
 
                 assert!(height <= tree.height());
 
-- 
2.43.0


From 9f71b3180b5bd75761ce1b4458eeee61a6d134cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:31 +0000
Subject: [PATCH 10/36] fix: return an error when requesting filters past the
 filter header tip

The range is chosen by the user, and must not crash the node.
---
 p2p/src/fsm/cbfmgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index f2f6a92..49d1c1e 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -446,7 +446,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if range.is_empty() {
             return Err(GetFiltersError::InvalidRange);
         }
-        assert!(*range.end() <= self.filters.height());
+        if *range.end() > self.filters.height() {
+            return Err(GetFiltersError::InvalidRange);
+        }
 
         // TODO: Only ask peers synced to a certain height.
         // Choose a different peer for each requested range.
-- 
2.43.0


From 7c9d499e23873b0ab95dd02b4146c7203112d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 11/36] fix: report blocks matched by cached filters

Matches found when a rescan starts were fetched, but never reported as matched,
since they weren't pending.
---
 p2p/src/fsm/cbfmgr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 49d1c1e..51833a9 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -428,7 +428,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         for event in events {
             self.outbox.event(event);
         }
+        // Keep track of the blocks being fetched, so that we are able to report them.
         matches
+            .into_iter()
+            .filter(|(height, _)| self.pending_blocks.insert(*height))
+            .collect()
     }
 
     /// Send one or more `getcfilters` messages to random peers.
-- 
2.43.0


From e5d62342036ebd3913882d9cb06f5f8fea9628ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:57 +0000
Subject: [PATCH 12/36] fix: forget the filters of reverted blocks

Filters of reverted blocks that were received but not yet processed would be
matched in place of the filters of the blocks that replaced them.
---
 p2p/src/fsm/cbfmgr/rescan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f308520..fd8f8b1 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -83,7 +83,9 @@ impl Rescan {
 
     /// Rollback state to height.
     pub fn rollback(&mut self, to: Height) {
-        self.cache.rollback(to)
+        self.cache.rollback(to);
+        // Forget about unprocessed filters of reverted blocks.
+        self.received.retain(|h, _| *h <= to);
     }
 
     /// A filter was received.
-- 
2.43.0


From ba98a3e165dbf36e95fb2c755db8d97f61342e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:05 +0000
Subject: [PATCH 13/36] fix: scan up to and including the last block of a
 rescan

The rescan was reported as completed before the last block was matched, or not
at all if filters past the end were processed in the same round.
---
 p2p/src/fsm/cbfmgr/rescan.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index fd8f8b1..9120a50 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -112,7 +112,10 @@ impl Rescan {
         let mut current = self.current;
         let old = current;
 
-        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {
+        while self.end.map_or(true, |stop| current <= stop) {
+            let Some((filter, block_hash, cached)) = self.received.remove(&current) else {
+                break;
+            };
             let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                 (matched, true)
             } else {
@@ -134,7 +137,7 @@ impl Rescan {
         self.current = current;
 
         if let Some(stop) = self.end {
-            if self.current == stop {
+            if self.active && self.current > stop {
                 self.active = false;
                 events.push(Event::FilterRescanStopped { height: stop });
             }
-- 
2.43.0


From afc971c744256fb029afbfa0da88910ee29d3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:11 +0000
Subject: [PATCH 14/36] fix: ignore blocks that don't match their merkle root

The transactions of a block received from a peer are only authentic if they are
committed to by the block header.
---
 p2p/src/fsm/invmgr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bf76a3b..8beab2f 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -390,12 +390,16 @@ impl<C: Clock> InventoryManager<C> {
     /// Note that the confirmed transactions don't necessarily pertain to this block.
     pub fn received_block<T: BlockReader>(
         &mut self,
-        _from: &PeerId,
+        from: &PeerId,
         block: Block,
         tree: &T,
     ) -> Vec<Txid> {
         let hash = block.block_hash();
 
+        if !block.check_merkle_root() {
+            log::warn!(target: "p2p", "Ignoring invalid block {hash} from {from}");
+            return vec![];
+        }
         if self.remaining.remove(&hash).is_none() {
             // Nb. The remote isn't necessarily sending an unsolicited block here.
             // We often have to ask multiple peers to get a response, so we may
-- 
2.43.0


From c295ca86d98b6cfb13707c4d70955c25158e7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:19 +0000
Subject: [PATCH 15/36] fix: don't process or wait for blocks that were
 reverted

Blocks that were reverted while in the processing queue would be processed as
part of the active chain, and blocks reverted before they were downloaded would
stall the queue.
---
 p2p/src/fsm/invmgr.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 8beab2f..06ec1e6 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -171,9 +171,12 @@ impl<C: Clock> InventoryManager<C> {
                 self.peers.remove(&addr);
             }
             Event::BlockHeadersImported { reverted, .. } => {
-                for (height, _) in reverted {
+                for (height, header) in reverted {
+                    // Don't wait for blocks that are no longer part of the active chain.
+                    self.remaining.remove(&header.block_hash());
                     self.block_reverted(height);
                 }
+                self.process_received();
             }
             Event::MessageReceived { from, message } => match message.as_ref() {
                 NetworkMessage::Block(block) => {
@@ -220,6 +223,7 @@ impl<C: Clock> InventoryManager<C> {
     /// Called when a block is reverted.
     pub fn block_reverted(&mut self, height: Height) {
         self.estimator.rollback(height - 1);
+        self.received.remove(&height);
 
         if let Some(transactions) = self.confirmed.remove(&height) {
             for transaction in transactions {
@@ -415,15 +419,16 @@ impl<C: Clock> InventoryManager<C> {
         // Find the block height, otherwise we've somehow requested a block which
         // isn't part of the active chain. This could happen in the case of a re-org
         // and a delayed block arrival.
-        let height = if let Some((height, _)) = tree.get_block(&hash) {
-            height
-        } else {
-            return vec![];
-        };
-
-        // Add to processing queue. Blocks are processed in-order only.
-        self.received.insert(height, block);
+        if let Some((height, _)) = tree.get_block(&hash) {
+            // Add to processing queue. Blocks are processed in-order only.
+            self.received.insert(height, block);
+        }
+        self.process_received()
+    }
 
+    /// Process the blocks that were received, once there are no more blocks to download.
+    /// Returns the list of confirmed [`Txid`].
+    fn process_received(&mut self) -> Vec<Txid> {
         // If there are still blocks remaining to download, don't process any of the
         // received queue yet.
         if !self.remaining.is_empty() {
-- 
2.43.0


From 65cd7865c49f70025337bb5e6761347da1b49f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:27 +0000
Subject: [PATCH 16/36] fix: don't crash when asked to send the same
 `getheaders` twice

A peer sending the same unconnected header twice would crash debug builds.
---
 p2p/src/fsm/syncmgr.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index da8d6de..bec93db 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -386,8 +386,6 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
         if let Some(peer) = self.peers.get_mut(&addr) {
-            debug_assert!(peer.last_asked.as_ref() != Some(&locators));
-
             peer.last_asked = Some(locators.clone());
 
             let sent_at = self.clock.local_time();
-- 
2.43.0


From 86afe3a8cd0ad12a8faad762edf85639c360c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:24 +0000
Subject: [PATCH 17/36] fix: don't penalize peers for answering a request made
 stale by a reorg

The stop block of an inflight `getcfheaders` request may be reverted before the
response arrives. This isn't the peer's fault.
---
 p2p/src/fsm/cbfmgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 51833a9..eb1eb51 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -640,7 +640,8 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let stop_height = if let Some((height, _)) = tree.get_block(&stop_hash) {
             height
         } else {
-            return Err(Error::InvalidMessage {
+            // The block was reverted since we made the request.
+            return Err(Error::Ignored {
                 from,
                 reason: "unknown `cfheaders` stop hash",
             });
-- 
2.43.0


From 8171774556b4e218a05fd6f8ffbb6c2411f953f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 18/36] fix: ignore redundant `version` messages

A peer that had completed its handshake could send `version` again: the
handshake was restarted, and a second `verack` had the peer reported as
negotiated twice for the same connection.
---
 p2p/src/fsm/peermgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index cd59143..256dd4b 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -424,7 +424,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     ) -> Result<(), DisconnectReason> {
         let now = self.clock.local_time();
 
-        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {
+        // Nb. Only the first `version` message of a connection is considered.
+        if let Some(Peer::Connected { conn, peer: None }) = self.peers.get(addr) {
             let VersionMessage {
                 // Peer's best height.
                 start_height,
-- 
2.43.0


From 1299ed620038a60a28c6b63e931bce54bd95450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 19/36] fix: allow as many inbound peers as configured

The new peer is already part of the count when the limit is checked, so the
last slot could never be used.
---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 256dd4b..5b00f23 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -328,7 +328,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         match link {
             Link::Inbound => {
                 if self.connected().filter(|c| c.link.is_inbound()).count()
-                    >= self.config.max_inbound_peers
+                    > self.config.max_inbound_peers
                 {
                     // TODO: Test this branch.
                     // Don't allow inbound connections beyond the configured limit.
-- 
2.43.0


From b95f1ce8d9669dccd762681947737c629754d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 20/36] fix: don't take a negative start height for a huge one

A `version` message with a negative `start_height` passed the stale peer check
and made the peer's height about 2^64.
---
 p2p/src/fsm/peermgr.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 5b00f23..90989dd 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -446,6 +446,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 ..
             } = msg.clone();
 
+            // Nb. The height is signed on the wire.
+            let start_height = Height::try_from(start_height).unwrap_or(0);
             let target = self.config.target_outbound_peers;
             let preferred = self.config.preferred_services;
             let trusted = self.config.whitelist.contains(&addr.ip(), &user_agent)
@@ -465,10 +467,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             // If the peer is too far behind, there's no use connecting to it, we'll
             // have to wait for it to catch up.
             if conn.link.is_outbound()
-                && height.saturating_sub(start_height as Height) > MAX_STALE_HEIGHT_DIFFERENCE
+                && height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE
                 && !trusted
             {
-                return Err(DisconnectReason::PeerHeight(start_height as Height));
+                return Err(DisconnectReason::PeerHeight(start_height));
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
@@ -521,7 +523,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     conn,
                     peer: Some(PeerInfo {
                         nonce,
-                        height: start_height as Height,
+                        height: start_height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
-- 
2.43.0


From 114890613f55146a8858dfbff0a3fc7d7f83ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 21/36] fix: don't count inbound peers towards the outbound
 target

Enough inbound connections kept the node from making any outbound one.
---
 p2p/src/fsm/peermgr.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 90989dd..75b60cf 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -779,8 +779,13 @@ impl<C: Clock> PeerManager<C> {
         // Peers only with required services, which we'd eventually want to drop in favor of peers
         // that have all services.
         let secondary = self.negotiated(Link::Outbound).count() - primary;
-        // Connected peers that have not yet completed handshake.
-        let connected = self.connected().count() - primary - secondary;
+        // Connected outbound peers that have not yet completed handshake.
+        let connected = self
+            .connected()
+            .filter(|c| c.link.is_outbound())
+            .count()
+            - primary
+            - secondary;
         // Connecting peers.
         let connecting = self.connecting().count();
 
-- 
2.43.0


From 306b4138b9d0cb54327a624c6ee0b1f5ccbd6238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 22/36] fix: detect connections to self

The nonce of an incoming `version` was compared with the nonces received from
our outbound peers, not with the ones sent to them, and was then sent back, so
a connection to ourselves was never noticed.
---
 p2p/src/fsm/peermgr.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 75b60cf..fa5088e 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -113,6 +113,8 @@ pub struct Connection {
     pub link: Link,
     /// Connected since this time.
     pub since: LocalTime,
+    /// The nonce of our `version` message, if we sent the first one.
+    nonce: Option<u64>,
 }
 
 /// Peer state.
@@ -157,8 +159,6 @@ pub struct PeerInfo {
     /// Whether this is a persistent peer.
     pub persistent: bool,
 
-    /// Peer nonce. Used to detect self-connections.
-    nonce: u64,
     /// Peer handshake state.
     state: HandshakeState,
 }
@@ -311,6 +311,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         // inbound. To prevent this, we could look at IPs when receiving inbound connections,
         // to check whether we are already connected to the peer.
 
+        let nonce = self.rng.u64(..);
+
         self.peers.insert(
             addr,
             Peer::Connected {
@@ -319,6 +321,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     local_addr,
                     link,
                     since: local_time,
+                    nonce: link.is_outbound().then_some(nonce),
                 },
                 peer: None,
             },
@@ -338,7 +341,6 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 }
             }
             Link::Outbound => {
-                let nonce = self.rng.u64(..);
                 self.outbox.version(
                     addr,
                     self.version(addr, local_addr, nonce, height, local_time),
@@ -474,8 +476,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
-            for (peer, conn) in self.peers() {
-                if conn.link.is_outbound() && peer.nonce == nonce {
+            for conn in self.connected() {
+                if conn.nonce == Some(nonce) {
                     return Err(DisconnectReason::SelfConnection);
                 }
             }
@@ -499,7 +501,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     self.outbox
                         .version(
                             conn.addr,
-                            self.version(conn.addr, conn.local_addr, nonce, height, now),
+                            self.version(conn.addr, conn.local_addr, self.rng.u64(..), height, now),
                         )
                         .wtxid_relay(conn.addr)
                         .verack(conn.addr)
@@ -522,7 +524,6 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        nonce,
                         height: start_height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
-- 
2.43.0


From f518c031bde962a21da9c85e3e07fd9eac33efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 23/36] fix: report failed dials as failed connections

When dialing failed right away, the attempt ended without any event.
---
 p2p/src/fsm/peermgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index fa5088e..8e98dc0 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -375,8 +375,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             });
         } else if self.is_connecting(addr) {
             // If we haven't yet established a connection, the disconnect reason
-            // should always be a `ConnectionError`.
-            if let network::Disconnect::ConnectionError(error) = reason {
+            // should always be a `DialError` or a `ConnectionError`.
+            if let network::Disconnect::DialError(error)
+            | network::Disconnect::ConnectionError(error) = reason
+            {
                 self.outbox
                     .event(Event::PeerConnectionFailed { addr: *addr, error });
             }
-- 
2.43.0


From 7cabd4f345177cc27b0c7995666225f663f40092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 24/36] fix: don't connect to a peer that is being disconnected

When a disconnected peer was connected to again before its connection was
closed, the end of that connection was never reported, and the peer was
forgotten while connecting.
---
 p2p/src/fsm/peermgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 8e98dc0..b11bea0 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -745,7 +745,9 @@ impl<C: Clock> PeerManager<C> {
         if self.is_connected(addr) || self.is_connecting(addr) {
             return true;
         }
-        if !self.is_disconnected(addr) && !self.is_disconnecting(addr) {
+        // Don't connect until the previous connection is closed, or its end would be
+        // taken for a failure of the new one, and not be reported.
+        if self.is_disconnecting(addr) {
             return false;
         }
         // Don't allow connections to unsupported domains.
-- 
2.43.0


From 6bf5b0dff9ea8008d6154083f0ba7f9840ffc773 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 07:45:32 +0000
Subject: [PATCH 25/36] fix: don't repeat a getheaders request in reaction to
 its own answer

When a peer on a branch without more work than ours announces headers,
importing them leaves our tip unchanged and we ask the peer for the headers
leading up to the first one. Its answer leaves the tip unchanged again, and so
the same request was sent again, in an endless exchange.
---
 p2p/src/fsm/syncmgr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index bec93db..a9bf5a1 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -320,8 +320,13 @@ impl<C: Clock> SyncManager<C> {
                 // the list we received.
                 let locators = (tree.locator_hashes(tree.height()), root);
                 let timeout = self.config.request_timeout;
+                let peer = self.peers.get(from);
 
-                self.request(*from, locators, timeout, OnTimeout::Ignore);
+                // Unless these headers are the peer's answer to that very request, in which
+                // case asking again would only yield the same answer.
+                if peer.and_then(|p| p.last_asked.as_ref()) != Some(&locators) {
+                    self.request(*from, locators, timeout, OnTimeout::Ignore);
+                }
             }
             Ok(ImportResult::TipChanged { hash, height, .. }) => {
                 // Update peer height.
-- 
2.43.0


From 1caa32353d4dc2ed233d46038f8d79e185cdc011 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 08:53:21 +0000
Subject: [PATCH 26/36] fix: keep track of connections, not just of their IP
 addresses

With two peers of the same IP address connected, the disconnection of one made
the address manager forget the other: its address was offered for connecting
(failing an assertion of the peer manager), and it was asked for addresses even
after it disconnected.
---
 p2p/src/fsm/addrmgr.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7d24d4a..1147616 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -61,12 +61,17 @@ impl<P: Store, C> AddressManager<P, C> {
             if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                 continue;
             }
-            if !self.connected.contains(addr) {
+            if !self.is_connected(addr) {
                 return false;
             }
         }
         true
     }
+
+    /// Check whether we have a connection with the given IP address.
+    fn is_connected(&self, ip: &net::IpAddr) -> bool {
+        self.connected.iter().any(|addr| addr.ip() == *ip)
+    }
 }
 
 /// Address manager configuration.
@@ -94,7 +99,7 @@ pub struct AddressManager<P, C> {
     peers: P,
     bans: HashSet<net::IpAddr>,
     address_ranges: HashMap<u8, HashSet<net::IpAddr>>,
-    connected: HashSet<net::IpAddr>,
+    connected: HashSet<net::SocketAddr>,
     sources: HashSet<net::SocketAddr>,
     local_addrs: HashSet<net::SocketAddr>,
     /// The last time we asked our peers for new addresses.
@@ -233,14 +238,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         if !self::is_routable(&addr.ip()) || self::is_local(&addr.ip()) {
             return;
         }
-        self.connected.insert(addr.ip());
+        self.connected.insert(*addr);
     }
 
     /// Called when a peer has handshaked.
     fn peer_negotiated(&mut self, addr: &net::SocketAddr, services: ServiceFlags, link: Link) {
         let time = self.clock.local_time();
 
-        if !self.connected.contains(&addr.ip()) {
+        if !self.connected.contains(addr) {
             return;
         }
         if link.is_outbound() {
@@ -268,7 +273,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         addr: &net::SocketAddr,
         reason: Disconnect<super::DisconnectReason>,
     ) {
-        if self.connected.remove(&addr.ip()) {
+        if self.connected.remove(addr) {
             // Disconnected peers cannot be used as a source for new addresses.
             self.sources.remove(addr);
 
@@ -502,7 +507,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
                     continue;
                 }
                 // If we're already connected to this address, skip it.
-                if self.connected.contains(ip) {
+                if self.connected.iter().any(|addr| addr.ip() == *ip) {
                     continue;
                 }
                 // If the provided filter doesn't pass, keep looking.
@@ -551,8 +556,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
     /// Remove an address from the address book and prevent it from being sampled again.
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
-        debug_assert!(!self.connected.contains(addr));
-
         let key = self::addr_key(addr);
 
         if let Some(range) = self.address_ranges.get_mut(&key) {
-- 
2.43.0


From 3ec05b1215f7c6c59714cee9060d5f2cd3222679 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 08:53:21 +0000
Subject: [PATCH 27/36] fix: ban peers in whose address range we know no
 address

They were not recorded as banned, hence could be learned from other peers and
connected to.
---
 p2p/src/fsm/addrmgr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 1147616..3ec7c15 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -558,12 +558,12 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
         let key = self::addr_key(addr);
 
+        // TODO: Persist bans.
+        self.bans.insert(*addr);
+
         if let Some(range) = self.address_ranges.get_mut(&key) {
             range.remove(addr);
-
-            // TODO: Persist bans.
             self.peers.remove(addr);
-            self.bans.insert(*addr);
 
             if range.is_empty() {
                 self.address_ranges.remove(&key);
-- 
2.43.0


From 1b266cb320d8fde2a48dd1a3cb97cf3b9b73f8de Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 08:53:21 +0000
Subject: [PATCH 28/36] fix: don't drop the addresses imported by the user

They have no "last active" time, and were all ignored for lack of it.
---
 p2p/src/fsm/addrmgr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 3ec7c15..10be644 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -373,8 +373,8 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             if addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM) {
                 continue;
             }
-            // Ignore addresses that don't have a "last active" time.
-            if last_active == 0 {
+            // Ignore addresses that don't have a "last active" time, unless they were imported.
+            if last_active == 0 && source != Source::Imported {
                 continue;
             }
             // Ignore addresses that are too far into the future.
@@ -408,7 +408,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             }
 
             let last_active = if last_active == 0 {
-                // TODO: Cannot be 'None' due to above condition.
                 None
             } else {
                 Some(LocalTime::from_block_time(last_active))
-- 
2.43.0


From ebcce4ee53d8c8533310f89e10cad6bee653a96d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 09:40:53 +0000
Subject: [PATCH 29/36] fix: don't crash when sampling the address of a
 connected peer

---
 p2p/src/fsm/peermgr.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index b11bea0..69c80cc 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -853,11 +853,9 @@ impl<C: Clock> PeerManager<C> {
                 })
             {
                 if let Ok(sockaddr) = addr.socket_addr() {
-                    // TODO: Remove this assertion once address manager no longer cares about
-                    // connections.
-                    debug_assert!(!self.is_connected(&sockaddr));
-
-                    if self.connect(&sockaddr) {
+                    // Nb. The address manager may not have learned yet that we are connected to this
+                    // address.
+                    if !self.is_connected(&sockaddr) && self.connect(&sockaddr) {
                         connecting.insert(sockaddr);
                         self.outbox.event(Event::PeerConnecting {
                             addr: sockaddr,
-- 
2.43.0


From 2f82f36c7e3c5b78dd4eb059bcbee57059f07ed5 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 10:31:03 +0000
Subject: [PATCH 30/36] fix: refuse a second connection from the address of a
 peer we have

---
 net/poll/src/reactor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 436f606..0207f9f 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -225,6 +225,11 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                                     let addr = Id::from(socket_addr);
                                     trace!("{}: Accepting peer connection", socket_addr);
 
+                                    // A peer we are connected to may also connect to us from
+                                    // the same address. Keep the connection we have.
+                                    if self.peers.contains_key(&addr) {
+                                        continue;
+                                    }
                                     conn.set_nonblocking(true)?;
 
                                     let local_addr = conn.local_addr()?;
-- 
2.43.0


From 3657d406194d8c57e7b9f66c56161ef597caac39 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 10:31:03 +0000
Subject: [PATCH 31/36] fix: don't report a failed dial as a connection

---
 net/poll/src/reactor.rs | 8 ++++++++
 net/poll/src/socket.rs  | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 0207f9f..ce55d0e 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -425,7 +425,15 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         //
         // Since we perform a non-blocking connect, we're only really connected once the socket
         // is writable.
+        // It is also writable if the connection could not be established.
         if self.connecting.remove(&addr) {
+            if let Some(err) = socket.take_error()? {
+                error!(target: "net", "{}: Dial error: {}", socket_addr, err.to_string());
+
+                self.unregister_peer(addr, Disconnect::DialError(Arc::new(err)), service);
+
+                return Ok(());
+            }
             let local_addr = socket.local_address()?;
 
             service.connected(addr.clone(), &local_addr, socket.link);
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index 2347fa5..f80eb24 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -23,6 +23,11 @@ impl Socket<net::TcpStream> {
         self.raw.local_addr()
     }
 
+    /// Take the error pending on the socket, if any.
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        self.raw.take_error()
+    }
+
     /// Disconnect socket.
     pub fn disconnect(&self) -> io::Result<()> {
         self.raw.shutdown(net::Shutdown::Both)
-- 
2.43.0


From 350ee56a6f3cefed9f091ef0da4cc42033da9410 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 10:31:03 +0000
Subject: [PATCH 32/36] fix: fire timers also while peers keep sending

---
 net/poll/src/reactor.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index ce55d0e..445bb7f 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -263,18 +263,18 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         }
                     }
                 }
-                Err(err) if err.kind() == io::ErrorKind::TimedOut => {
-                    // Nb. The way this is currently used basically ignores which keys have
-                    // timed out. So as long as *something* timed out, we wake the service.
-                    self.timeouts.wake(local_time, &mut timeouts);
-
-                    if !timeouts.is_empty() {
-                        timeouts.clear();
-                        service.timer_expired();
-                    }
-                }
+                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
                 Err(err) => return Err(err.into()),
             }
+
+            // Nb. The way this is currently used basically ignores which keys have
+            // timed out. So as long as *something* timed out, we wake the service.
+            self.timeouts.wake(local_time, &mut timeouts);
+
+            if !timeouts.is_empty() {
+                timeouts.clear();
+                service.timer_expired();
+            }
             self.process(&mut service, &mut publisher, local_time);
         }
     }
-- 
2.43.0


From af2489908dd1641e0acac07a7e63acb25a8e7352 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 10:31:03 +0000
Subject: [PATCH 33/36] fix: don't stop the node when a signal interrupts
 polling

---
 net/poll/src/reactor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 445bb7f..e7e7151 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -264,6 +264,10 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                     }
                 }
                 Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {
+                    // A signal was handled, nothing is known about the sources.
+                    events.clear();
+                }
                 Err(err) => return Err(err.into()),
             }
 
-- 
2.43.0


From 736030a2a146e38b0083accca2d11fd146b2dd09 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 11:10:26 +0000
Subject: [PATCH 34/36] fix: notice the height waited for also when several
 headers are imported at once

---
 client/src/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 85c301b..fff2982 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -699,7 +699,11 @@ impl<W: Waker> handle::Handle for Handle<W> {
             None => event::wait(
                 &events,
                 |e| match e {
-                    Event::BlockHeadersImported { height, hash, .. } if height == h => Some(hash),
+                    // Nb. Many headers may be imported at once.
+                    Event::BlockHeadersImported { connected, .. } => connected
+                        .iter()
+                        .find(|(height, _)| *height == h)
+                        .map(|(_, header)| header.block_hash()),
                     _ => None,
                 },
                 self.timeout,
-- 
2.43.0


From 63c26081fa88812296d6bb60a73c7a88ffac9721 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 11:10:26 +0000
Subject: [PATCH 35/36] fix: wait for at least the given number of peers, not
 counting lost ones

---
 client/src/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index fff2982..7f34d69 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -653,7 +653,7 @@ impl<W: Waker> handle::Handle for Handle<W> {
         let required_services = required_services.into();
 
         let negotiated = self.get_peers(required_services)?;
-        if negotiated.len() == count {
+        if negotiated.len() >= count {
             return Ok(negotiated
                 .into_iter()
                 .map(|p| (p.addr, p.height, p.services))
@@ -678,12 +678,16 @@ impl<W: Waker> handle::Handle for Handle<W> {
                         negotiated.insert(addr, (height, services));
                     }
 
-                    if negotiated.len() == count {
+                    if negotiated.len() >= count {
                         Some(negotiated.iter().map(|(a, (h, s))| (*a, *h, *s)).collect())
                     } else {
                         None
                     }
                 }
+                fsm::Event::PeerDisconnected { addr, .. } => {
+                    negotiated.remove(&addr);
+                    None
+                }
                 _ => None,
             },
             self.timeout,
-- 
2.43.0


From f716f6b5f4a0d35b6e4c1c960deb053b86437451 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 11:36:15 +0000
Subject: [PATCH 36/36] fix: report an error, don't panic, when a stored peer
 address doesn't parse

---
 common/src/p2p/peer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/p2p/peer.rs b/common/src/p2p/peer.rs
index 37bf3ef..f2e0d0d 100644
--- a/common/src/p2p/peer.rs
+++ b/common/src/p2p/peer.rs
@@ -288,7 +288,7 @@ impl KnownAddress {
         };
 
         let addr = match obj.get("address") {
-            Some(Value::String(addr)) => addr.parse().unwrap(),
+            Some(Value::String(addr)) => addr.parse().map_err(|_| serde::Error)?,
             _ => return Err(serde::Error),
         };
         let services = match obj.get("services") {
-- 
2.43.0

