From 9f0a91bcf9b76f20390ac715af3997c48fd1719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 01/27] fix: casts by parent URL and reactions by target URL
 skip longer URLs that share the prefix

---
 src/storage/store/account/cast_store.rs     |  9 ++++++++-
 src/storage/store/account/reaction_store.rs | 14 ++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/storage/store/account/cast_store.rs b/src/storage/store/account/cast_store.rs
index b0e6608..03f55ad 100644
--- a/src/storage/store/account/cast_store.rs
+++ b/src/storage/store/account/cast_store.rs
@@ -2,7 +2,8 @@ use super::{
     get_many_messages, make_cast_id_key, make_fid_key, make_message_primary_key, make_user_key,
     read_fid_key, read_ts_hash,
     store::{Store, StoreDef},
-    MessagesPage, StoreEventHandler, HASH_LENGTH, PAGE_SIZE_MAX, TRUE_VALUE, TS_HASH_LENGTH,
+    MessagesPage, StoreEventHandler, FID_BYTES, HASH_LENGTH, PAGE_SIZE_MAX, TRUE_VALUE,
+    TS_HASH_LENGTH,
 };
 use crate::storage::constants::{RootPrefix, UserPostfix};
 use crate::storage::db::PageOptions;
@@ -463,6 +464,12 @@ impl CastStore {
                 let ts_hash_offset = prefix.len();
                 let fid_offset = ts_hash_offset + TS_HASH_LENGTH;
 
+                // URLs have variable length: a longer URL that starts with this one shares
+                // its prefix, but is a different parent.
+                if key.len() != fid_offset + FID_BYTES {
+                    return Ok(false);
+                }
+
                 let fid = read_fid_key(key, fid_offset);
                 let ts_hash = read_ts_hash(key, ts_hash_offset);
                 let message_primary_key =
diff --git a/src/storage/store/account/reaction_store.rs b/src/storage/store/account/reaction_store.rs
index c8a5e90..1206b1f 100644
--- a/src/storage/store/account/reaction_store.rs
+++ b/src/storage/store/account/reaction_store.rs
@@ -2,7 +2,7 @@ use super::{
     get_many_messages, make_cast_id_key, make_fid_key, make_message_primary_key, make_user_key,
     read_fid_key, read_ts_hash, require_page_token_in_prefix,
     store::{FollowIndexGate, Store, StoreDef},
-    MessagesPage, StoreEventHandler, PAGE_SIZE_MAX, TS_HASH_LENGTH,
+    MessagesPage, StoreEventHandler, FID_BYTES, PAGE_SIZE_MAX, TS_HASH_LENGTH,
 };
 use crate::core::channel_uri::{channel_id_for_follow_target, ChannelRegistrar};
 use crate::storage::store::account::ChannelPage;
@@ -747,12 +747,18 @@ impl ReactionStore {
             Some(increment_vec_u8(&start_prefix)),
             page_options,
             |key, value| {
+                let ts_hash_offset = start_prefix.len();
+                let fid_offset = ts_hash_offset + TS_HASH_LENGTH;
+
+                // URLs have variable length: a longer URL that starts with this one shares
+                // its prefix, but is a different target.
+                if key.len() != fid_offset + FID_BYTES {
+                    return Ok(false);
+                }
+
                 if reaction_type == ReactionType::None as i32
                     || (value.len() == 1 && value[0] == reaction_type as u8)
                 {
-                    let ts_hash_offset = start_prefix.len();
-                    let fid_offset = ts_hash_offset + TS_HASH_LENGTH;
-
                     let fid = read_fid_key(key, fid_offset);
                     let ts_hash = read_ts_hash(key, ts_hash_offset);
                     let message_primary_key =
-- 
2.43.0


From fcd95b270e417ba12a0d46e06b5f65810696df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 02/27] fix: the HTTP API names the storage-lends limit instead
 of reporting its store type as None

---
 src/network/http_server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/http_server.rs b/src/network/http_server.rs
index 46bc906..d76da2c 100644
--- a/src/network/http_server.rs
+++ b/src/network/http_server.rs
@@ -928,6 +928,7 @@ pub enum StoreType {
     UserData = 4,
     Verifications = 5,
     UsernameProofs = 6,
+    StorageLends = 7,
 }
 
 #[derive(Debug, Clone, Deserialize, Serialize)]
@@ -4302,6 +4303,7 @@ where
                         4 => StoreType::UserData,
                         5 => StoreType::Verifications,
                         6 => StoreType::UsernameProofs,
+                        7 => StoreType::StorageLends,
                         _ => StoreType::None,
                     },
                     name: l.name.clone(),
-- 
2.43.0


From 4971115e4a46bac10d54668f0f2378e7a385b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 03/27] fix: a configured mesh node that matches two known
 nodes replaces both

---
 src/network/mesh/nodes.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/network/mesh/nodes.rs b/src/network/mesh/nodes.rs
index d2d0bd1..9dee5a8 100644
--- a/src/network/mesh/nodes.rs
+++ b/src/network/mesh/nodes.rs
@@ -400,27 +400,20 @@ impl NodeRegistry {
     /// Drop any existing entry the incoming config node matches, so a whole
     /// entry (both index keys) is replaced rather than partially merged.
     ///
-    /// KNOWN EDGE CASE (uncovered): only the *first* match is removed — by
-    /// pubkey, else by peer id. A config entry whose pubkey matches builtin A but
-    /// whose peer id matches a *different* builtin B removes A, then the later
-    /// `insert` overwrites B's peer-id index slot while B's pubkey index entry
-    /// survives — leaving B half-updated (reachable by pubkey but not peer id).
-    /// This requires a pathological config (an entry carrying another node's peer
-    /// id) and is not currently guarded. Tracked in
-    /// https://github.com/farcasterxyz/snapchain/issues/978.
+    /// The entry may match two different entries — one by pubkey, another by
+    /// peer id. Both are dropped, so that neither stays half-indexed.
     fn remove_existing(&mut self, node: &KnownNode) {
-        let existing = node
+        let by_pubkey = node
             .consensus_public_key
             .as_ref()
             .filter(|k| !k.is_empty())
-            .and_then(|k| self.by_pubkey.get(&k.to_ascii_lowercase()).cloned())
-            .or_else(|| {
-                node.peer_id
-                    .as_ref()
-                    .filter(|p| !p.is_empty())
-                    .and_then(|p| self.by_peer_id.get(p).cloned())
-            });
-        if let Some(existing) = existing {
+            .and_then(|k| self.by_pubkey.get(&k.to_ascii_lowercase()).cloned());
+        let by_peer_id = node
+            .peer_id
+            .as_ref()
+            .filter(|p| !p.is_empty())
+            .and_then(|p| self.by_peer_id.get(p).cloned());
+        for existing in by_pubkey.into_iter().chain(by_peer_id) {
             if let Some(pubkey) = &existing.consensus_public_key {
                 self.by_pubkey.remove(&pubkey.to_ascii_lowercase());
             }
-- 
2.43.0


From c5e3279f751c3aebca0150059eace3272fcd866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 04/27] fix: refuse malformed user messages at the mempool
 instead of panicking

A gossiped user message without data or with a short hash reached the key
construction unchecked and killed the mempool task.
---
 src/mempool/mempool.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index b5f11a4..0182aa4 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -25,6 +25,7 @@ use crate::{
         store::{
             account::{
                 get_message_by_key, make_message_primary_key, make_ts_hash, type_to_set_postfix,
+                HASH_LENGTH,
             },
             mempool_poller::MempoolMessage,
             stores::Stores,
@@ -404,6 +405,23 @@ pub struct MempoolMessagesRequest {
     pub max_messages_per_block: u32,
 }
 
+/// Messages reach the mempool from gossip before anything else looked at them. User messages are
+/// keyed by timestamp and hash, so one without data or with a hash of the wrong length can neither
+/// be queued nor looked up in the stores.
+fn check_well_formed(message: &MempoolMessage) -> Result<(), HubError> {
+    if let MempoolMessage::UserMessage(user_message) = message {
+        if user_message.data.is_none() {
+            return Err(HubError::validation_failure("message data is missing"));
+        }
+        if user_message.hash.len() != HASH_LENGTH {
+            return Err(HubError::validation_failure(
+                "message hash has the wrong length",
+            ));
+        }
+    }
+    Ok(())
+}
+
 pub struct ReadNodeMempool {
     shard_stores: HashMap<u32, Stores>,
     block_stores: BlockStores,
@@ -568,11 +586,14 @@ impl ReadNodeMempool {
                 MempoolRequest::AddMessage(message, source, reply_to) => {
                     self.statsd_client
                         .count("read_mempool.messages_received", 1, vec![]);
-                    let results: Vec<Result<(), HubError>> = self
-                        .route_mempool_message(&message)
-                        .iter()
-                        .map(|shard| self.message_is_valid(*shard, &message))
-                        .collect();
+                    let results: Vec<Result<(), HubError>> = match check_well_formed(&message) {
+                        Ok(()) => self
+                            .route_mempool_message(&message)
+                            .iter()
+                            .map(|shard| self.message_is_valid(*shard, &message))
+                            .collect(),
+                        Err(err) => vec![Err(err)],
+                    };
                     // If the message is valid on any shard then keep it. Else all shards return errors and just take the first error.
                     let result = if results.iter().any(|res| res.is_ok()) {
                         Ok(())
@@ -924,6 +945,8 @@ impl Mempool {
         message: MempoolMessage,
         source: MempoolSource,
     ) -> Result<(), HubError> {
+        check_well_formed(&message)?;
+
         let shard_ids = self.read_node_mempool.route_mempool_message(&message);
 
         let mut errors = vec![];
-- 
2.43.0


From 6ec3dd54dfd5bbd069ca500b74830eab7adbd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 05/27] fix: keep the block events of one block in sequence
 order in the mempool

Their identity compared as text put 10 before 9, and a shard rejects a gap.
---
 src/mempool/mempool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index 0182aa4..061e409 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -334,7 +334,9 @@ impl ValidatorMessageMempoolExt for proto::ValidatorMessage {
             MempoolKey::new(
                 MempoolMessageKind::ValidatorMessage,
                 block_event.block_timestamp(),
-                block_event.seqnum().to_string(),
+                // Identities compare as text. All the events of a block share its timestamp, so
+                // pad the seqnum to keep them in sequence order (a shard rejects a gap).
+                format!("{:020}", block_event.seqnum()),
             )
         } else {
             MempoolKey::new(
-- 
2.43.0


From 4e1b65b9b06cd3e3c205ea7ec88fcaed699ffd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 06/27] fix: lent units beyond what is still rented leave no
 units, not a wrapped count

---
 src/storage/store/account/onchain_event_store.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage/store/account/onchain_event_store.rs b/src/storage/store/account/onchain_event_store.rs
index e1966f3..045a796 100644
--- a/src/storage/store/account/onchain_event_store.rs
+++ b/src/storage/store/account/onchain_event_store.rs
@@ -1048,9 +1048,11 @@ impl StorageSlot {
 
     pub fn sub(&mut self, other: &StorageSlot) {
         if other.is_active() {
-            self.units_legacy -= other.units_legacy;
-            self.units_2024 -= other.units_2024;
-            self.units_2025 -= other.units_2025;
+            // Lent units don't expire with the rent they came from, so more may be lent out than
+            // the lender still holds.
+            self.units_legacy = self.units_legacy.saturating_sub(other.units_legacy);
+            self.units_2024 = self.units_2024.saturating_sub(other.units_2024);
+            self.units_2025 = self.units_2025.saturating_sub(other.units_2025);
         }
     }
 }
-- 
2.43.0


From bcdad92df3c2b4269ea8d265b9bad27b7321f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 07/27] fix: list snapshot chunks in order when uploading

The order of read_dir was recorded as the order to concatenate them in.
---
 src/storage/db/snapshot.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/db/snapshot.rs b/src/storage/db/snapshot.rs
index d801545..1436104 100644
--- a/src/storage/db/snapshot.rs
+++ b/src/storage/db/snapshot.rs
@@ -549,10 +549,13 @@ pub async fn upload_to_s3(
         start_date,
         start_timetamp / 1000
     );
-    let files = std::fs::read_dir(chunked_dir_path)?;
+    // Chunks are concatenated in the order they are listed in the metadata when the snapshot is
+    // downloaded, and [read_dir] doesn't return them in any particular order. Chunk numbers are
+    // padded to 4 digits, shorter names come first if there are more chunks than that.
+    let mut files = std::fs::read_dir(chunked_dir_path)?.collect::<io::Result<Vec<_>>>()?;
+    files.sort_by_key(|entry| (entry.file_name().len(), entry.file_name()));
     let mut file_names: Vec<String> = vec![];
     for entry in files {
-        let entry = entry?;
         let file_name = entry
             .file_name()
             .to_str()
-- 
2.43.0


From 2c9c8596ae20f04ee612ffdb75d0de88e194a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 08/27] fix: clearing old snapshots of shard 1 no longer
 matches shards 10, 11, ...

---
 src/storage/db/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/db/snapshot.rs b/src/storage/db/snapshot.rs
index 1436104..ad6bdf4 100644
--- a/src/storage/db/snapshot.rs
+++ b/src/storage/db/snapshot.rs
@@ -200,7 +200,9 @@ pub async fn clear_old_snapshots(
 ) -> Result<(), SnapshotError> {
     let s3_client = create_s3_client(&snapshot_config).await;
     let snapshot_dir = snapshot_directory(network, shard_id);
-    let objects = get_objects_under_key(&s3_client, &snapshot_config, snapshot_dir.clone()).await?;
+    // The trailing slash keeps shard 1 from matching the snapshots of shards 10, 11, ...
+    let objects =
+        get_objects_under_key(&s3_client, &snapshot_config, format!("{}/", snapshot_dir)).await?;
     let metadata = download_metadata(network, shard_id, snapshot_config).await?;
     let old_objects = objects
         .into_iter()
-- 
2.43.0


From a0e7b8d37e76342df13567d3fb43ed69bd34dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 09/27] hook: expose the snapshot chunk writer under
 cfg(snapspec)

---
 src/storage/db/mod.rs                |  3 +++
 src/storage/db/multi_chunk_writer.rs | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/storage/db/mod.rs b/src/storage/db/mod.rs
index a8afe74..81deea2 100644
--- a/src/storage/db/mod.rs
+++ b/src/storage/db/mod.rs
@@ -5,3 +5,6 @@ mod rocksdb;
 
 pub mod backup;
 pub mod snapshot;
+
+#[cfg(snapspec)]
+pub use self::multi_chunk_writer::snapspec_write_pieces;
diff --git a/src/storage/db/multi_chunk_writer.rs b/src/storage/db/multi_chunk_writer.rs
index 492d82b..8fd992b 100644
--- a/src/storage/db/multi_chunk_writer.rs
+++ b/src/storage/db/multi_chunk_writer.rs
@@ -106,6 +106,26 @@ impl Write for MultiChunkWriter {
     }
 }
 
+/// Verification hook: writes the pieces one after another and returns how much of each was taken.
+#[cfg(snapspec)]
+pub fn snapspec_write_pieces(
+    base_path: PathBuf,
+    max_size: usize,
+    pieces: &[Vec<u8>],
+    flush_each: bool,
+) -> Result<Vec<usize>> {
+    let mut writer = MultiChunkWriter::new(base_path, max_size);
+    let mut taken = vec![];
+    for piece in pieces {
+        taken.push(writer.write(piece)?);
+        if flush_each {
+            writer.flush()?;
+        }
+    }
+    writer.finish()?;
+    Ok(taken)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 59054dc202ab4d63dd720bfc06d14deabe5bbfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 10/27] fix: base registry polling stops at the configured stop
 block instead of asking past it

---
 src/connectors/onchain_events/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/connectors/onchain_events/mod.rs b/src/connectors/onchain_events/mod.rs
index f86988f..4c6f76b 100644
--- a/src/connectors/onchain_events/mod.rs
+++ b/src/connectors/onchain_events/mod.rs
@@ -1326,15 +1326,16 @@ impl Subscriber {
         // Get the current block number
         let current_block = self.latest_block_on_chain().await?;
 
-        // If there are new blocks to process
-        while *from_block <= current_block {
-            let mut to_block = match self.stop_block_number {
-                Some(stop_block) => stop_block.min(current_block),
-                None => current_block,
-            };
+        // Never read past the configured stop block
+        let last_block = match self.stop_block_number {
+            Some(stop_block) => stop_block.min(current_block),
+            None => current_block,
+        };
 
+        // If there are new blocks to process
+        while *from_block <= last_block {
             // Paginate through blocks in batches
-            to_block = to_block.min(*from_block + BASE_BLOCK_PAGE_SIZE);
+            let to_block = last_block.min(*from_block + BASE_BLOCK_PAGE_SIZE);
 
             // Create filter for this contract's events
             let filter = Filter::new()
-- 
2.43.0


From cd5781e5848d0bd9d38e830b5df33e5554b4b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 11/27] fix: delete the row of a trie child that a removal
 folds into its parent

---
 src/storage/trie/trie_node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/trie_node.rs b/src/storage/trie/trie_node.rs
index 6f05f8e..29c7c2e 100644
--- a/src/storage/trie/trie_node.rs
+++ b/src/storage/trie/trie_node.rs
@@ -505,7 +505,8 @@ impl TrieNode {
                     self.children.remove(&char);
 
                     // Delete child
-                    let child_prefix = Self::make_primary_key(&prefix, Some(char));
+                    let mut child_prefix = prefix.clone();
+                    child_prefix.push(char);
                     self.delete_to_txn(txn, &child_prefix);
                 }
             }
-- 
2.43.0


From 8338471b7010224c482ac4413c24317ff7216f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 12/27] fix: keep the row of an emptied trie root so the trie
 can be reloaded

---
 src/storage/trie/trie_node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/trie_node.rs b/src/storage/trie/trie_node.rs
index 29c7c2e..e309e45 100644
--- a/src/storage/trie/trie_node.rs
+++ b/src/storage/trie/trie_node.rs
@@ -484,7 +484,8 @@ impl TrieNode {
         if successes > 0 {
             self.items -= successes;
 
-            if self.items == 0 {
+            // The root is kept even when it is empty, otherwise the trie can't be reloaded
+            if self.items == 0 && current_index > 0 {
                 // Delete this node
                 self.delete_to_txn(txn, &prefix);
                 self.update_hash(child_hashes, &prefix)?;
-- 
2.43.0


From 02f7e511864537c6242cdfc76d8fdec2fe241201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 13/27] fix: bound the allocation a trie page token from a peer
 can ask for

---
 src/storage/trie/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/util.rs b/src/storage/trie/util.rs
index 3a4c207..2e3bcef 100644
--- a/src/storage/trie/util.rs
+++ b/src/storage/trie/util.rs
@@ -62,7 +62,8 @@ pub fn decode_trie_page_token(encoded: &str) -> Result<Option<Vec<Vec<u8>>>, Tri
     let mut offset = 0usize;
     let count = u32::from_be_bytes(bytes[offset..offset + 4].try_into().unwrap()) as usize;
     offset += 4;
-    let mut out: Vec<Vec<u8>> = Vec::with_capacity(count);
+    // The count comes from the peer, and every segment takes at least 4 bytes
+    let mut out: Vec<Vec<u8>> = Vec::with_capacity(count.min(bytes.len() / 4));
     for _ in 0..count {
         if offset + 4 > bytes.len() {
             return Err(TrieError::TokenDecodeError(
-- 
2.43.0


From a42665a57bbf9151365a96408bcfb54d43e1aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 14/27] fix: use the latest validator set that covers the
 shard, never one of another shard

---
 src/consensus/validator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/consensus/validator.rs b/src/consensus/validator.rs
index 15c38de..1bc9c70 100644
--- a/src/consensus/validator.rs
+++ b/src/consensus/validator.rs
@@ -31,16 +31,17 @@ impl StoredValidatorSets {
     }
 
     pub fn get_validator_set(&self, height: u64) -> SnapchainValidatorSet {
-        let mut result = &self.sets[0];
+        // The first set may be for other shards only, so it's just the fallback
+        let mut result: Option<&StoredValidatorSet> = None;
         for config in &self.sets {
             if config.shard_ids.contains(&self.shard_id)
                 && config.effective_at <= height
-                && config.effective_at > result.effective_at
+                && result.map_or(true, |current| config.effective_at > current.effective_at)
             {
-                result = config;
+                result = Some(config);
             }
         }
-        result.validators.clone()
+        result.unwrap_or(&self.sets[0]).validators.clone()
     }
 }
 
-- 
2.43.0


From 90acb04d7b51fd1eb7784785bbf0607736eaebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 15/27] fix: a block proposer judges a proposal that is not a
 block invalid instead of panicking

---
 src/consensus/proposer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/consensus/proposer.rs b/src/consensus/proposer.rs
index 3f3df9a..e26ce89 100644
--- a/src/consensus/proposer.rs
+++ b/src/consensus/proposer.rs
@@ -646,8 +646,10 @@ impl Proposer for BlockProposer {
 
             self.proposed_blocks
                 .add_proposed_value(full_proposal.clone());
+            return Validity::Valid; // TODO: Validate proposer signature?
         }
-        Validity::Valid // TODO: Validate proposer signature?
+        error!("Invalid proposed value: {:?}", full_proposal.proposed_value);
+        Validity::Invalid
     }
 
     fn get_proposed_value(&self, shard_hash: &ShardHash) -> Option<FullProposal> {
-- 
2.43.0


From 7e6db93228f6e02870ee827add9bbc9c6d2bf0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 16/27] fix: followers refuse decided values whose certificate
 is for another value or height

---
 src/consensus/read_validator.rs | 56 ++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/consensus/read_validator.rs b/src/consensus/read_validator.rs
index d9aa5c7..c4edfb4 100644
--- a/src/consensus/read_validator.rs
+++ b/src/consensus/read_validator.rs
@@ -94,27 +94,50 @@ impl ReadValidator {
         num_blocks_processed
     }
 
-    fn get_decided_value_height(value: &proto::DecidedValue) -> Height {
-        match value.value.as_ref().unwrap() {
-            proto::decided_value::Value::Shard(shard_chunk) => {
-                shard_chunk.header.as_ref().unwrap().height.unwrap()
-            }
+    // None if the value is malformed
+    fn get_decided_value_height(value: &proto::DecidedValue) -> Option<Height> {
+        match value.value.as_ref()? {
+            proto::decided_value::Value::Shard(shard_chunk) => shard_chunk.header.as_ref()?.height,
 
-            proto::decided_value::Value::Block(block) => {
-                block.header.as_ref().unwrap().height.unwrap()
-            }
+            proto::decided_value::Value::Block(block) => block.header.as_ref()?.height,
         }
     }
 
-    fn verify_signatures(&self, value: &proto::DecidedValue) -> bool {
-        let commits = match value.value.as_ref().unwrap() {
-            proto::decided_value::Value::Shard(shard_chunk) => {
-                shard_chunk.commits.as_ref().unwrap()
+    fn verify_signatures(&self, value: &proto::DecidedValue, height: Height) -> bool {
+        let (commits, hash) = match value.value.as_ref() {
+            Some(proto::decided_value::Value::Shard(shard_chunk)) => {
+                (shard_chunk.commits.as_ref(), &shard_chunk.hash)
             }
 
-            proto::decided_value::Value::Block(block) => block.commits.as_ref().unwrap(),
+            Some(proto::decided_value::Value::Block(block)) => {
+                (block.commits.as_ref(), &block.hash)
+            }
+
+            None => return false,
+        };
+
+        let Some(commits) = commits else {
+            return false;
         };
 
+        // The certificate must be for this value at this height
+        if commits.height != Some(height)
+            || !commits
+                .value
+                .as_ref()
+                .is_some_and(|value| value.hash == *hash)
+        {
+            return false;
+        }
+
+        if commits
+            .signatures
+            .iter()
+            .any(|commit| commit.signer.len() != 32)
+        {
+            return false;
+        }
+
         verify_signatures(&commits, &self.validator_sets)
     }
 
@@ -150,8 +173,11 @@ impl ReadValidator {
     }
 
     pub async fn process_decided_value(&mut self, value: DecidedValue) -> u64 {
-        let height = Self::get_decided_value_height(&value);
-        let verified = self.verify_signatures(&value);
+        let Some(height) = Self::get_decided_value_height(&value) else {
+            error!(last_height = %self.last_height, "Dropping malformed decided block");
+            return 0;
+        };
+        let verified = self.verify_signatures(&value, height);
         if !verified {
             error!(%height, last_height = %self.last_height, "Dropping decided block because its signatures are invalid");
             return 0;
-- 
2.43.0


From 52bac41e5596a8fdf0918181fa1d2fc41653c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 17/27] fix: prune and revoke in a fixed order so that nodes
 number events alike

---
 src/storage/store/engine.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 31845aa..77ae9ae 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -36,7 +36,7 @@ use informalsystems_malachitebft_core_types::Round;
 use itertools::Itertools;
 use merkle_trie::TrieKey;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 use std::str;
 use std::string::ToString;
 use std::sync::Arc;
@@ -1243,8 +1243,8 @@ impl ShardEngine {
         let mut pruned_messages_count = 0;
         let mut revoked_messages_count = 0;
         let mut events = vec![];
-        let mut message_types_to_prune = HashSet::new();
-        let mut revoked_signers = HashSet::new();
+        let mut message_types_to_prune = BTreeSet::new();
+        let mut revoked_signers = BTreeSet::new();
 
         let mut validation_errors = vec![];
 
-- 
2.43.0


From 466627e0dfdafc78c498aa3809c7d73175c199e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 18/27] fix: store a chunk or block in the same write as the
 state it leads to

---
 src/storage/store/block.rs        | 22 ++++++++++++++++++++--
 src/storage/store/block_engine.rs |  9 +++++++--
 src/storage/store/engine.rs       | 19 ++++++++++++-------
 src/storage/store/shard.rs        | 22 ++++++++++++++++++++--
 4 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/src/storage/store/block.rs b/src/storage/store/block.rs
index 242f2d6..e62965f 100644
--- a/src/storage/store/block.rs
+++ b/src/storage/store/block.rs
@@ -3,7 +3,7 @@ use crate::core::error::HubError;
 use crate::proto;
 use crate::proto::Block;
 use crate::storage::constants::RootPrefix;
-use crate::storage::db::{PageOptions, RocksDB, RocksdbError};
+use crate::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch, RocksdbError};
 use prost::Message;
 use std::sync::Arc;
 use thiserror::Error;
@@ -161,6 +161,16 @@ pub fn get_blocks_in_range(
 
 fn put_block(db: &RocksDB, block: &Block) -> Result<(), BlockStorageError> {
     let mut txn = db.txn();
+    put_block_transaction(db, block, &mut txn)?;
+    db.commit(txn)?;
+    Ok(())
+}
+
+fn put_block_transaction(
+    db: &RocksDB,
+    block: &Block,
+    txn: &mut RocksDbTransactionBatch,
+) -> Result<(), BlockStorageError> {
     let header = block
         .header
         .as_ref()
@@ -178,7 +188,6 @@ fn put_block(db: &RocksDB, block: &Block) -> Result<(), BlockStorageError> {
         txn.put(timestamp_index_key, primary_key);
     }
 
-    db.commit(txn)?;
     Ok(())
 }
 
@@ -197,6 +206,15 @@ impl BlockStore {
         put_block(&self.db, block)
     }
 
+    /// Adds the block to a batch of writes, so it can be stored together with the state it leads to
+    pub fn put_block_transaction(
+        &self,
+        block: &Block,
+        txn: &mut RocksDbTransactionBatch,
+    ) -> Result<(), BlockStorageError> {
+        put_block_transaction(&self.db, block, txn)
+    }
+
     #[inline]
     pub fn get_first_block(&self) -> Result<Option<Block>, BlockStorageError> {
         get_first_or_last_block(&self.db, FirstOrLast::First)
diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index c6104d0..82e12f2 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -2248,11 +2248,16 @@ impl BlockEngine {
                     panic!("State change commit failed: {}", err);
                 }
                 Ok(()) => {
-                    self.db.commit(txn).unwrap();
-                    let result = self.stores.block_store.put_block(block);
+                    // The block is stored together with the state it leads to: a crash between
+                    // the two would make this node replay the block on top of its own effects.
+                    let result = self
+                        .stores
+                        .block_store
+                        .put_block_transaction(block, &mut txn);
                     if result.is_err() {
                         error!("Failed to store block: {:?}", result.err());
                     }
+                    self.db.commit(txn).unwrap();
                     self.stores.trie.reload(&self.db).unwrap();
                     self.metrics
                         .publish_transaction_counts(&block.transactions, ProposalSource::Commit);
diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 77ae9ae..cc354b9 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2460,19 +2460,24 @@ impl ShardEngine {
         _ = self.emit_commit_metrics(&shard_chunk, &events);
 
         let now = std::time::Instant::now();
+        // The chunk is stored together with the state it leads to: a crash between the two would
+        // make this node replay the chunk on top of its own effects.
+        match self
+            .stores
+            .shard_store
+            .put_shard_chunk_transaction(shard_chunk, &mut txn)
+        {
+            Err(err) => {
+                error!("Unable to write shard chunk to store {}", err)
+            }
+            Ok(()) => {}
+        }
         self.db.commit(txn).unwrap();
         for mut event in events {
             event.timestamp = header.timestamp;
             let _ = self.senders.events_tx.send(event);
         }
         self.stores.trie.reload(&self.db).unwrap();
-
-        match self.stores.shard_store.put_shard_chunk(shard_chunk) {
-            Err(err) => {
-                error!("Unable to write shard chunk to store {}", err)
-            }
-            Ok(()) => {}
-        }
         let elapsed = now.elapsed();
         self.metrics
             .time_with_shard("commit_time", elapsed.as_millis() as u64);
diff --git a/src/storage/store/shard.rs b/src/storage/store/shard.rs
index cd82a37..7d580e6 100644
--- a/src/storage/store/shard.rs
+++ b/src/storage/store/shard.rs
@@ -3,7 +3,7 @@ use crate::core::error::HubError;
 use crate::proto;
 use crate::proto::ShardChunk;
 use crate::storage::constants::RootPrefix;
-use crate::storage::db::{PageOptions, RocksDB, RocksdbError};
+use crate::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch, RocksdbError};
 use prost::Message;
 use std::sync::Arc;
 use thiserror::Error;
@@ -154,6 +154,16 @@ pub fn get_current_header(db: &RocksDB) -> Result<Option<proto::ShardHeader>, Sh
 
 pub fn put_shard_chunk(db: &RocksDB, shard_chunk: &ShardChunk) -> Result<(), ShardStorageError> {
     let mut txn = db.txn();
+    put_shard_chunk_transaction(db, shard_chunk, &mut txn)?;
+    db.commit(txn)?;
+    Ok(())
+}
+
+fn put_shard_chunk_transaction(
+    db: &RocksDB,
+    shard_chunk: &ShardChunk,
+    txn: &mut RocksDbTransactionBatch,
+) -> Result<(), ShardStorageError> {
     let header = shard_chunk
         .header
         .as_ref()
@@ -171,7 +181,6 @@ pub fn put_shard_chunk(db: &RocksDB, shard_chunk: &ShardChunk) -> Result<(), Sha
         txn.put(timestamp_index_key, primary_key);
     }
 
-    db.commit(txn)?;
     Ok(())
 }
 
@@ -202,6 +211,15 @@ impl ShardStore {
         put_shard_chunk(&self.db, shard_chunk)
     }
 
+    /// Adds the chunk to a batch of writes, so it can be stored together with the state it leads to
+    pub fn put_shard_chunk_transaction(
+        &self,
+        shard_chunk: &ShardChunk,
+        txn: &mut RocksDbTransactionBatch,
+    ) -> Result<(), ShardStorageError> {
+        put_shard_chunk_transaction(&self.db, shard_chunk, txn)
+    }
+
     pub fn get_first_shard_chunk(&self) -> Result<Option<ShardChunk>, ShardStorageError> {
         get_first_or_last_shard_chunk(&self.db, FirstOrLast::First)
     }
-- 
2.43.0


From ed206a9e4b7544194deb85f26857b767eddd80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 19/27] fix: keep the by-fid username entry when a proof is
 renewed or another name moves away

---
 src/storage/store/account/user_data_store.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/storage/store/account/user_data_store.rs b/src/storage/store/account/user_data_store.rs
index 4ea3e5a..27788b6 100644
--- a/src/storage/store/account/user_data_store.rs
+++ b/src/storage/store/account/user_data_store.rs
@@ -2,6 +2,7 @@ use super::{
     is_message_in_time_range, make_user_key,
     name_registry_events::{
         delete_username_proof_transaction, get_fname_proof_by_fid, get_username_proof,
+        make_fname_username_proof_by_fid_key, make_fname_username_proof_key,
         put_username_proof_transaction,
     },
     store::{Store, StoreDef},
@@ -282,7 +283,17 @@ impl UserDataStore {
                     message: "event conflicts with a more recent UserNameProof".to_string(),
                 });
             }
-            existing_fid = Some(existing_proof.as_ref().unwrap().fid);
+            // The previous owner is only unlisted if this name is the one they are listed with.
+            let owner = existing_proof.as_ref().unwrap().fid;
+            let listed = super::get_from_db_or_txn(
+                &store.db(),
+                txn,
+                &make_fname_username_proof_by_fid_key(owner),
+            )?;
+            let name_key = make_fname_username_proof_key(&username_proof.name);
+            if owner != username_proof.fid && listed == Some(name_key) {
+                existing_fid = Some(owner);
+            }
         }
 
         if existing_proof.is_none() && username_proof.fid == 0 {
-- 
2.43.0


From dce9e8d0f6bf3bfc1fabcf91ff8c7aaba669bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 20/27] fix: reuse a prepared state only for the very
 transactions it was prepared for

---
 src/storage/store/engine.rs | 47 ++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index cc354b9..d642543 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -162,7 +162,7 @@ struct CachedTransaction {
     shard_root: Vec<u8>,
     events: Vec<HubEvent>,
     max_block_event_seqnum: u64,
-    block_events_hash: Vec<u8>,
+    transactions_hash: Vec<u8>,
     txn: RocksDbTransactionBatch,
 }
 
@@ -437,14 +437,14 @@ impl ShardEngine {
         // TODO: this should probably operate automatically via drop trait
         self.stores.trie.reload(&self.db).unwrap();
 
-        let block_events_hash = Self::compute_block_events_hash(&result.transactions);
+        let transactions_hash = Self::compute_transactions_hash(&result.transactions);
 
         self.pending_txn = Some(CachedTransaction {
             shard_root: result.new_state_root.clone(),
             events: result.events.clone(),
             txn,
             max_block_event_seqnum: result.max_block_event_seqnum,
-            block_events_hash,
+            transactions_hash,
         });
 
         let proposal_duration = now.elapsed();
@@ -2381,15 +2381,15 @@ impl ShardEngine {
                 result = false;
             }
             Ok((events, max_block_event_seqnum)) => {
-                let block_events_hash =
-                    Self::compute_block_events_hash(&shard_state_change.transactions);
+                let transactions_hash =
+                    Self::compute_transactions_hash(&shard_state_change.transactions);
 
                 self.pending_txn = Some(CachedTransaction {
                     shard_root: shard_root.clone(),
                     txn,
                     events,
                     max_block_event_seqnum,
-                    block_events_hash,
+                    transactions_hash,
                 });
             }
         }
@@ -2602,22 +2602,12 @@ impl ShardEngine {
         }
     }
 
-    fn compute_block_events_hash(transactions: &[Transaction]) -> Vec<u8> {
-        let block_events: Vec<_> = transactions
-            .iter()
-            .flat_map(|txn| &txn.system_messages)
-            .filter_map(|msg| msg.block_event.as_ref())
-            .collect();
-
-        if block_events.is_empty() {
-            vec![]
-        } else {
-            let mut events_hasher = blake3::Hasher::new();
-            for event in block_events.iter() {
-                events_hasher.update(&event.hash);
-            }
-            events_hasher.finalize().as_bytes().to_vec()
+    fn compute_transactions_hash(transactions: &[Transaction]) -> Vec<u8> {
+        let mut hasher = blake3::Hasher::new();
+        for transaction in transactions {
+            hasher.update(&prost::Message::encode_length_delimited_to_vec(transaction));
         }
+        hasher.finalize().as_bytes().to_vec()
     }
 
     fn is_cached_txn_valid(
@@ -2642,20 +2632,19 @@ impl ShardEngine {
             return false;
         }
 
-        // TODO(aditi): Ideally we would handle this by putting max block event seqnum in the block header but this requires a protocol upgrade.
-        // Compute block events hash from transactions and compare with cached hash
-        let computed_hash = Self::compute_block_events_hash(transactions);
-        if computed_hash != cached_txn.block_events_hash {
+        // A proposal with other transactions can lead to the same root and still have different events
+        let computed_hash = Self::compute_transactions_hash(transactions);
+        if computed_hash != cached_txn.transactions_hash {
             error!(
                 shard_id = self.shard_id,
-                cached_block_events_hash = hex::encode(&cached_txn.block_events_hash),
-                computed_block_events_hash = hex::encode(&computed_hash),
-                "Cached block events hash mismatch"
+                cached_transactions_hash = hex::encode(&cached_txn.transactions_hash),
+                computed_transactions_hash = hex::encode(&computed_hash),
+                "Cached transactions mismatch"
             );
             self.metrics.count(
                 "commit.cache_miss",
                 1,
-                vec![("reason", "block_events_hash_mismatch")],
+                vec![("reason", "transactions_hash_mismatch")],
             );
             return false;
         }
-- 
2.43.0


From 5c49eba94769dc92d9ee155ea1a6602bc50ec6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 21/27] fix: a block receiver that falls behind goes on with
 the blocks it still gets instead of panicking

---
 src/mempool/block_receiver.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mempool/block_receiver.rs b/src/mempool/block_receiver.rs
index 8b4380c..d579773 100644
--- a/src/mempool/block_receiver.rs
+++ b/src/mempool/block_receiver.rs
@@ -226,7 +226,18 @@ impl BlockReceiver {
     pub async fn run(&mut self) {
         info!(shard = self.shard_id.to_string(), "Running block receiver");
         loop {
-            let block = self.block_rx.recv().await.unwrap();
+            let block = match self.block_rx.recv().await {
+                Ok(block) => block,
+                // Blocks that were missed are synced when the next one with events arrives
+                Err(broadcast::error::RecvError::Lagged(num_missed)) => {
+                    warn!(
+                        shard = self.shard_id,
+                        num_missed, "Block receiver fell behind and missed blocks"
+                    );
+                    continue;
+                }
+                Err(broadcast::error::RecvError::Closed) => return,
+            };
             info!(
                 shard = self.shard_id.to_string(),
                 num_events = block.events.len(),
-- 
2.43.0


From 1abe1523b6405ba10d19763e9d9f0c0406441c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 22/27] fix: a block receiver gives up a sync whose block is
 unknown instead of panicking

---
 src/mempool/block_receiver.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mempool/block_receiver.rs b/src/mempool/block_receiver.rs
index d579773..31c77b4 100644
--- a/src/mempool/block_receiver.rs
+++ b/src/mempool/block_receiver.rs
@@ -52,6 +52,8 @@ impl Default for Config {
 pub enum BlockReceiverError {
     #[error("timed out waiting for confirmation")]
     ConfirmationTimedOut,
+    #[error("no block with event {0}")]
+    BlockNotFound(u64),
 }
 // Maintain one per shard, shards move independently
 pub struct BlockReceiver {
@@ -196,7 +198,11 @@ impl BlockReceiver {
                 })
                 .await
                 .unwrap();
-            let block = block_rx.await.unwrap().unwrap();
+            let block = block_rx
+                .await
+                .ok()
+                .flatten()
+                .ok_or(BlockReceiverError::BlockNotFound(currrent_seqnum))?;
             self.submit_block(&block).await;
 
             if let Some(last_event) = block.events.last() {
@@ -256,7 +262,7 @@ impl BlockReceiver {
 
             let first_event_in_block = block.events.first().unwrap();
             if first_event_in_block.seqnum() > last_stored_event_seqnum + 1 {
-                if let Err(BlockReceiverError::ConfirmationTimedOut) = self
+                if let Err(err) = self
                     .sync_missing_block_events(
                         last_stored_event_seqnum + 1,
                         first_event_in_block.seqnum() - 1,
@@ -264,7 +270,7 @@ impl BlockReceiver {
                     .await
                 {
                     // TODO(aditi): Right now, we will just wait for the next block with events and try again. In the future we may want better retry logic
-                    warn!("Timed out waiting for confirmation. Sync ended early");
+                    warn!("Sync ended early: {}", err);
                     continue;
                 }
             };
-- 
2.43.0


From c19b0d0ae63dac7a50de3e6aa24fa30cebd6cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 23/27] fix: a restoring node that meets messages it already
 has goes on instead of giving up

---
 src/bootstrap/replication/service.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/replication/service.rs b/src/bootstrap/replication/service.rs
index 73ae846..6e9a9c6 100644
--- a/src/bootstrap/replication/service.rs
+++ b/src/bootstrap/replication/service.rs
@@ -945,7 +945,17 @@ impl ReplicatorBootstrap {
                     }
                     Err(e) => {
                         // We'll ignore duplicate errors. If the message is already in the DB, then great, we move on.
-                        if let EngineError::StoreError(he) = &e {
+                        // Errors from the message stores arrive wrapped in a message validation error.
+                        let store_error = match &e {
+                            EngineError::StoreError(he)
+                            | EngineError::EngineMessageValidationError(
+                                crate::storage::store::engine::MessageValidationError::StoreError(
+                                    he,
+                                ),
+                            ) => Some(he),
+                            _ => None,
+                        };
+                        if let Some(he) = store_error {
                             if he.code != "bad_request.duplicate" {
                                 error!(
                                     "store/error: Failed to replay message with error: {:?}",
-- 
2.43.0


From f2c14a99d54f7035e843997eb404c1b3c1cf4c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 24/27] fix: a restoring node indexes the last of several key
 or id events of one block

---
 .../store/account/onchain_event_store.rs      | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/storage/store/account/onchain_event_store.rs b/src/storage/store/account/onchain_event_store.rs
index 045a796..bf0adaa 100644
--- a/src/storage/store/account/onchain_event_store.rs
+++ b/src/storage/store/account/onchain_event_store.rs
@@ -127,7 +127,7 @@ pub fn merge_onchain_event(
         }
     }
     txn.put(primary_key, onchain_event.encode_to_vec());
-    build_secondary_indices(db, txn, &onchain_event)?;
+    build_secondary_indices(db, txn, &onchain_event, store_opts)?;
     Ok(())
 }
 
@@ -475,11 +475,26 @@ pub(crate) fn fold_channel_register_replica(
     }
 }
 
+// Whether an indexed event is more recent than one that is being merged. Events of one block are
+// merged in the order of their logs, so that the last one merged wins; a conflict free merge is
+// handed the events in any order and has to go by their place in the block.
+fn is_superseded(
+    existing_event: &OnChainEvent,
+    onchain_event: &OnChainEvent,
+    store_opts: &StoreOptions,
+) -> bool {
+    existing_event.block_number > onchain_event.block_number
+        || (store_opts.conflict_free
+            && existing_event.block_number == onchain_event.block_number
+            && existing_event.log_index > onchain_event.log_index)
+}
+
 fn build_secondary_indices_for_id_register(
     db: &RocksDB,
     txn: &mut RocksDbTransactionBatch,
     onchain_event: &OnChainEvent,
     id_register_event_body: &IdRegisterEventBody,
+    store_opts: &StoreOptions,
 ) -> Result<(), OnchainEventStorageError> {
     if id_register_event_body.event_type() == IdRegisterEventType::ChangeRecovery {
         // change recovery events are not indexed (id and custody address are the same)
@@ -488,7 +503,7 @@ fn build_secondary_indices_for_id_register(
     let id_register_by_fid_key = make_id_register_by_fid_key(onchain_event.fid);
     match get_event_by_secondary_key(db, id_register_by_fid_key.clone(), Some(txn))? {
         Some(existing_event) => {
-            if existing_event.block_number > onchain_event.block_number {
+            if is_superseded(&existing_event, onchain_event, store_opts) {
                 return Ok(());
             }
         }
@@ -504,12 +519,13 @@ fn build_secondary_indices_for_signer(
     txn: &mut RocksDbTransactionBatch,
     onchain_event: &OnChainEvent,
     signer_event_body: &SignerEventBody,
+    store_opts: &StoreOptions,
 ) -> Result<(), OnchainEventStorageError> {
     let signer_key =
         make_signer_onchain_event_by_signer_key(onchain_event.fid, signer_event_body.key.clone());
     match get_event_by_secondary_key(db, signer_key.clone(), Some(txn))? {
         Some(existing_event) => {
-            if existing_event.block_number > onchain_event.block_number {
+            if is_superseded(&existing_event, onchain_event, store_opts) {
                 return Ok(());
             }
             let existing_event_body = signer_body(onchain_event.clone())
@@ -579,6 +595,7 @@ fn build_secondary_indices(
     db: &RocksDB,
     txn: &mut RocksDbTransactionBatch,
     onchain_event: &OnChainEvent,
+    store_opts: &StoreOptions,
 ) -> Result<(), OnchainEventStorageError> {
     if let Some(body) = &onchain_event.body {
         match body {
@@ -588,10 +605,17 @@ fn build_secondary_indices(
                     txn,
                     onchain_event,
                     id_register_event_body,
+                    store_opts,
                 )?
             }
             on_chain_event::Body::SignerEventBody(signer_event_body) => {
-                build_secondary_indices_for_signer(db, txn, onchain_event, signer_event_body)?
+                build_secondary_indices_for_signer(
+                    db,
+                    txn,
+                    onchain_event,
+                    signer_event_body,
+                    store_opts,
+                )?
             }
             on_chain_event::Body::ChannelRegisterEventBody(channel_register_body) => {
                 // The primary merge path builds the index but ignores the ownership-change
-- 
2.43.0


From e80a959e6f1f64d4e5de37f3b0648aa15782dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 25/27] hook: bootstrap options can be given under cfg snapspec

---
 src/bootstrap/replication/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/replication/service.rs b/src/bootstrap/replication/service.rs
index 6e9a9c6..7ae3853 100644
--- a/src/bootstrap/replication/service.rs
+++ b/src/bootstrap/replication/service.rs
@@ -177,7 +177,7 @@ impl ReplicatorBootstrap {
     }
 
     // For tests, we allow constructing a replicator with custom options to test various scenarios
-    #[cfg(test)]
+    #[cfg(any(test, snapspec))]
     pub fn new_with_config(
         statsd_client: StatsdClientWrapper,
         app_config: &Config,
-- 
2.43.0


From ed8dee1ebba44aedb9d710768fda2d3f0f300724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:10 +0000
Subject: [PATCH 26/27] fix: a restoring node refuses messages whose data
 differ from the bytes that are signed

---
 src/bootstrap/replication/service.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bootstrap/replication/service.rs b/src/bootstrap/replication/service.rs
index 7ae3853..e03a2ac 100644
--- a/src/bootstrap/replication/service.rs
+++ b/src/bootstrap/replication/service.rs
@@ -1184,6 +1184,20 @@ impl ReplicatorBootstrap {
                 // Validate message hash first
                 if m.data_bytes.is_some() {
                     validate_message_hash(m.hash_scheme, &m.data_bytes.as_ref().unwrap(), &m.hash)?;
+
+                    // The hash says nothing about data that comes along with the bytes it is taken
+                    // of, and data is what gets merged
+                    if m.data.is_none()
+                        || m.data
+                            != proto::MessageData::decode(
+                                m.data_bytes.as_ref().unwrap().as_slice(),
+                            )
+                            .ok()
+                    {
+                        return Err(BootstrapError::ValidationError(
+                            validations::error::ValidationError::InvalidHash,
+                        ));
+                    }
                 } else {
                     if m.data.is_none() {
                         return Err(BootstrapError::ValidationError(
-- 
2.43.0


From aaa4cf29cdb246bdae911b2dd0650117453c30a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:13 +0000
Subject: [PATCH 27/27] fix: paging through queries answered by several shards
 ends, and yields each match once

The page token of a fan-out query zipped per-shard tokens against HashMap order,
an exhausted shard was started over, and the token was never empty, so a walk
repeated pages and did not end.
---
 src/network/server.rs | 475 ++++++++++++------------------------------
 1 file changed, 139 insertions(+), 336 deletions(-)

diff --git a/src/network/server.rs b/src/network/server.rs
index a24c73e..ca91bce 100644
--- a/src/network/server.rs
+++ b/src/network/server.rs
@@ -242,7 +242,7 @@ enum ShardScan {
 ///
 /// Carries the shard id rather than relying on position, so a cursor cannot be
 /// silently applied to the wrong shard if the hosted set changes between pages —
-/// the failure `get_casts_by_parent` has, zipping tokens against `HashMap` order.
+/// the failure of zipping tokens against `HashMap` order.
 ///
 /// `deny_unknown_fields` because this is pagination state, not a forward-
 /// compatible API: silently ignoring a field a newer node meant something by is
@@ -254,6 +254,27 @@ struct ShardCursor {
     scan: ShardScan,
 }
 
+impl ShardScan {
+    /// The token to read on with, or `None` if there is nothing left to read.
+    fn start(self) -> Option<Option<Vec<u8>>> {
+        match self {
+            ShardScan::Fresh => Some(None),
+            ShardScan::Resume(token) => Some(Some(token)),
+            ShardScan::Exhausted => None,
+        }
+    }
+}
+
+impl ShardCursor {
+    fn after(shard_id: u32, next_page_token: Option<Vec<u8>>) -> Self {
+        let scan = match next_page_token {
+            Some(token) => ShardScan::Resume(token),
+            None => ShardScan::Exhausted,
+        };
+        ShardCursor { shard_id, scan }
+    }
+}
+
 /// Decodes a fan-out `page_token` into one scan position per hosted shard.
 ///
 /// A present token must name exactly the node's shard set, each shard once: a
@@ -1071,6 +1092,59 @@ impl MyHubService {
             .collect()
     }
 
+    /// One page of a query that every hosted shard answers, shard by shard in the
+    /// order of their ids. A shard that was read to its end is left out of the
+    /// following pages, and the last page carries no token.
+    fn fan_out_messages(
+        &self,
+        page_size: Option<u32>,
+        page_token: Option<Vec<u8>>,
+        reverse: Option<bool>,
+        read: impl Fn(&Stores, &PageOptions) -> Result<MessagesPage, HubError>,
+    ) -> Result<Response<MessagesResponse>, Status> {
+        let shards = self.hosted_shard_stores();
+        let mut scans = decode_shard_cursors(page_token, &shards)?;
+
+        let mut messages = Vec::new();
+        let mut next_cursors = Vec::with_capacity(shards.len());
+        for (shard_id, stores) in &shards {
+            let scan = scans.remove(shard_id).unwrap_or(ShardScan::Exhausted);
+            let next = match scan.start() {
+                None => None,
+                Some(page_token) => {
+                    let options = PageOptions {
+                        page_size: page_size.map(|s| s as usize),
+                        page_token,
+                        reverse: reverse.unwrap_or(false),
+                    };
+                    let page = read(stores, &options).unwrap_or(MessagesPage {
+                        messages: vec![],
+                        next_page_token: None,
+                    });
+                    messages.extend(page.messages);
+                    page.next_page_token
+                }
+            };
+            next_cursors.push(ShardCursor::after(*shard_id, next));
+        }
+
+        Ok(Response::new(MessagesResponse {
+            messages,
+            next_page_token: encode_shard_cursors(next_cursors)?,
+        }))
+    }
+
+    /// The shards this node hosts, in the order of their ids.
+    fn hosted_shard_stores(&self) -> Vec<(u32, &Stores)> {
+        let mut shards: Vec<(u32, &Stores)> = self
+            .shard_stores
+            .iter()
+            .map(|(shard_id, stores)| (*shard_id, stores))
+            .collect();
+        shards.sort_by_key(|(shard_id, _)| *shard_id);
+        shards
+    }
+
     fn get_stores_for_shard(&self, shard_id: u32) -> Result<&Stores, Status> {
         match self.shard_stores.get(&shard_id) {
             Some(store) => Ok(store),
@@ -2043,65 +2117,45 @@ impl HubService for MyHubService {
     ) -> Result<Response<EventsResponse>, Status> {
         let req = request.into_inner();
 
-        let num_shards;
-        let shard_stores;
-        match req.shard_index {
-            None => {
-                num_shards = self.num_shards;
-                shard_stores = self.shard_stores.values().collect::<Vec<_>>();
-            }
-            Some(index) => {
-                num_shards = 1;
-                shard_stores = match self.shard_stores.get(&index) {
-                    Some(store) => {
-                        vec![store]
-                    }
-                    None => return Err(Status::invalid_argument("Shard not found".to_string())),
-                };
-            }
-        }
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards as usize]
+        let shards = match req.shard_index {
+            None => self.hosted_shard_stores(),
+            Some(index) => match self.shard_stores.get(&index) {
+                Some(stores) => vec![(index, stores)],
+                None => return Err(Status::invalid_argument("Shard not found".to_string())),
+            },
         };
-        if per_shard_tokens.len() != num_shards as usize {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
+        let mut scans = decode_shard_cursors(req.page_token, &shards)?;
+
+        let mut events = Vec::new();
+        let mut next_cursors = Vec::with_capacity(shards.len());
+        for (shard_id, stores) in &shards {
+            let scan = scans.remove(shard_id).unwrap_or(ShardScan::Exhausted);
+            let next = match scan.start() {
+                None => None,
+                Some(page_token) => {
+                    let options = PageOptions {
+                        page_size: req.page_size.map(|s| s as usize),
+                        page_token,
+                        reverse: req.reverse.unwrap_or(false),
+                    };
+                    let (page, _) = Self::get_events_from_store(
+                        stores,
+                        req.start_id,
+                        req.stop_id,
+                        Some(options),
+                        None,
+                    );
+                    events.extend(page.events);
+                    page.next_page_token
+                }
+            };
+            next_cursors.push(ShardCursor::after(*shard_id, next));
         }
-        let pages: Vec<EventsPage> = shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(store, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-                let (events, _) = Self::get_events_from_store(
-                    store,
-                    req.start_id,
-                    req.stop_id,
-                    Some(page_options),
-                    None,
-                );
-                events
-            })
-            .collect();
-        let combined_events: Vec<HubEvent> =
-            pages.iter().flat_map(|page| page.events.clone()).collect();
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
-        let response = EventsResponse {
-            events: combined_events,
-            next_page_token: Some(new_page_token),
-        };
 
-        Ok(Response::new(response))
+        Ok(Response::new(EventsResponse {
+            events,
+            next_page_token: encode_shard_cursors(next_cursors)?,
+        }))
     }
 
     async fn get_cast(&self, request: Request<CastId>) -> Result<Response<proto::Message>, Status> {
@@ -2391,50 +2445,9 @@ impl HubService for MyHubService {
             }
             None => return Err(Status::not_found("Parent not specified".to_string())),
         };
-        let num_shards = self.shard_stores.len();
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-        let pages: Vec<MessagesPage> = self
-            .shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(shard_entry, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-                let cast_store = &shard_entry.1.cast_store;
-                return CastStore::get_casts_by_parent(cast_store, &parent, &page_options)
-                    .unwrap_or(MessagesPage {
-                        messages: vec![],
-                        next_page_token: None,
-                    });
-            })
-            .collect();
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
-        let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: Some(new_page_token),
-        };
-
-        Ok(Response::new(response))
+        self.fan_out_messages(req.page_size, req.page_token, req.reverse, |stores, options| {
+            CastStore::get_casts_by_parent(&stores.cast_store, &parent, options)
+        })
     }
 
     async fn get_casts_by_mention(
@@ -2444,58 +2457,9 @@ impl HubService for MyHubService {
         let req = request.into_inner();
         let mention = req.fid;
 
-        let num_shards = self.shard_stores.len();
-
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-
-        let pages: Vec<MessagesPage> =
-            self.shard_stores
-                .iter()
-                .zip(per_shard_tokens.into_iter())
-                .map(|(shard_entry, shard_token)| {
-                    let page_options = PageOptions {
-                        page_size: req.page_size.map(|s| s as usize),
-                        page_token: shard_token,
-                        reverse: req.reverse.unwrap_or(false),
-                    };
-
-                    let store = &shard_entry.1.cast_store;
-                    return CastStore::get_casts_by_mention(store, mention, &page_options)
-                        .unwrap_or(MessagesPage {
-                            messages: vec![],
-                            next_page_token: None,
-                        });
-                })
-                .collect();
-
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
-
-        let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: Some(new_page_token),
-        };
-
-        Ok(Response::new(response))
+        self.fan_out_messages(req.page_size, req.page_token, req.reverse, |stores, options| {
+            CastStore::get_casts_by_mention(&stores.cast_store, mention, options)
+        })
     }
 
     async fn get_reactions_by_cast(
@@ -2516,64 +2480,14 @@ impl HubService for MyHubService {
             _ => return Err(Status::not_found("Target not specified".to_string())),
         };
 
-        let num_shards = self.shard_stores.len();
-
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-
-        let pages: Vec<MessagesPage> = self
-            .shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(shard_entry, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-
-                let store = &shard_entry.1.reaction_store;
-
-                return ReactionStore::get_reactions_by_target(
-                    store,
-                    &target,
-                    reaction_type,
-                    &page_options,
-                )
-                .unwrap_or(MessagesPage {
-                    messages: vec![],
-                    next_page_token: None,
-                });
-            })
-            .collect();
-
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
-
-        let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: Some(new_page_token),
-        };
-
-        Ok(Response::new(response))
+        self.fan_out_messages(req.page_size, req.page_token, req.reverse, |stores, options| {
+            ReactionStore::get_reactions_by_target(
+                &stores.reaction_store,
+                &target,
+                reaction_type,
+                options,
+            )
+        })
     }
 
     async fn get_reactions_by_target(
@@ -2594,69 +2508,14 @@ impl HubService for MyHubService {
             None => return Err(Status::not_found("Target not specified".to_string())),
         };
 
-        let num_shards = self.shard_stores.len();
-
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-
-        let pages: Vec<MessagesPage> = self
-            .shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(shard_entry, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-
-                let store = &shard_entry.1.reaction_store;
-
-                return ReactionStore::get_reactions_by_target(
-                    store,
-                    &target,
-                    reaction_type,
-                    &page_options,
-                )
-                .unwrap_or(MessagesPage {
-                    messages: vec![],
-                    next_page_token: None,
-                });
-            })
-            .collect();
-
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-
-        let new_page_token = if next_page_tokens.iter().any(|token| token.is_some()) {
-            Some(serde_json::to_vec(&next_page_tokens).map_err(|e| {
-                Status::internal(format!("Failed to serialize next_page_token: {}", e))
-            })?)
-        } else {
-            None // Return None if no subsequent page exists
-        };
-
-        let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: new_page_token,
-        };
-
-        Ok(Response::new(response))
+        self.fan_out_messages(req.page_size, req.page_token, req.reverse, |stores, options| {
+            ReactionStore::get_reactions_by_target(
+                &stores.reaction_store,
+                &target,
+                reaction_type,
+                options,
+            )
+        })
     }
 
     async fn get_username_proof(
@@ -3558,11 +3417,9 @@ impl HubService for MyHubService {
     ) -> Result<Response<MessagesResponse>, Status> {
         let req = request.into_inner();
 
-        if req.link_type.clone().is_none() {
-            return Err(Status::invalid_argument(
-                "link_type is required".to_string(),
-            ));
-        }
+        let link_type = req
+            .link_type
+            .ok_or_else(|| Status::invalid_argument("link_type is required".to_string()))?;
 
         let target = match req.target {
             Some(links_by_target_request::Target::TargetFid(fid)) => {
@@ -3571,63 +3428,9 @@ impl HubService for MyHubService {
             None => return Err(Status::not_found("Target not specified".to_string())),
         };
 
-        let num_shards = self.shard_stores.len();
-
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-
-        let pages: Vec<MessagesPage> = self
-            .shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(shard_entry, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-
-                let store = &shard_entry.1.link_store;
-                LinkStore::get_links_by_target(
-                    store,
-                    &target,
-                    req.link_type.clone().unwrap(),
-                    &page_options,
-                )
-                .unwrap_or(MessagesPage {
-                    messages: vec![],
-                    next_page_token: None,
-                })
-            })
-            .collect();
-
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
-
-        let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: Some(new_page_token),
-        };
-
-        Ok(Response::new(response))
+        self.fan_out_messages(req.page_size, req.page_token, req.reverse, |stores, options| {
+            LinkStore::get_links_by_target(&stores.link_store, &target, link_type.clone(), options)
+        })
     }
 
     async fn get_trie_metadata_by_prefix(
-- 
2.43.0

