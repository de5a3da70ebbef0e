From 30bb279d46c3261737cb59fb1372be62df442519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 01/12] fix: keep the by-fid row of a username renewed by its
 present owner

put_username_proof_transaction wrote the row (fid -> name) and then deleted
the existing owner's row; when the owner stays the same the row just written
was lost, so lookups of the user's names no longer found the name.
---
 src/storage/store/account/name_registry_events.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/storage/store/account/name_registry_events.rs b/src/storage/store/account/name_registry_events.rs
index 099527d..ac5a10b 100644
--- a/src/storage/store/account/name_registry_events.rs
+++ b/src/storage/store/account/name_registry_events.rs
@@ -75,6 +75,13 @@ pub fn put_username_proof_transaction(
     username_proof: &UserNameProof,
     existing_fid: Option<u64>,
 ) {
+    // If a username is being transferred, remove the existing secondary key. This comes before the
+    // new key is written: the existing owner may be the new one (a renewal), whose key must remain.
+    if let Some(existing_fid) = existing_fid {
+        let secondary_key = make_fname_username_proof_by_fid_key(existing_fid);
+        txn.delete(secondary_key);
+    }
+
     let buf = username_proof.encode_to_vec();
 
     let primary_key = make_fname_username_proof_key(&username_proof.name);
@@ -82,12 +89,6 @@ pub fn put_username_proof_transaction(
 
     let secondary_key = make_fname_username_proof_by_fid_key(username_proof.fid);
     txn.put(secondary_key, primary_key);
-
-    // If a username is being transferred, remove the existing secondary key.
-    if let Some(existing_fid) = existing_fid {
-        let secondary_key = make_fname_username_proof_by_fid_key(existing_fid);
-        txn.delete(secondary_key);
-    }
 }
 
 #[inline]
-- 
2.43.0


From c8fb8e3c2a64edd03ae47dc2fe780a014ebfb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 02/12] fix: list what a URL targets when a longer URL begins
 with it

---
 src/storage/store/account/cast_store.rs     | 8 +++++++-
 src/storage/store/account/reaction_store.rs | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/storage/store/account/cast_store.rs b/src/storage/store/account/cast_store.rs
index b0e6608..e6c58ac 100644
--- a/src/storage/store/account/cast_store.rs
+++ b/src/storage/store/account/cast_store.rs
@@ -2,7 +2,8 @@ use super::{
     get_many_messages, make_cast_id_key, make_fid_key, make_message_primary_key, make_user_key,
     read_fid_key, read_ts_hash,
     store::{Store, StoreDef},
-    MessagesPage, StoreEventHandler, HASH_LENGTH, PAGE_SIZE_MAX, TRUE_VALUE, TS_HASH_LENGTH,
+    MessagesPage, StoreEventHandler, FID_BYTES, HASH_LENGTH, PAGE_SIZE_MAX, TRUE_VALUE,
+    TS_HASH_LENGTH,
 };
 use crate::storage::constants::{RootPrefix, UserPostfix};
 use crate::storage::db::PageOptions;
@@ -460,6 +461,11 @@ impl CastStore {
             Some(increment_vec_u8(&prefix)),
             page_options,
             |key, _| {
+                // A URL parent is also a prefix of every longer URL: those are other parents.
+                if key.len() != prefix.len() + TS_HASH_LENGTH + FID_BYTES {
+                    return Ok(false); // Continue iterating
+                }
+
                 let ts_hash_offset = prefix.len();
                 let fid_offset = ts_hash_offset + TS_HASH_LENGTH;
 
diff --git a/src/storage/store/account/reaction_store.rs b/src/storage/store/account/reaction_store.rs
index c8a5e90..bef641d 100644
--- a/src/storage/store/account/reaction_store.rs
+++ b/src/storage/store/account/reaction_store.rs
@@ -2,7 +2,7 @@ use super::{
     get_many_messages, make_cast_id_key, make_fid_key, make_message_primary_key, make_user_key,
     read_fid_key, read_ts_hash, require_page_token_in_prefix,
     store::{FollowIndexGate, Store, StoreDef},
-    MessagesPage, StoreEventHandler, PAGE_SIZE_MAX, TS_HASH_LENGTH,
+    MessagesPage, StoreEventHandler, FID_BYTES, PAGE_SIZE_MAX, TS_HASH_LENGTH,
 };
 use crate::core::channel_uri::{channel_id_for_follow_target, ChannelRegistrar};
 use crate::storage::store::account::ChannelPage;
@@ -747,6 +747,10 @@ impl ReactionStore {
             Some(increment_vec_u8(&start_prefix)),
             page_options,
             |key, value| {
+                // A URL target is also a prefix of every longer URL: those are other targets.
+                if key.len() != start_prefix.len() + TS_HASH_LENGTH + FID_BYTES {
+                    return Ok(false); // Continue iterating
+                }
                 if reaction_type == ReactionType::None as i32
                     || (value.len() == 1 && value[0] == reaction_type as u8)
                 {
-- 
2.43.0


From 59caa89a2de4ea47970c610020de1d10d68afcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 03/12] fix: delete the row of the child a trie compaction
 merges away

A compacted node took its child's key from the child's own id, which for a
child reached by several nibbles is not where its row is stored, so the row
stayed behind.
---
 src/storage/trie/trie_node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/trie_node.rs b/src/storage/trie/trie_node.rs
index 6f05f8e..29c7c2e 100644
--- a/src/storage/trie/trie_node.rs
+++ b/src/storage/trie/trie_node.rs
@@ -505,7 +505,8 @@ impl TrieNode {
                     self.children.remove(&char);
 
                     // Delete child
-                    let child_prefix = Self::make_primary_key(&prefix, Some(char));
+                    let mut child_prefix = prefix.clone();
+                    child_prefix.push(char);
                     self.delete_to_txn(txn, &child_prefix);
                 }
             }
-- 
2.43.0


From 27938261168cc907d36e63111eeb09249d213c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 04/12] fix: prune by timestamp past blocks that are no longer
 stored

Looking up the height for a timestamp read the block the index names; when
that block had been pruned the lookup found none, and nothing that is kept
longer than blocks was ever pruned. The height is in the index entry.
---
 src/storage/db/rocksdb.rs  | 24 +++++++++++++++++-------
 src/storage/store/block.rs | 22 +++++++++-------------
 src/storage/store/shard.rs | 22 +++++++++-------------
 3 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/storage/db/rocksdb.rs b/src/storage/db/rocksdb.rs
index b9c13a4..db57fab 100644
--- a/src/storage/db/rocksdb.rs
+++ b/src/storage/db/rocksdb.rs
@@ -713,6 +713,22 @@ impl RocksDB {
         &self,
         index_prefix: Vec<u8>,
         start: Vec<u8>,
+    ) -> Result<Option<Vec<u8>>, HubError> {
+        self.get_next_index_entry(index_prefix, start)?
+            .map(|primary_key| {
+                self.get(&primary_key)
+                    .map_err(|e| HubError::from(e))?
+                    .ok_or(HubError::not_found("No value found for the given key"))
+            })
+            .transpose()
+    }
+
+    // Finds the first key with the prefix index_prefix after start, returning
+    // the primary key it holds (which may have been deleted since).
+    pub fn get_next_index_entry(
+        &self,
+        index_prefix: Vec<u8>,
+        start: Vec<u8>,
     ) -> Result<Option<Vec<u8>>, HubError> {
         let page_options = PageOptions {
             page_size: Some(1),
@@ -728,13 +744,7 @@ impl RocksDB {
                 Ok(true) // Stop iterating after the first key
             },
         )?;
-        primary_key
-            .map(|primary_key| {
-                self.get(&primary_key)
-                    .map_err(|e| HubError::from(e))?
-                    .ok_or(HubError::not_found("No value found for the given key"))
-            })
-            .transpose()
+        Ok(primary_key)
     }
 
     // Deletes keys in the given prefix range, respecting page_options.
diff --git a/src/storage/store/block.rs b/src/storage/store/block.rs
index 242f2d6..7fd0f86 100644
--- a/src/storage/store/block.rs
+++ b/src/storage/store/block.rs
@@ -48,6 +48,11 @@ fn make_block_key(block_number: u64) -> Vec<u8> {
     key
 }
 
+fn read_block_key(key: &[u8]) -> Option<u64> {
+    let number = key.get(1..9)?.try_into().ok()?;
+    Some(u64::from_be_bytes(number))
+}
+
 #[inline]
 fn make_block_timestamp_index(shard_index: u32, timestamp: u64) -> Vec<u8> {
     let mut key = vec![RootPrefix::BlockIndex as u8];
@@ -282,21 +287,12 @@ impl BlockStore {
     ) -> Result<Option<u64>, BlockStorageError> {
         let shard_index = 0; // Block store uses shard index 0.
         let timestamp_index_key = make_block_timestamp_index(shard_index, timestamp);
+        // The height is read from the index entry rather than the block, which may be pruned
         self.db
-            .get_next_by_index(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
+            .get_next_index_entry(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
             .map_err(|_| BlockStorageError::TooManyBlocksInResult)? // TODO: Return the right error
-            .map(|bytes| {
-                let block = Block::decode(bytes.as_slice())
-                    .map_err(|e| BlockStorageError::DecodeError(e))?;
-                let header = block
-                    .header
-                    .as_ref()
-                    .ok_or(BlockStorageError::BlockMissingHeader)?;
-                let height = header
-                    .height
-                    .as_ref()
-                    .ok_or(BlockStorageError::BlockMissingHeight)?;
-                Ok(height.block_number)
+            .map(|primary_key| {
+                read_block_key(&primary_key).ok_or(BlockStorageError::BlockMissingHeight)
             })
             .transpose()
     }
diff --git a/src/storage/store/shard.rs b/src/storage/store/shard.rs
index cd82a37..7f3411e 100644
--- a/src/storage/store/shard.rs
+++ b/src/storage/store/shard.rs
@@ -53,6 +53,11 @@ fn make_shard_key(block_number: u64) -> Vec<u8> {
     key
 }
 
+fn read_shard_key(key: &[u8]) -> Option<u64> {
+    let number = key.get(1..9)?.try_into().ok()?;
+    Some(u64::from_be_bytes(number))
+}
+
 fn make_block_timestamp_index(shard_index: u32, timestamp: u64) -> Vec<u8> {
     let mut key = vec![RootPrefix::BlockIndex as u8];
     key.extend_from_slice(&shard_index.to_be_bytes());
@@ -297,21 +302,12 @@ impl ShardStore {
         timestamp: u64,
     ) -> Result<Option<u64>, ShardStorageError> {
         let timestamp_index_key = make_block_timestamp_index(self.shard_id, timestamp);
+        // The height is read from the index entry rather than the block, which may be pruned
         self.db
-            .get_next_by_index(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
+            .get_next_index_entry(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
             .map_err(|_| ShardStorageError::TooManyShardsInResult)? // TODO: Return the right error
-            .map(|bytes| {
-                let shard = ShardChunk::decode(bytes.as_slice())
-                    .map_err(|e| ShardStorageError::DecodeError(e))?;
-                let header = shard
-                    .header
-                    .as_ref()
-                    .ok_or(ShardStorageError::ShardMissingHeader)?;
-                let height = header
-                    .height
-                    .as_ref()
-                    .ok_or(ShardStorageError::ShardMissingHeight)?;
-                Ok(height.block_number)
+            .map(|primary_key| {
+                read_shard_key(&primary_key).ok_or(ShardStorageError::ShardMissingHeight)
             })
             .transpose()
     }
-- 
2.43.0


From 184d2d2d6c930d30a2611e2d1316f3031af78d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 05/12] fix: leave a lender whose storage expired none, not a
 wrapped-around lot

Lent units are taken off what the lender holds; when what was bought has
expired the subtraction went below zero.
---
 src/storage/store/account/onchain_event_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/store/account/onchain_event_store.rs b/src/storage/store/account/onchain_event_store.rs
index e1966f3..c5480c3 100644
--- a/src/storage/store/account/onchain_event_store.rs
+++ b/src/storage/store/account/onchain_event_store.rs
@@ -1048,9 +1048,9 @@ impl StorageSlot {
 
     pub fn sub(&mut self, other: &StorageSlot) {
         if other.is_active() {
-            self.units_legacy -= other.units_legacy;
-            self.units_2024 -= other.units_2024;
-            self.units_2025 -= other.units_2025;
+            self.units_legacy = self.units_legacy.saturating_sub(other.units_legacy);
+            self.units_2024 = self.units_2024.saturating_sub(other.units_2024);
+            self.units_2025 = self.units_2025.saturating_sub(other.units_2025);
         }
     }
 }
-- 
2.43.0


From 33b21daec8910430d8f4e78c7653332855cf6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 06/12] fix: commit a shard chunk together with the state it
 leads to

Between the two commits a crash left the state of a block without the block,
and the block was then applied a second time.
---
 src/storage/store/engine.rs | 18 ++++++++++++------
 src/storage/store/shard.rs  | 22 ++++++++++++++++++++--
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 31845aa..39592f1 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2460,6 +2460,18 @@ impl ShardEngine {
         _ = self.emit_commit_metrics(&shard_chunk, &events);
 
         let now = std::time::Instant::now();
+        // The chunk goes into the same commit as the state it leads to: after a crash between the
+        // two, the block would be applied again on top of itself.
+        match self
+            .stores
+            .shard_store
+            .put_shard_chunk_transaction(shard_chunk, &mut txn)
+        {
+            Err(err) => {
+                error!("Unable to write shard chunk to store {}", err)
+            }
+            Ok(()) => {}
+        }
         self.db.commit(txn).unwrap();
         for mut event in events {
             event.timestamp = header.timestamp;
@@ -2467,12 +2479,6 @@ impl ShardEngine {
         }
         self.stores.trie.reload(&self.db).unwrap();
 
-        match self.stores.shard_store.put_shard_chunk(shard_chunk) {
-            Err(err) => {
-                error!("Unable to write shard chunk to store {}", err)
-            }
-            Ok(()) => {}
-        }
         let elapsed = now.elapsed();
         self.metrics
             .time_with_shard("commit_time", elapsed.as_millis() as u64);
diff --git a/src/storage/store/shard.rs b/src/storage/store/shard.rs
index 7f3411e..0d8f1f1 100644
--- a/src/storage/store/shard.rs
+++ b/src/storage/store/shard.rs
@@ -3,7 +3,7 @@ use crate::core::error::HubError;
 use crate::proto;
 use crate::proto::ShardChunk;
 use crate::storage::constants::RootPrefix;
-use crate::storage::db::{PageOptions, RocksDB, RocksdbError};
+use crate::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch, RocksdbError};
 use prost::Message;
 use std::sync::Arc;
 use thiserror::Error;
@@ -159,6 +159,16 @@ pub fn get_current_header(db: &RocksDB) -> Result<Option<proto::ShardHeader>, Sh
 
 pub fn put_shard_chunk(db: &RocksDB, shard_chunk: &ShardChunk) -> Result<(), ShardStorageError> {
     let mut txn = db.txn();
+    put_shard_chunk_transaction(db, shard_chunk, &mut txn)?;
+    db.commit(txn)?;
+    Ok(())
+}
+
+fn put_shard_chunk_transaction(
+    db: &RocksDB,
+    shard_chunk: &ShardChunk,
+    txn: &mut RocksDbTransactionBatch,
+) -> Result<(), ShardStorageError> {
     let header = shard_chunk
         .header
         .as_ref()
@@ -176,7 +186,6 @@ pub fn put_shard_chunk(db: &RocksDB, shard_chunk: &ShardChunk) -> Result<(), Sha
         txn.put(timestamp_index_key, primary_key);
     }
 
-    db.commit(txn)?;
     Ok(())
 }
 
@@ -207,6 +216,15 @@ impl ShardStore {
         put_shard_chunk(&self.db, shard_chunk)
     }
 
+    /// Adds the chunk to `txn`, so that it is stored together with the state it leads to.
+    pub fn put_shard_chunk_transaction(
+        &self,
+        shard_chunk: &ShardChunk,
+        txn: &mut RocksDbTransactionBatch,
+    ) -> Result<(), ShardStorageError> {
+        put_shard_chunk_transaction(&self.db, shard_chunk, txn)
+    }
+
     pub fn get_first_shard_chunk(&self) -> Result<Option<ShardChunk>, ShardStorageError> {
         get_first_or_last_shard_chunk(&self.db, FirstOrLast::First)
     }
-- 
2.43.0


From 05fc15003f8e5bd3e7ed4aa98e64de5196534770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 07/12] fix: report no delay for a block ahead of the local
 clock

The subtraction wrapped around (and panicked in checked builds).
---
 src/storage/store/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 39592f1..e556d1b 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2505,7 +2505,9 @@ impl ShardEngine {
         let block_timestamp = shard_chunk.header.as_ref().unwrap().timestamp;
         self.metrics.gauge(
             "block_delay_seconds",
-            FarcasterTime::current().to_u64() - block_timestamp,
+            FarcasterTime::current()
+                .to_u64()
+                .saturating_sub(block_timestamp),
         );
 
         let trie_size = self.stores.trie.items()?;
-- 
2.43.0


From aa50d422f0b72f495ec1f467e34c3e228acffa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 08/12] fix: prune and revoke in the same order on every node

The order of a HashSet gave the hub events of a block different ids from
node to node.
---
 src/storage/store/engine.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index e556d1b..c63e173 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -36,7 +36,7 @@ use informalsystems_malachitebft_core_types::Round;
 use itertools::Itertools;
 use merkle_trie::TrieKey;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 use std::str;
 use std::string::ToString;
 use std::sync::Arc;
@@ -1243,8 +1243,9 @@ impl ShardEngine {
         let mut pruned_messages_count = 0;
         let mut revoked_messages_count = 0;
         let mut events = vec![];
-        let mut message_types_to_prune = HashSet::new();
-        let mut revoked_signers = HashSet::new();
+        // Ordered, so that every node gives the events that follow the same ids.
+        let mut message_types_to_prune = BTreeSet::new();
+        let mut revoked_signers = BTreeSet::new();
 
         let mut validation_errors = vec![];
 
-- 
2.43.0


From 4b90f26b7bdf3146a03b3db9545bf43ef5735102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 09/12] fix: store a block together with the state it leads to

A crash between the two commits left the state of the block without the block, which could then never be applied again (its events would get other sequence numbers).
---
 src/storage/store/block.rs        | 22 ++++++++++++++++++++--
 src/storage/store/block_engine.rs |  9 +++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/storage/store/block.rs b/src/storage/store/block.rs
index 7fd0f86..9a0886a 100644
--- a/src/storage/store/block.rs
+++ b/src/storage/store/block.rs
@@ -3,7 +3,7 @@ use crate::core::error::HubError;
 use crate::proto;
 use crate::proto::Block;
 use crate::storage::constants::RootPrefix;
-use crate::storage::db::{PageOptions, RocksDB, RocksdbError};
+use crate::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch, RocksdbError};
 use prost::Message;
 use std::sync::Arc;
 use thiserror::Error;
@@ -166,6 +166,16 @@ pub fn get_blocks_in_range(
 
 fn put_block(db: &RocksDB, block: &Block) -> Result<(), BlockStorageError> {
     let mut txn = db.txn();
+    put_block_transaction(db, block, &mut txn)?;
+    db.commit(txn)?;
+    Ok(())
+}
+
+fn put_block_transaction(
+    db: &RocksDB,
+    block: &Block,
+    txn: &mut RocksDbTransactionBatch,
+) -> Result<(), BlockStorageError> {
     let header = block
         .header
         .as_ref()
@@ -183,7 +193,6 @@ fn put_block(db: &RocksDB, block: &Block) -> Result<(), BlockStorageError> {
         txn.put(timestamp_index_key, primary_key);
     }
 
-    db.commit(txn)?;
     Ok(())
 }
 
@@ -202,6 +211,15 @@ impl BlockStore {
         put_block(&self.db, block)
     }
 
+    /// Adds the block to `txn`, so that it is stored together with the state it leads to.
+    pub fn put_block_transaction(
+        &self,
+        block: &Block,
+        txn: &mut RocksDbTransactionBatch,
+    ) -> Result<(), BlockStorageError> {
+        put_block_transaction(&self.db, block, txn)
+    }
+
     #[inline]
     pub fn get_first_block(&self) -> Result<Option<Block>, BlockStorageError> {
         get_first_or_last_block(&self.db, FirstOrLast::First)
diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index c6104d0..fe92f67 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -2248,11 +2248,16 @@ impl BlockEngine {
                     panic!("State change commit failed: {}", err);
                 }
                 Ok(()) => {
-                    self.db.commit(txn).unwrap();
-                    let result = self.stores.block_store.put_block(block);
+                    // The block goes into the same commit as the state it leads to: after a
+                    // crash between the two, the block could never be applied again.
+                    let result = self
+                        .stores
+                        .block_store
+                        .put_block_transaction(block, &mut txn);
                     if result.is_err() {
                         error!("Failed to store block: {:?}", result.err());
                     }
+                    self.db.commit(txn).unwrap();
                     self.stores.trie.reload(&self.db).unwrap();
                     self.metrics
                         .publish_transaction_counts(&block.transactions, ProposalSource::Commit);
-- 
2.43.0


From 847559b5b6940a5a067f04499ff5052c40a78651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 10/12] fix: keep block events in order when grouping messages
 into transactions

Block events are only replayed in the order of their sequence numbers, but transactions were proposed in the arbitrary order of a hash map by fid, so that a shard dropped the events of a block of shard 0 that concerns several fids.
---
 src/storage/store/mempool_poller.rs | 49 +++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/storage/store/mempool_poller.rs b/src/storage/store/mempool_poller.rs
index 9a3fd92..5c09033 100644
--- a/src/storage/store/mempool_poller.rs
+++ b/src/storage/store/mempool_poller.rs
@@ -3,6 +3,7 @@ use crate::proto::{self, block_event_data, FarcasterNetwork, Transaction, Valida
 use crate::storage::store::account::OnchainEventStorageError;
 use crate::utils::statsd_wrapper::StatsdClientWrapper;
 use itertools::Itertools;
+use std::collections::HashMap;
 use std::string::ToString;
 use std::time::Duration;
 use thiserror::Error;
@@ -132,21 +133,27 @@ impl MempoolPoller {
         }
     }
 
+    fn empty_transaction(fid: u64) -> Transaction {
+        Transaction {
+            fid,
+            account_root: vec![], // Starts empty, will be updated after replay
+            system_messages: vec![],
+            user_messages: vec![],
+        }
+    }
+
     // Groups messages by fid and creates a transaction for each fid
     pub fn create_transactions_from_mempool(
         messages: Vec<MempoolMessage>,
     ) -> Result<Vec<Transaction>, MempoolPollerError> {
-        let mut transactions = vec![];
+        let mut transactions: Vec<Transaction> = vec![];
+        let mut block_events = vec![];
 
         let grouped_messages = messages.iter().into_group_map_by(|msg| msg.fid());
         let unique_fids = grouped_messages.keys().len();
+        let mut transactions_by_fid = HashMap::new();
         for (fid, messages) in grouped_messages {
-            let mut transaction = Transaction {
-                fid: fid as u64,
-                account_root: vec![], // Starts empty, will be updated after replay
-                system_messages: vec![],
-                user_messages: vec![],
-            };
+            let mut transaction = Self::empty_transaction(fid);
 
             // TODO(aditi): Maybe worth adding a helper function to translate mempool message to system message.
             for msg in &messages {
@@ -157,11 +164,7 @@ impl MempoolPoller {
                     MempoolMessage::BlockEvent {
                         for_shard: _,
                         message,
-                    } => transaction.system_messages.push(ValidatorMessage {
-                        on_chain_event: None,
-                        fname_transfer: None,
-                        block_event: Some(message.clone()),
-                    }),
+                    } => block_events.push((fid, message.clone())),
                     MempoolMessage::FnameTransfer(fname_transfer) => {
                         transaction.system_messages.push(ValidatorMessage {
                             on_chain_event: None,
@@ -181,9 +184,29 @@ impl MempoolPoller {
             }
 
             if !transaction.user_messages.is_empty() || !transaction.system_messages.is_empty() {
-                transactions.push(transaction);
+                transactions_by_fid.insert(fid, transaction);
+            }
+        }
+
+        // Block events are only replayed in the order of their sequence numbers (one that isn't
+        // next is dropped), so grouping by fid must not reorder them: start another transaction
+        // for the fid if its block events are not consecutive.
+        block_events.sort_by_key(|(_, block_event)| block_event.seqnum());
+        for (fid, block_event) in block_events {
+            if transactions.last().map(|transaction| transaction.fid) != Some(fid) {
+                let transaction = transactions_by_fid.remove(&fid);
+                transactions.push(transaction.unwrap_or_else(|| Self::empty_transaction(fid)));
+            }
+            if let Some(transaction) = transactions.last_mut() {
+                transaction.system_messages.push(ValidatorMessage {
+                    on_chain_event: None,
+                    fname_transfer: None,
+                    block_event: Some(block_event),
+                });
             }
         }
+        transactions.extend(transactions_by_fid.into_values());
+
         info!(
             transactions = transactions.len(),
             messages = messages.len(),
-- 
2.43.0


From 6a6bbc6771946d938f5097b53745438a33016646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:37 +0000
Subject: [PATCH 11/12] fix: report a key message or lend that would not be
 merged when trying it out

---
 src/storage/store/block_engine.rs | 37 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index fe92f67..d70483d 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -1522,21 +1522,27 @@ impl BlockEngine {
                 Ok(channel_dispatch) => match message.msg_type() {
                     MessageType::LendStorage => {
                         if version.is_enabled(ProtocolFeature::StorageLending) {
-                            if let Ok(events) = self.merge_message(message, txn_batch, version) {
-                                for event in &events {
-                                    if let Some(proto::hub_event::Body::MergeMessageBody(body)) =
-                                        event.body.as_ref()
-                                    {
-                                        // Both views must see the same lend, or verification
-                                        // admission and lend validation drift apart.
-                                        self.on_merge_message(&mut storage_slot, body)?;
-                                        self.on_merge_message(
-                                            &mut verification_storage_slot,
+                            match self.merge_message(message, txn_batch, version) {
+                                Ok(events) => {
+                                    for event in &events {
+                                        if let Some(proto::hub_event::Body::MergeMessageBody(
                                             body,
-                                        )?;
+                                        )) = event.body.as_ref()
+                                        {
+                                            // Both views must see the same lend, or verification
+                                            // admission and lend validation drift apart.
+                                            self.on_merge_message(&mut storage_slot, body)?;
+                                            self.on_merge_message(
+                                                &mut verification_storage_slot,
+                                                body,
+                                            )?;
+                                        }
                                     }
+                                    hub_events.extend(events);
                                 }
-                                hub_events.extend(events);
+                                // Only `simulate_message` reads this: it must not report
+                                // success for a lend that is not stored.
+                                Err(err) => validation_errors.push(err),
                             }
                         }
                     }
@@ -1545,8 +1551,11 @@ impl BlockEngine {
                         // storage units. Emitted MergeMessageBody propagates to shards via
                         // BlockEvent so their local DBs can replay the same merge.
                         if version.is_enabled(ProtocolFeature::GaslessSigners) {
-                            if let Ok(events) = self.merge_message(message, txn_batch, version) {
-                                hub_events.extend(events);
+                            match self.merge_message(message, txn_batch, version) {
+                                Ok(events) => hub_events.extend(events),
+                                // Nonce, custody and ownership are all judged by the merge, so
+                                // its errors are what `simulate_message` has to report.
+                                Err(err) => validation_errors.push(err),
                             }
                         }
                     }
-- 
2.43.0


From b043b6a58e36ec1706ba6ee2841e8cdd9e9d0ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:37 +0000
Subject: [PATCH 12/12] fix: turn away gossiped messages without data or with a
 malformed hash instead of panicking

---
 src/mempool/mempool.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index b5f11a4..fe43c9a 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -25,6 +25,7 @@ use crate::{
         store::{
             account::{
                 get_message_by_key, make_message_primary_key, make_ts_hash, type_to_set_postfix,
+                HASH_LENGTH,
             },
             mempool_poller::MempoolMessage,
             stores::Stores,
@@ -556,6 +557,7 @@ impl ReadNodeMempool {
     }
 
     fn message_is_valid(&mut self, shard: u32, message: &MempoolMessage) -> Result<(), HubError> {
+        check_well_formed(message)?;
         if self.message_already_exists(shard, message) {
             return Err(HubError::duplicate("message has already been merged"));
         }
@@ -602,6 +604,21 @@ impl ReadNodeMempool {
     }
 }
 
+/// Gossiped messages reach the mempool before anything has validated them. The mempool orders and
+/// looks up user messages by timestamp and hash, so one without data or with a hash of the wrong
+/// length (which could never merge) has to be turned away here.
+fn check_well_formed(message: &MempoolMessage) -> Result<(), HubError> {
+    if let MempoolMessage::UserMessage(user_msg) = message {
+        if user_msg.data.is_none() {
+            return Err(HubError::validation_failure("message data is missing"));
+        }
+        if user_msg.hash.len() != HASH_LENGTH {
+            return Err(HubError::validation_failure("message hash is not 20 bytes"));
+        }
+    }
+    Ok(())
+}
+
 /// True iff the message body is a `KeyAddBody`. Defensive to missing `data` — a malformed
 /// message without `data` cannot be a KEY_ADD and therefore shouldn't trip the KEY_ADD limiter;
 /// it will fail later validation on its own.
@@ -924,6 +941,7 @@ impl Mempool {
         message: MempoolMessage,
         source: MempoolSource,
     ) -> Result<(), HubError> {
+        check_well_formed(&message)?;
         let shard_ids = self.read_node_mempool.route_mempool_message(&message);
 
         let mut errors = vec![];
-- 
2.43.0

