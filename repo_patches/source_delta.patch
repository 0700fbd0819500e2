From d9f5546d460c5e62afbf81ad7e156124a2503296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 01/48] fix: report store read errors instead of treating them
 as missing entries

---
 db/src/core/core_db.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/db/src/core/core_db.rs b/db/src/core/core_db.rs
index 5237dc5..16730d1 100644
--- a/db/src/core/core_db.rs
+++ b/db/src/core/core_db.rs
@@ -59,14 +59,13 @@ impl CoreDB {
     ) -> Result<Option<Vec<u8>>, CoreDBError> {
         let db = self.db.clone();
         let key_vec = key.to_vec();
-        Ok(tokio::task::spawn_blocking(move || {
+        tokio::task::spawn_blocking(move || -> Result<Option<Vec<u8>>, CoreDBError> {
             let cf = db
                 .cf_handle(cf_name)
-                .ok_or(CoreDBError::ColumnFamilyNotFound(cf_name.to_string()))
-                .ok()?;
-            db.get_cf(&cf, &key_vec).ok()?
+                .ok_or(CoreDBError::ColumnFamilyNotFound(cf_name.to_string()))?;
+            Ok(db.get_cf(&cf, &key_vec)?)
         })
-        .await?)
+        .await?
     }
 
     pub(crate) async fn put_entry(
-- 
2.43.0


From efda4252334936add961a352bbc3cae2ab55885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 02/48] fix: report iterator errors while searching the longest
 trie prefix

---
 state/state-merkle-v2/src/merkle_db.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/state/state-merkle-v2/src/merkle_db.rs b/state/state-merkle-v2/src/merkle_db.rs
index cbba6fb..44dc7f3 100644
--- a/state/state-merkle-v2/src/merkle_db.rs
+++ b/state/state-merkle-v2/src/merkle_db.rs
@@ -8,7 +8,7 @@ use fr_common::{MerkleRoot, StateKey};
 use fr_db::{
     core::{
         cached_db::{CachedDB, DBKey},
-        core_db::CoreDB,
+        core_db::{CoreDB, CoreDBError},
     },
     ColumnFamily, Direction, IteratorMode,
 };
@@ -65,13 +65,14 @@ impl MerkleDB {
         tokio::task::spawn_blocking(move || -> Result<_, StateMerkleError> {
             let mut longest_prefix = MerklePath(BitVec::new());
 
-            let mut iter = core_db.iterator_cf(
+            let iter = core_db.iterator_cf(
                 nodes_cf_handle,
                 IteratorMode::From(&start_key, Direction::Forward),
             )?;
 
             // Iterate on DB keys until we find a DB key which becomes the longest prefix of `state_key`
-            while let Some(Ok((candidate_db_key, _))) = iter.next() {
+            for item in iter {
+                let (candidate_db_key, _) = item.map_err(CoreDBError::from)?;
                 let candidate_path = MerklePath::from_db_key(&candidate_db_key)?;
 
                 // Reached to a DB key with larger value; no need to check further
-- 
2.43.0


From 58669ba34138348e604e2c934da040fdfa4ebc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 03/48] fix: do not carry a failed trie update over into the
 next commit

---
 state/src/merkle_interface/manager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state/src/merkle_interface/manager.rs b/state/src/merkle_interface/manager.rs
index 3d82a74..21fd8f5 100644
--- a/state/src/merkle_interface/manager.rs
+++ b/state/src/merkle_interface/manager.rs
@@ -696,6 +696,9 @@ impl MerkleManager {
             return Ok(None);
         }
 
+        // Drop leftovers of an earlier attempt that failed (or was cancelled) midway
+        self.merkle_change_set.clear();
+
         // Update nodes in `MerkleChangeSet`
         self.insert_dirty_cache_entries_as_leaf_writes(dirty_entries)
             .await?;
-- 
2.43.0


From 028ae47db1d69e7b84747dfd7190f1f75a375925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 04/48] fix: commit a state transition atomically with respect
 to crashes

---
 db/src/core/cached_db.rs                      |  7 ++-
 state/src/manager.rs                          | 62 +++++++++----------
 .../state-merkle-v2/src/merkle_change_set.rs  | 15 ++---
 state/state-merkle-v2/src/merkle_db.rs        |  8 +--
 4 files changed, 43 insertions(+), 49 deletions(-)

diff --git a/db/src/core/cached_db.rs b/db/src/core/cached_db.rs
index c4f4d34..52b35d6 100644
--- a/db/src/core/cached_db.rs
+++ b/db/src/core/cached_db.rs
@@ -158,7 +158,12 @@ where
         writes: &[(K, Option<V>)],
     ) -> Result<(), CachedDBError> {
         self.core.commit_write_batch(batch).await?;
+        self.sync_cache(writes);
+        Ok(())
+    }
 
+    /// Syncs up the cache with writes that are already committed to the DB.
+    pub fn sync_cache(&self, writes: &[(K, Option<V>)]) {
         for (key, val) in writes {
             match val {
                 Some(val) => {
@@ -167,7 +172,5 @@ where
                 None => self.cache.invalidate(key),
             }
         }
-
-        Ok(())
     }
 }
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 6661d6f..af6d283 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -804,27 +804,7 @@ impl StateManager {
         &self,
         artifact: &StateCommitArtifact,
     ) -> Result<(), StateManagerError> {
-        // Prepare StateDB write batch
-        let state_db_write_set = &artifact
-            .db_write_set_with_root
-            .db_write_set
-            .state_db_write_set;
-
-        let mut state_db_write_batch = WriteBatch::default();
-        let mut state_writes = Vec::with_capacity(state_db_write_set.len());
-        let state_db_cf = self.state_db.cf_handle()?;
-        for (k, v) in state_db_write_set {
-            state_writes.push((k.clone(), Some(v.clone())));
-            state_db_write_batch.put_cf(state_db_cf, k.as_db_key(), v.clone().into_db_value()?);
-        }
-
-        // Commit to the MerkleDB
-        self.merkle_manager
-            .apply_dirty_cache_commit(artifact.db_write_set_with_root.clone())
-            .await?;
-
-        // Commit to the StateDB
-        self.commit_to_state_db(state_db_write_batch, &state_writes)
+        self.commit_write_set(artifact.db_write_set_with_root.clone())
             .await?;
 
         // Sync up the state cache with the global state.
@@ -845,27 +825,43 @@ impl StateManager {
             return Ok(());
         }
 
-        // Commit to MerkleDB and take the produced write set for the StateDB
-        let state_db_writes = self
+        if let Some(db_write_set_with_root) = self
             .merkle_manager
-            .commit_dirty_cache(dirty_entries.clone())
-            .await?;
+            .prepare_dirty_cache_commit(dirty_entries.clone())
+            .await?
+        {
+            self.commit_write_set(db_write_set_with_root).await?;
+        }
 
-        // Commit to the StateDB
+        // Sync up the state cache with the global state.
+        self.cache.apply_direct_commit(&dirty_entries);
+
+        Ok(())
+    }
+
+    /// Commits the given write set into the `StateDB` and then the `MerkleDB`.
+    ///
+    /// `StateDB` entries are keyed by their hashes, hence they are not part of the global state
+    /// until the Merkle trie refers to them. Writing them ahead of the single atomic batch of
+    /// `MerkleDB` makes the state transition take effect either entirely or not at all.
+    async fn commit_write_set(
+        &self,
+        db_write_set_with_root: DBWriteSetWithRoot,
+    ) -> Result<(), StateManagerError> {
+        let state_db_write_set = &db_write_set_with_root.db_write_set.state_db_write_set;
         let mut state_db_write_batch = WriteBatch::default();
-        let mut state_writes = Vec::with_capacity(state_db_writes.len());
+        let mut state_writes = Vec::with_capacity(state_db_write_set.len());
         let state_db_cf = self.state_db.cf_handle()?;
-        for (k, v) in state_db_writes {
+        for (k, v) in state_db_write_set {
             state_writes.push((k.clone(), Some(v.clone())));
-            state_db_write_batch.put_cf(state_db_cf, k.as_db_key(), v.into_db_value()?);
+            state_db_write_batch.put_cf(state_db_cf, k.as_db_key(), v.clone().into_db_value()?);
         }
         self.commit_to_state_db(state_db_write_batch, &state_writes)
             .await?;
 
-        // Sync up the state cache with the global state.
-        self.cache.apply_direct_commit(&dirty_entries);
-
-        Ok(())
+        self.merkle_manager
+            .apply_dirty_cache_commit(db_write_set_with_root)
+            .await
     }
 
     async fn commit_to_state_db(
diff --git a/state/state-merkle-v2/src/merkle_change_set.rs b/state/state-merkle-v2/src/merkle_change_set.rs
index b07a291..a3ccaff 100644
--- a/state/state-merkle-v2/src/merkle_change_set.rs
+++ b/state/state-merkle-v2/src/merkle_change_set.rs
@@ -15,10 +15,8 @@ type MerklePathWrite = Option<MerklePath>;
 pub type MerkleDBNodesWrite = (MerklePath, MerkleNodeWrite);
 pub type MerkleDBLeafPathsWrite = (StateKey, MerklePathWrite);
 
-pub struct MerkleDBWriteBatch {
-    pub(crate) nodes: WriteBatch,
-    pub(crate) leaf_paths: WriteBatch,
-}
+/// A write batch holding both node and leaf path entries, so that they get committed atomically.
+pub struct MerkleDBWriteBatch(pub(crate) WriteBatch);
 
 #[derive(Clone, Default)]
 pub struct DBWriteSet {
@@ -49,21 +47,20 @@ impl DBWriteSet {
         merkle_nodes_cf: &ColumnFamily,
         merkle_leaf_paths_cf: &ColumnFamily,
     ) -> Result<MerkleDBWriteBatch, StateMerkleError> {
-        let mut nodes = WriteBatch::default();
-        let mut leaf_paths = WriteBatch::default();
+        let mut batch = WriteBatch::default();
 
         Self::append_write_entries_to_write_batch(
             merkle_nodes_cf,
-            &mut nodes,
+            &mut batch,
             std::mem::take(&mut self.merkle_db_nodes_write_set),
         )?;
         Self::append_write_entries_to_write_batch(
             merkle_leaf_paths_cf,
-            &mut leaf_paths,
+            &mut batch,
             std::mem::take(&mut self.merkle_db_leaf_paths_write_set),
         )?;
 
-        Ok(MerkleDBWriteBatch { nodes, leaf_paths })
+        Ok(MerkleDBWriteBatch(batch))
     }
 }
 
diff --git a/state/state-merkle-v2/src/merkle_db.rs b/state/state-merkle-v2/src/merkle_db.rs
index 44dc7f3..42a07a8 100644
--- a/state/state-merkle-v2/src/merkle_db.rs
+++ b/state/state-merkle-v2/src/merkle_db.rs
@@ -155,7 +155,7 @@ impl MerkleDB {
         Ok(())
     }
 
-    /// Commit write batches for node entries and leaf node entries into the MerkleDB.
+    /// Commit node entries and leaf path entries into the MerkleDB as a single atomic batch.
     pub async fn commit_write_batch(
         &self,
         batch: MerkleDBWriteBatch,
@@ -163,11 +163,9 @@ impl MerkleDB {
         leaf_paths_writes: &[MerkleDBLeafPathsWrite],
     ) -> Result<(), StateMerkleError> {
         self.nodes
-            .commit_write_batch_and_sync_cache(batch.nodes, nodes_writes)
-            .await?;
-        self.leaf_paths
-            .commit_write_batch_and_sync_cache(batch.leaf_paths, leaf_paths_writes)
+            .commit_write_batch_and_sync_cache(batch.0, nodes_writes)
             .await?;
+        self.leaf_paths.sync_cache(leaf_paths_writes);
         Ok(())
     }
 }
-- 
2.43.0


From 15db4d7b94836b646662085ca47a9b00631408f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 05/48] fix: keep uncommitted state changes apart from the
 evictable state cache

---
 state/src/cache.rs   | 313 +++++++++++++++++++++++++------------------
 state/src/manager.rs | 172 ++++++++++--------------
 2 files changed, 251 insertions(+), 234 deletions(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index c548ef4..67931e8 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -3,10 +3,10 @@ use crate::{
     error::StateManagerError,
     state_utils::{StateComponent, StateEntryType},
 };
-use fr_common::{ByteEncodable, StateKey};
+use fr_common::{Octets, StateKey};
 use mini_moka::sync::{Cache, ConcurrentCacheExt};
 use std::{
-    collections::HashSet,
+    collections::HashMap,
     sync::{Arc, Mutex, MutexGuard},
 };
 #[derive(Debug, Clone, PartialEq)]
@@ -50,86 +50,136 @@ impl CacheEntry {
         self.status = CacheEntryStatus::Dirty(state_mut);
     }
 
-    fn revert_to_clean(&mut self) {
-        self.value = self.clean_snapshot.clone();
-        self.status = CacheEntryStatus::Clean;
-    }
-
     pub fn mark_clean_and_snapshot(&mut self) {
         self.status = CacheEntryStatus::Clean;
         self.clean_snapshot = self.value.clone(); // snapshot clean value
     }
 }
 
+/// Uncommitted changes of the global state.
+#[derive(Default)]
+struct DirtyEntries {
+    /// Entries with `Dirty` status. Those are never evicted.
+    entries: HashMap<StateKey, CacheEntry>,
+    /// Number of commitments applied to the state cache so far.
+    commits: u64,
+}
+
 /// A thread-safe mapping from state keys to their corresponding cache entries.
 pub struct StateCache {
-    /// A state cache which ensures that dirty cache entries never get evicted.
+    /// Cache of the committed state entries, which can be evicted at any time.
     inner: Cache<StateKey, CacheEntry>,
-    /// Tracks state keys of all "dirty" cache entries.
-    dirty_keys: Mutex<HashSet<StateKey>>,
+    /// Uncommitted state entries, which take precedence over the committed ones.
+    dirty: Mutex<DirtyEntries>,
 }
 
 impl StateCache {
-    /// Creates a `StateCache` with the given max capacity.
-    /// Cache entries with `Dirty` status never gets evicted since they have zero weight.
+    /// Creates a `StateCache` with the given max capacity, which only counts clean cache entries.
     pub fn new(max_capacity: usize) -> Self {
         Self {
-            inner: Cache::builder()
-                .weigher(|_key, entry: &CacheEntry| -> u32 { u32::from(!entry.is_dirty()) })
-                .max_capacity(max_capacity as u64)
-                .build(),
-            dirty_keys: Mutex::new(HashSet::new()),
+            inner: Cache::builder().max_capacity(max_capacity as u64).build(),
+            dirty: Mutex::new(DirtyEntries::default()),
         }
     }
 
-    fn dirty_keys_guard(&self) -> MutexGuard<'_, HashSet<StateKey>> {
-        self.dirty_keys.lock().unwrap_or_else(|poisoned| {
-            tracing::error!("State cache dirty_keys lock poisoned; continuing with inner data");
+    fn dirty_guard(&self) -> MutexGuard<'_, DirtyEntries> {
+        self.dirty.lock().unwrap_or_else(|poisoned| {
+            tracing::error!("State cache dirty entries lock poisoned; continuing with inner data");
             poisoned.into_inner()
         })
     }
 
-    fn get_dirty_state_keys(&self) -> Vec<StateKey> {
-        let guard = self.dirty_keys_guard();
-        guard.iter().cloned().collect()
-    }
-
-    fn insert_to_dirty_state_key_set(&self, state_key: StateKey) {
-        self.dirty_keys_guard().insert(state_key);
+    pub(crate) fn get_entry(&self, key: &StateKey) -> Option<CacheEntry> {
+        let dirty = self.dirty_guard();
+        dirty
+            .entries
+            .get(key)
+            .cloned()
+            .or_else(|| self.inner.get(key))
     }
 
-    fn remove_dirty_state_key(&self, state_key: &StateKey) {
-        self.dirty_keys_guard().remove(state_key);
+    pub(crate) fn get_entry_status(&self, key: &StateKey) -> Option<CacheEntryStatus> {
+        self.get_entry(key).map(|entry| entry.status)
     }
 
-    fn clear_dirty_state_keys(&self) {
-        self.dirty_keys_guard().clear();
+    /// Inserts a cache entry. Clean entries never replace uncommitted changes of the same key.
+    pub(crate) fn insert_entry(&self, key: StateKey, entry: CacheEntry) {
+        let mut dirty = self.dirty_guard();
+        if entry.is_dirty() {
+            dirty.entries.insert(key, entry);
+        } else {
+            self.inner.insert(key, entry);
+        }
     }
 
-    pub(crate) fn get_entry(&self, key: &StateKey) -> Option<CacheEntry> {
-        self.inner.get(key)
+    /// Number of commitments applied so far. Must be obtained prior to reading a state entry from
+    /// the DB, if the entry is going to be cached with `insert_clean_entry`.
+    pub(crate) fn commit_count(&self) -> u64 {
+        self.dirty_guard().commits
     }
 
-    pub(crate) fn get_entry_status(&self, key: &StateKey) -> Option<CacheEntryStatus> {
-        self.inner.get(key).map(|entry| entry.status.clone())
+    /// Caches a state entry read from the DB, unless the value might already be outdated since
+    /// another commitment has been applied after `commits_at_read`.
+    pub(crate) fn insert_clean_entry(
+        &self,
+        key: StateKey,
+        value: StateEntryType,
+        commits_at_read: u64,
+    ) {
+        let dirty = self.dirty_guard();
+        if dirty.commits == commits_at_read {
+            self.inner.insert(key, CacheEntry::new(value));
+        }
     }
 
-    pub(crate) fn insert_entry(&self, key: StateKey, entry: CacheEntry) {
-        if entry.is_dirty() {
-            self.insert_to_dirty_state_key_set(key.clone());
-        }
-        self.inner.insert(key, entry);
+    /// Inserts a new state entry. Fails if the entry already exists as an uncommitted one.
+    ///
+    /// The caller is responsible for ensuring that the entry doesn't exist in the DB, unless
+    /// it is going to be removed by the pending changes.
+    pub(crate) fn add_entry(
+        &self,
+        key: StateKey,
+        value: StateEntryType,
+    ) -> Result<(), StateManagerError> {
+        let value = Arc::new(value);
+        let mut dirty = self.dirty_guard();
+        let entry = match dirty.entries.get(&key) {
+            // The entry still exists in the DB; the removal and the addition make an update.
+            Some(removed) if removed.status == CacheEntryStatus::Dirty(StateMut::Remove) => {
+                CacheEntry {
+                    clean_snapshot: removed.clean_snapshot.clone(),
+                    value,
+                    status: CacheEntryStatus::Dirty(StateMut::Update),
+                }
+            }
+            Some(_) => {
+                return Err(StateManagerError::StateEntryAlreadyExists(hex::encode(
+                    &key,
+                )))
+            }
+            None => CacheEntry {
+                clean_snapshot: value.clone(),
+                value,
+                status: CacheEntryStatus::Dirty(StateMut::Add),
+            },
+        };
+        dirty.entries.insert(key, entry);
+        Ok(())
     }
 
     // Note: test-only
     pub(crate) fn invalidate_all(&self) {
+        let mut dirty = self.dirty_guard();
+        dirty.entries.clear();
         self.inner.invalidate_all();
     }
 
+    /// Mutates an existing state entry.
     pub(crate) fn with_mut_entry<T, F, E>(
         &self,
         state_key: &StateKey,
         state_mut: StateMut,
+        current: T,
         f: F,
     ) -> Result<(), StateManagerError>
     where
@@ -137,68 +187,110 @@ impl StateCache {
         F: FnOnce(&mut T) -> Result<(), E>,
         StateManagerError: From<E>,
     {
-        // Cloned data
-        let mut cache_entry = self
-            .inner
-            .get(state_key)
-            .ok_or(StateManagerError::CacheEntryNotFound)?;
+        let current = current.into_entry_type();
+        self.mutate_entry(state_key, state_mut, current.clone(), |value| {
+            // Special handling for the test-only `Raw` type
+            if let StateEntryType::Raw(_) = value.as_ref() {
+                *value = Arc::new(current);
+            }
+            let entry_mut = T::from_entry_type_mut(Arc::make_mut(value))
+                .ok_or(StateManagerError::UnexpectedEntryType)?;
+            f(entry_mut)?; // Call the closure to apply the state mutation
+            Ok(())
+        })
+    }
 
-        let entry_mut = T::from_entry_type_mut(Arc::make_mut(&mut cache_entry.value))
-            .ok_or(StateManagerError::UnexpectedEntryType)?;
+    /// Replaces an existing state entry with `new_val` of the test-only `Raw` type.
+    pub(crate) fn replace_with_raw_entry(
+        &self,
+        state_key: &StateKey,
+        state_mut: StateMut,
+        current: Vec<u8>,
+        new_val: Vec<u8>,
+    ) -> Result<(), StateManagerError> {
+        let current = StateEntryType::Raw(Octets::from_vec(current));
+        self.mutate_entry(state_key, state_mut, current, |value| {
+            *value = Arc::new(StateEntryType::Raw(Octets::from_vec(new_val)));
+            Ok(())
+        })
+    }
 
-        f(entry_mut)?; // Call the closure to apply the state mutation
+    /// Marks an existing state entry as dirty after applying the mutation.
+    /// `current` is the value of the state entry, in case it is not found from the state cache.
+    fn mutate_entry<F>(
+        &self,
+        state_key: &StateKey,
+        state_mut: StateMut,
+        current: StateEntryType,
+        f: F,
+    ) -> Result<(), StateManagerError>
+    where
+        F: FnOnce(&mut Arc<StateEntryType>) -> Result<(), StateManagerError>,
+    {
+        let mut dirty = self.dirty_guard();
+        let mut cache_entry = dirty
+            .entries
+            .get(state_key)
+            .cloned()
+            .or_else(|| self.inner.get(state_key))
+            .unwrap_or_else(|| CacheEntry::new(current));
 
-        // If cache entry is dirty with `StateMut::Add` and the new `state_mut` is `StateMut::Update`,
-        // keep the entry marked with `StateMut::Add`. This allows mutating new entries before
-        // they get committed to the db.
-        if cache_entry.status != CacheEntryStatus::Dirty(StateMut::Add)
-            || state_mut != StateMut::Update
-        {
-            self.insert_to_dirty_state_key_set(state_key.clone());
-            cache_entry.mark_dirty(state_mut)
+        if cache_entry.status == CacheEntryStatus::Dirty(StateMut::Remove) {
+            return Err(StateManagerError::StateKeyNotInitialized(
+                state_key.encode_hex(),
+            ));
         }
 
-        self.inner.insert(state_key.clone(), cache_entry);
-        Ok(())
-    }
+        f(&mut cache_entry.value)?;
 
-    pub(crate) fn mark_entry_clean_and_snapshot(
-        &self,
-        key: &StateKey,
-    ) -> Result<(), StateManagerError> {
-        let mut cache_entry = self
-            .inner
-            .get(key)
-            .ok_or(StateManagerError::CacheEntryNotFound)?;
-        cache_entry.mark_clean_and_snapshot();
-        self.remove_dirty_state_key(key);
-        self.inner.insert(key.clone(), cache_entry);
+        if cache_entry.status == CacheEntryStatus::Dirty(StateMut::Add) {
+            if state_mut == StateMut::Remove {
+                // The entry is not committed to the DB yet; there is nothing left to commit.
+                dirty.entries.remove(state_key);
+                return Ok(());
+            }
+            // Keep the entry marked with `StateMut::Add`. This allows mutating new entries before
+            // they get committed to the db.
+        } else {
+            cache_entry.mark_dirty(state_mut);
+        }
+
+        dirty.entries.insert(state_key.clone(), cache_entry);
         Ok(())
     }
 
     pub(crate) fn collect_dirty(&self) -> Vec<(StateKey, CacheEntry)> {
-        let dirty_keys = self.get_dirty_state_keys();
-        dirty_keys
-            .into_iter()
-            .filter_map(|key| self.get_entry(&key).map(|entry| (key, entry)))
+        self.dirty_guard()
+            .entries
+            .iter()
+            .map(|(key, entry)| (key.clone(), entry.clone()))
             .collect()
     }
 
-    /// Syncs up the state cache with the global state after direct state commitment from the
-    /// dirty state cache, by removing cache entries that are deleted from the global state and
-    /// marking added or updated entries as clean.
-    pub(crate) fn apply_direct_commit(&self, dirty_entries_from_cache: &[(StateKey, CacheEntry)]) {
-        for (key, entry) in dirty_entries_from_cache.iter() {
-            // Remove cache entries that are removed from the global state
+    /// Updates clean cache entries with the committed ones, evicting the removed entries.
+    fn apply_committed_entries(&self, committed_entries: &[(StateKey, CacheEntry)]) {
+        for (key, entry) in committed_entries {
             if let CacheEntryStatus::Dirty(StateMut::Remove) = entry.status {
                 self.inner.invalidate(key);
-            } else if let Some(mut entry_mut) = self.inner.get(key) {
-                entry_mut.mark_clean_and_snapshot();
-                self.inner.insert(key.clone(), entry_mut);
+            } else {
+                let mut clean_entry = entry.clone();
+                clean_entry.mark_clean_and_snapshot();
+                self.inner.insert(key.clone(), clean_entry);
             }
         }
         self.inner.sync();
-        self.clear_dirty_state_keys();
+    }
+
+    /// Syncs up the state cache with the global state after direct state commitment from the
+    /// dirty state cache, by removing cache entries that are deleted from the global state and
+    /// marking added or updated entries as clean.
+    pub(crate) fn apply_direct_commit(&self, dirty_entries_from_cache: &[(StateKey, CacheEntry)]) {
+        let mut dirty = self.dirty_guard();
+        dirty.commits += 1;
+        self.apply_committed_entries(dirty_entries_from_cache);
+        for (key, _) in dirty_entries_from_cache {
+            dirty.entries.remove(key);
+        }
     }
 
     /// Applies the provided dirty cache entries from a state commit artifact of staged block
@@ -209,57 +301,14 @@ impl StateCache {
         &self,
         dirty_entries_from_staged_block: &[(StateKey, CacheEntry)],
     ) {
-        for (key, entry) in dirty_entries_from_staged_block.iter() {
-            match entry.status {
-                CacheEntryStatus::Dirty(StateMut::Remove) => {
-                    self.inner.invalidate(key);
-                }
-                CacheEntryStatus::Dirty(StateMut::Add)
-                | CacheEntryStatus::Dirty(StateMut::Update) => {
-                    let mut clean_entry = entry.clone();
-                    clean_entry.mark_clean_and_snapshot();
-                    self.inner.insert(key.clone(), clean_entry);
-                }
-                CacheEntryStatus::Clean => {
-                    // This should not happen, but keep the cache entry as-is
-                    self.inner.insert(key.clone(), entry.clone());
-                }
-            }
-        }
-        self.inner.sync();
+        let mut dirty = self.dirty_guard();
+        dirty.commits += 1;
+        self.apply_committed_entries(dirty_entries_from_staged_block);
     }
 
-    /// Rolls back all dirty cache entries to the clean status.
-    /// `Add`ed entries will be explicitly evicted from the state cache.
-    /// `Update`d or `Remove`d entries will be reverted back to the clean snapshot.
+    /// Rolls back all dirty cache entries, leaving only the committed state entries.
     pub(crate) fn rollback_dirty_cache(&self) {
-        let dirty_keys = self.get_dirty_state_keys();
-        dirty_keys.into_iter().for_each(|key| {
-            if let Some(mut entry) = self.get_entry(&key) {
-                match entry.status {
-                    CacheEntryStatus::Dirty(StateMut::Add) => {
-                        self.inner.invalidate(&key);
-                    }
-                    CacheEntryStatus::Dirty(StateMut::Update)
-                    | CacheEntryStatus::Dirty(StateMut::Remove) => {
-                        entry.revert_to_clean();
-                        self.insert_entry(key, entry);
-                    }
-                    CacheEntryStatus::Clean => {
-                        tracing::warn!(
-                            "Dirty state cache key points to clean entry. StateKey={}",
-                            key.to_hex()
-                        );
-                    }
-                }
-            } else {
-                tracing::warn!(
-                    "Dirty state cache key missing from cache. StateKey={}",
-                    key.to_hex()
-                );
-            }
-        });
-        self.clear_dirty_state_keys();
+        self.dirty_guard().entries.clear();
     }
 }
 
diff --git a/state/src/manager.rs b/state/src/manager.rs
index af6d283..53e8e39 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -531,9 +531,11 @@ impl StateManager {
     ) -> Result<Option<Vec<u8>>, StateManagerError> {
         // Check the cache
         if let Some(entry) = self.cache.get_entry(state_key) {
-            if let StateEntryType::Raw(octets) = entry.value.as_ref() {
-                return Ok(Some(octets.clone().into_vec()));
-            }
+            return match (&entry.status, entry.value.as_ref()) {
+                (CacheEntryStatus::Dirty(StateMut::Remove), _) => Ok(None),
+                (_, StateEntryType::Raw(octets)) => Ok(Some(octets.clone().into_vec())),
+                (_, state_entry) => Ok(Some(state_entry.encode()?)),
+            };
         }
         self.retrieve_state_encoded(state_key).await
     }
@@ -552,22 +554,16 @@ impl StateManager {
         state_val: Vec<u8>,
     ) -> Result<(), StateManagerError> {
         // State entry must not exist to be added
-        let state_exists = self.get_raw_state_entry_from_db(state_key).await?.is_some();
-        if state_exists {
+        if self.get_raw_state_entry(state_key).await?.is_some() {
             return Err(StateManagerError::StateEntryAlreadyExists(hex::encode(
                 state_key,
             )));
         }
 
-        self.cache.insert_entry(
+        self.cache.add_entry(
             state_key.clone(),
-            CacheEntry {
-                clean_snapshot: Arc::new(StateEntryType::Raw(Octets::from_vec(state_val.clone()))),
-                value: Arc::new(StateEntryType::Raw(Octets::from_vec(state_val))),
-                status: CacheEntryStatus::Dirty(StateMut::Add),
-            },
-        );
-        Ok(())
+            StateEntryType::Raw(Octets::from_vec(state_val)),
+        )
     }
 
     pub async fn update_raw_state_entry(
@@ -575,50 +571,30 @@ impl StateManager {
         state_key: &StateKey,
         new_val: Vec<u8>,
     ) -> Result<(), StateManagerError> {
-        // State entry must exist to be updated
-        let old_state = self.get_raw_state_entry_from_db(state_key).await?.ok_or(
-            StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
-        )?;
-        self.cache.insert_entry(
-            state_key.clone(),
-            CacheEntry {
-                clean_snapshot: Arc::new(StateEntryType::Raw(Octets::from_vec(old_state))),
-                value: Arc::new(StateEntryType::Raw(Octets::from_vec(new_val))),
-                status: CacheEntryStatus::Dirty(StateMut::Update),
-            },
-        );
-        Ok(())
+        self.mutate_raw_state_entry(state_key, StateMut::Update, new_val)
+            .await
     }
 
     pub async fn remove_raw_state_entry(
         &self,
         state_key: &StateKey,
     ) -> Result<(), StateManagerError> {
-        // State entry must exist to be removed
-        let old_state = self.get_raw_state_entry_from_db(state_key).await?.ok_or(
-            StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
-        )?;
-        self.cache.insert_entry(
-            state_key.clone(),
-            CacheEntry {
-                value: Arc::new(StateEntryType::Raw(Octets::default())),
-                clean_snapshot: Arc::new(StateEntryType::Raw(Octets::from_vec(old_state))),
-                status: CacheEntryStatus::Dirty(StateMut::Remove),
-            },
-        );
-        Ok(())
+        self.mutate_raw_state_entry(state_key, StateMut::Remove, vec![])
+            .await
     }
 
-    fn get_clean_cache_snapshot_as_state<T>(&self, state_key: &StateKey) -> Option<T>
-    where
-        T: StateComponent,
-    {
-        if let Some(entry) = self.cache.get_entry(state_key) {
-            if let Some(state_entry) = T::from_entry_type(&entry.clean_snapshot) {
-                return Some(state_entry.clone());
-            }
-        }
-        None
+    async fn mutate_raw_state_entry(
+        &self,
+        state_key: &StateKey,
+        state_mut: StateMut,
+        new_val: Vec<u8>,
+    ) -> Result<(), StateManagerError> {
+        // State entry must exist to be updated or removed
+        let old_state = self.get_raw_state_entry(state_key).await?.ok_or(
+            StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
+        )?;
+        self.cache
+            .replace_with_raw_entry(state_key, state_mut, old_state, new_val)
     }
 
     // Note: test-only
@@ -637,14 +613,40 @@ impl StateManager {
         None
     }
 
-    fn insert_clean_cache_entry_and_snapshot<T>(&self, state_key: &StateKey, state_entry: T)
+    /// Converts the cached state entry into the given type.
+    fn cached_state_entry<T>(state_entry: &StateEntryType) -> Result<T, StateManagerError>
     where
         T: StateComponent,
     {
-        self.cache.insert_entry(
+        // Special handling for the test-only `Raw` type
+        if let StateEntryType::Raw(raw_octets) = state_entry {
+            return Ok(T::decode(&mut raw_octets.as_slice())?);
+        }
+        T::from_entry_type(state_entry)
+            .cloned()
+            .ok_or(StateManagerError::UnexpectedEntryType)
+    }
+
+    /// Retrieves a committed state entry from the DB and puts it into the cache.
+    async fn load_state_entry<T>(
+        &self,
+        state_key: &StateKey,
+    ) -> Result<Option<T>, StateManagerError>
+    where
+        T: StateComponent,
+    {
+        let commits_at_read = self.cache.commit_count();
+        let Some(state_data) = self.retrieve_state_encoded(state_key).await? else {
+            return Ok(None);
+        };
+
+        let state_entry = T::decode(&mut state_data.as_slice())?;
+        self.cache.insert_clean_entry(
             state_key.clone(),
-            CacheEntry::new(T::into_entry_type(state_entry)),
+            state_entry.clone().into_entry_type(),
+            commits_at_read,
         );
+        Ok(Some(state_entry))
     }
 
     // Note: test-only
@@ -895,19 +897,16 @@ impl StateManager {
         T: StateComponent,
     {
         // Check the cache
-        if let Some(clean_snapshot) = self.get_clean_cache_snapshot_as_state(state_key) {
-            return Ok(Some(clean_snapshot));
+        if let Some(entry) = self.cache.get_entry(state_key) {
+            // Cache entry exists but is not committed to the DB yet
+            if let CacheEntryStatus::Dirty(StateMut::Add) = entry.status {
+                return Ok(None);
+            }
+            return Ok(Some(Self::cached_state_entry(&entry.clean_snapshot)?));
         }
 
         // Retrieve the state from the DB
-        let Some(state_data) = self.retrieve_state_encoded(state_key).await? else {
-            return Ok(None);
-        };
-
-        let state_entry = T::decode(&mut state_data.as_slice())?;
-        // Insert the entry into the cache
-        self.insert_clean_cache_entry_and_snapshot(state_key, state_entry.clone());
-        Ok(Some(state_entry))
+        self.load_state_entry(state_key).await
     }
 
     async fn get_state_entry_internal<T>(
@@ -924,27 +923,11 @@ impl StateManager {
                 return Ok(None);
             }
 
-            // Special handling for the test-only `Raw` type
-            if let StateEntryType::Raw(raw_octets) = entry.value.as_ref() {
-                let state_entry = T::decode(&mut raw_octets.as_slice())?;
-                self.insert_clean_cache_entry_and_snapshot(state_key, state_entry.clone());
-                return Ok(Some(state_entry));
-            }
-
-            let state_entry =
-                T::from_entry_type(&entry.value).ok_or(StateManagerError::UnexpectedEntryType)?;
-            return Ok(Some(state_entry.clone()));
+            return Ok(Some(Self::cached_state_entry(&entry.value)?));
         }
 
         // The state entry not found from the cache; retrieve it from the DB
-        let Some(state_data) = self.retrieve_state_encoded(state_key).await? else {
-            return Ok(None);
-        };
-
-        let state_entry = T::decode(&mut state_data.as_slice())?;
-        // Insert the entry into the cache
-        self.insert_clean_cache_entry_and_snapshot(state_key, state_entry.clone());
-        Ok(Some(state_entry))
+        self.load_state_entry(state_key).await
     }
 
     async fn with_mut_state_entry_internal<T, F, E>(
@@ -963,18 +946,12 @@ impl StateManager {
             return Err(StateManagerError::WrongStateMutType);
         }
 
-        let state_exists = self
-            .get_state_entry_internal::<T>(state_key)
-            .await?
-            .is_some();
-
-        if !state_exists {
-            return Err(StateManagerError::StateKeyNotInitialized(
-                state_key.encode_hex(),
-            ));
-        }
+        let state_entry = self.get_state_entry_internal::<T>(state_key).await?.ok_or(
+            StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
+        )?;
 
-        self.cache.with_mut_entry(state_key, state_mut, f)
+        self.cache
+            .with_mut_entry(state_key, state_mut, state_entry, f)
     }
 
     async fn add_state_entry_internal<T>(
@@ -1001,17 +978,8 @@ impl StateManager {
             )));
         }
 
-        let state_entry_type = Arc::new(state_entry.into_entry_type());
-        self.cache.insert_entry(
-            state_key.clone(),
-            CacheEntry {
-                clean_snapshot: state_entry_type.clone(),
-                value: state_entry_type,
-                status: CacheEntryStatus::Dirty(StateMut::Add),
-            },
-        );
-
-        Ok(())
+        self.cache
+            .add_entry(state_key.clone(), state_entry.into_entry_type())
     }
 
     async fn get_clean_simple_state_entry<T>(&self) -> Result<T, StateManagerError>
-- 
2.43.0


From 88f930e46762024aee9966911f6137975ebc7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 06/48] fix: keep database caches coherent under concurrent
 accesses to the same key

---
 db/src/core/cached_db.rs | 42 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/db/src/core/cached_db.rs b/db/src/core/cached_db.rs
index 52b35d6..3af98b1 100644
--- a/db/src/core/cached_db.rs
+++ b/db/src/core/cached_db.rs
@@ -3,8 +3,14 @@ use fr_codec::JamCodecError;
 use fr_common::{ByteArray, ByteEncodable, CommonTypeError, Hash32};
 use mini_moka::sync::Cache;
 use rocksdb::{ColumnFamily, WriteBatch};
-use std::{borrow::Cow, hash::Hash, sync::Arc};
+use std::{
+    borrow::Cow,
+    collections::{hash_map::DefaultHasher, BTreeSet},
+    hash::{Hash, Hasher},
+    sync::Arc,
+};
 use thiserror::Error;
+use tokio::sync::{Mutex, MutexGuard};
 
 #[derive(Debug, Error)]
 pub enum CachedDBError {
@@ -77,6 +83,9 @@ impl CacheItem for Hash32 {
     }
 }
 
+/// Number of locks that `CachedDB` distributes its keys over.
+const NUM_KEY_LOCKS: usize = 64;
+
 /// A RocksDB column family DB type with a built-in cache.
 pub struct CachedDB<K, V>
 where
@@ -89,6 +98,8 @@ where
     pub cf_name: &'static str,
     /// A thread-safe in-memory LRU cache
     pub cache: Cache<K, Arc<V>>,
+    /// Locks that keep the DB and the cache in step per key, held while accessing both of them.
+    key_locks: Vec<Mutex<()>>,
 }
 
 impl<K, V> CachedDB<K, V>
@@ -101,9 +112,20 @@ where
             core,
             cf_name,
             cache: Cache::new(cache_size as u64),
+            key_locks: (0..NUM_KEY_LOCKS).map(|_| Mutex::new(())).collect(),
         }
     }
 
+    fn key_lock_index(key: &K) -> usize {
+        let mut hasher = DefaultHasher::new();
+        key.hash(&mut hasher);
+        (hasher.finish() % NUM_KEY_LOCKS as u64) as usize
+    }
+
+    async fn lock_key(&self, key: &K) -> MutexGuard<'_, ()> {
+        self.key_locks[Self::key_lock_index(key)].lock().await
+    }
+
     pub fn cf_handle(&self) -> Result<&ColumnFamily, CachedDBError> {
         Ok(self.core.cf_handle(self.cf_name)?)
     }
@@ -114,6 +136,12 @@ where
             return Ok(Some((*v).clone()));
         }
 
+        let _guard = self.lock_key(key).await;
+        // it might have been cached while waiting for the lock
+        if let Some(v) = self.cache.get(key) {
+            return Ok(Some((*v).clone()));
+        }
+
         // fetch encoded state data octets from the db and put into the cache
         let value = self
             .core
@@ -131,6 +159,7 @@ where
     }
 
     pub async fn put_entry(&self, key: &K, val: V) -> Result<(), CachedDBError> {
+        let _guard = self.lock_key(key).await;
         // write to DB
         self.core
             .put_entry(
@@ -145,6 +174,7 @@ where
     }
 
     pub async fn delete_entry(&self, key: &K) -> Result<(), CachedDBError> {
+        let _guard = self.lock_key(key).await;
         self.core
             .delete_entry(self.cf_name, &key.as_db_key())
             .await?;
@@ -157,6 +187,16 @@ where
         batch: WriteBatch,
         writes: &[(K, Option<V>)],
     ) -> Result<(), CachedDBError> {
+        // Take the locks in order to rule out deadlocks
+        let lock_indices: BTreeSet<usize> = writes
+            .iter()
+            .map(|(key, _)| Self::key_lock_index(key))
+            .collect();
+        let mut guards = Vec::with_capacity(lock_indices.len());
+        for index in lock_indices {
+            guards.push(self.key_locks[index].lock().await);
+        }
+
         self.core.commit_write_batch(batch).await?;
         self.sync_cache(writes);
         Ok(())
-- 
2.43.0


From 1f59b8fc101a101df4c43682ac81e25e6c30df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 07/48] fix: reject verdicts with an epoch index in the future

---
 extrinsics/src/validation/disputes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extrinsics/src/validation/disputes.rs b/extrinsics/src/validation/disputes.rs
index 656ec13..5d2c22a 100644
--- a/extrinsics/src/validation/disputes.rs
+++ b/extrinsics/src/validation/disputes.rs
@@ -170,8 +170,10 @@ impl DisputesXtValidator {
         all_past_report_hashes: &[Hash32],
         extrinsic: &DisputesXt,
     ) -> Result<(), XtError> {
-        // Check if verdicts contain entries with epoch index older than the previous epoch
-        if entry.epoch_index + 1 < prior_timeslot.epoch() {
+        // Check if verdicts contain entries with epoch index other than the current or the previous epoch
+        let prior_epoch = prior_timeslot.epoch();
+        if entry.epoch_index != prior_epoch && Some(entry.epoch_index) != prior_epoch.checked_sub(1)
+        {
             return Err(XtError::InvalidJudgmentsAge(
                 entry.epoch_index,
                 prior_timeslot.epoch(),
-- 
2.43.0


From d4ab49e855ca93ba6d7bfb3118a2bf2abad42b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 08/48] fix: keep the punish set free of duplicate keys

---
 state/src/types/disputes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/state/src/types/disputes.rs b/state/src/types/disputes.rs
index 190eba0..de3b3f0 100644
--- a/state/src/types/disputes.rs
+++ b/state/src/types/disputes.rs
@@ -74,6 +74,8 @@ impl DisputesState {
     pub fn sort_extend_punish_set(&mut self, punish_set: Vec<Ed25519PubKey>) {
         self.punish_set.extend(punish_set);
         self.punish_set.sort();
+        // A validator can be both a culprit and at fault in the same disputes Xt
+        self.punish_set.dedup();
     }
 
     pub fn get_all_report_hashes(&self) -> Vec<WorkReportHash> {
-- 
2.43.0


From aafa45be9f7d9ccdc2c97be2e625e4f55abb7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 09/48] fix: do not accept blocks one timeslot ahead of the
 clock

---
 state/src/types/timeslot.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/state/src/types/timeslot.rs b/state/src/types/timeslot.rs
index d30c44a..932ae3d 100644
--- a/state/src/types/timeslot.rs
+++ b/state/src/types/timeslot.rs
@@ -83,11 +83,6 @@ impl Timeslot {
     }
 
     fn timeslot_beginning_to_unix_timestamp(&self) -> u64 {
-        if self.0 == 0 {
-            COMMON_ERA_TIMESTAMP
-        } else {
-            let slot_duration_secs = (self.0 - 1) as u64 * SLOT_DURATION;
-            COMMON_ERA_TIMESTAMP + slot_duration_secs
-        }
+        COMMON_ERA_TIMESTAMP + self.0 as u64 * SLOT_DURATION
     }
 }
-- 
2.43.0


From 5596a83374cb4bf321a5501392dc7a4f7d086c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 10/48] fix: validate blocks claiming to be genesis once the
 node has a chain

---
 node/src/roles/importer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index 9023089..6719d5d 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -174,13 +174,18 @@ impl BlockImporter {
         Ok(block_import_output)
     }
 
+    /// A block without a parent is the genesis block only for a node that has no chain yet.
+    fn is_chain_genesis(storage: &NodeStorage, block: &Block) -> bool {
+        block.is_genesis() && storage.header_db().get_best_header() == BlockHeader::default()
+    }
+
     async fn validate_block(
         storage: Arc<NodeStorage>,
         block: &Block,
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        if block.is_genesis() {
+        if Self::is_chain_genesis(&storage, block) {
             // Skip validation for the genesis block
             let output =
                 Self::run_state_transition(&storage, block, with_ancestors, block_commit_mode)
@@ -512,7 +517,7 @@ impl BlockImporter {
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        let account_state_changes = if block.is_genesis() {
+        let account_state_changes = if Self::is_chain_genesis(storage, block) {
             let output = BlockExecutor::run_genesis_state_transition(storage, block).await?;
             BlockExecutor::append_beefy_belt_and_block_history(
                 storage,
-- 
2.43.0


From 09aef6edbfe301d95fb17d8f459070bee8de0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 11/48] fix: use a cached ring context only for the validator
 set it was derived from

---
 state/src/manager.rs | 60 +++++++++++---------------------------------
 1 file changed, 15 insertions(+), 45 deletions(-)

diff --git a/state/src/manager.rs b/state/src/manager.rs
index 53e8e39..c4c8c2d 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -332,30 +332,14 @@ impl StateManager {
         validator_set: &ValidatorKeySet,
     ) -> Result<(RingVrfVerifier, BandersnatchRingRoot), StateManagerError> {
         // Check the cache
-        if let Some(RingContext {
-            inserted_at,
-            validator_set,
-            verifier,
-            ring_root,
-        }) = self.ring_cache_read_guard().curr()
-        {
-            // Validate if the `curr` ring cache holds the correct latest ring context
-            let LastStagingSetTransitionContext {
-                last_staging_set_transition_slot,
-                last_effective_staging_set_hash,
-            } = self.last_staging_set_transition_context();
-
-            if last_staging_set_transition_slot < *inserted_at {
-                return Ok((verifier.clone(), ring_root.clone()));
-            }
-
-            // Extra check for the same-slot fork making the ring cache stale
-            if last_staging_set_transition_slot == *inserted_at {
-                let expected_effective_staging_set_hash =
-                    hash::<Blake2b256>(&StagingSet(validator_set.clone()).encode()?)?;
-                if last_effective_staging_set_hash == expected_effective_staging_set_hash {
-                    return Ok((verifier.clone(), ring_root.clone()));
-                }
+        if let Some(ring_context) = self.ring_cache_read_guard().curr() {
+            // The cache entry is valid only for the validator set it was derived from. Rejected
+            // blocks and forks might have left an entry for another set.
+            if &ring_context.validator_set == validator_set {
+                return Ok((
+                    ring_context.verifier.clone(),
+                    ring_context.ring_root.clone(),
+                ));
             }
         }
 
@@ -383,27 +367,13 @@ impl StateManager {
         validator_set: &ValidatorKeySet,
     ) -> Result<(RingVrfVerifier, BandersnatchRingRoot), StateManagerError> {
         // Check the cache
-        if let Some(RingContext {
-            inserted_at,
-            validator_set,
-            verifier,
-            ring_root,
-        }) = self.ring_cache_read_guard().staging()
-        {
-            let expected_effective_staging_set_hash =
-                hash::<Blake2b256>(&StagingSet(validator_set.clone()).encode()?)?;
-
-            // The cache entry is valid only if StagingSet was not mutated after its insertion
-            // Check both the transition slot and the effective staging set hash
-            let LastStagingSetTransitionContext {
-                last_staging_set_transition_slot,
-                last_effective_staging_set_hash,
-            } = self.last_staging_set_transition_context();
-
-            if last_staging_set_transition_slot <= *inserted_at
-                && last_effective_staging_set_hash == expected_effective_staging_set_hash
-            {
-                return Ok((verifier.clone(), ring_root.clone()));
+        if let Some(ring_context) = self.ring_cache_read_guard().staging() {
+            // The cache entry is valid only for the validator set it was derived from
+            if &ring_context.validator_set == validator_set {
+                return Ok((
+                    ring_context.verifier.clone(),
+                    ring_context.ring_root.clone(),
+                ));
             }
         }
 
-- 
2.43.0


From f6261eb0894fa679af1083abd70fd18842547fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 12/48] fix: authors recognise their own tickets

---
 node/src/roles/author.rs  | 14 ++++++++++++++
 node/src/roles/manager.rs | 23 +++++++++++++++++------
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/node/src/roles/author.rs b/node/src/roles/author.rs
index 54fe071..8e9a9a2 100644
--- a/node/src/roles/author.rs
+++ b/node/src/roles/author.rs
@@ -395,6 +395,20 @@ pub fn validate_author_block_seal(
     Ok(())
 }
 
+/// Checks if the ticket was submitted by the owner of the given secret key.
+///
+/// Note: The aux data (message) doesn't affect the VRF output hash value, hence the output hash of
+/// the ticket proof and of the block seal made by its owner are the same.
+pub fn is_ticket_owner(
+    ticket: &Ticket,
+    entropy_3: &EntropyHash,
+    secret_key: &BandersnatchSecretKey,
+) -> Result<bool, CryptoError> {
+    let prover = VrfProver::from_secret_key(secret_key)?;
+    let vrf_input = [X_T, entropy_3.as_slice(), &[ticket.attempt]].concat();
+    Ok(prover.sign_vrf(&vrf_input, &[])?.output_hash()? == ticket.id)
+}
+
 /// Seals the block header as the block author, in regular (ticket) mode.
 ///
 /// Note: This signing should be done ***after*** signing the VRF signature of the header.
diff --git a/node/src/roles/manager.rs b/node/src/roles/manager.rs
index 234dd8e..0cc0bf0 100644
--- a/node/src/roles/manager.rs
+++ b/node/src/roles/manager.rs
@@ -1,11 +1,14 @@
+use crate::{keystore::load_author_secret_key, roles::author::is_ticket_owner};
+use fr_crypto::error::CryptoError;
 use fr_network::manager::LocalNodeInfo;
 use fr_state::{
     error::StateManagerError,
     manager::StateManager,
     types::{SlotSealer, Timeslot},
 };
-use fr_transition::state_prediction::slot_sealers::{
-    predict_post_slot_sealer, SlotSealerPredictionError,
+use fr_transition::state_prediction::{
+    entropy::predict_post_entropy_3,
+    slot_sealers::{predict_post_slot_sealer, SlotSealerPredictionError},
 };
 use std::sync::Arc;
 use thiserror::Error;
@@ -16,6 +19,8 @@ pub enum RoleManagerError {
     StateManagerError(#[from] StateManagerError),
     #[error("SlotSealerPredictionError: {0}")]
     SlotSealerPredictionError(#[from] SlotSealerPredictionError),
+    #[error("CryptoError: {0}")]
+    CryptoError(#[from] CryptoError),
 }
 
 pub struct RoleManager;
@@ -25,12 +30,18 @@ impl RoleManager {
         local_node_info: LocalNodeInfo,
         new_timeslot: &Timeslot,
     ) -> Result<bool, RoleManagerError> {
-        let slot_sealer = predict_post_slot_sealer(state_manager, new_timeslot.slot()).await?;
+        let slot_sealer =
+            predict_post_slot_sealer(state_manager.clone(), new_timeslot.slot()).await?;
 
-        // TODO: Node: impl for ticket mode
         match slot_sealer {
-            SlotSealer::Ticket(_ticket) => {
-                unimplemented!()
+            SlotSealer::Ticket(ticket) => {
+                let Some(author_sk) = load_author_secret_key(local_node_info.bandersnatch_key())
+                else {
+                    return Ok(false);
+                };
+                let post_entropy_3 =
+                    predict_post_entropy_3(state_manager, new_timeslot.slot()).await?;
+                Ok(is_ticket_owner(&ticket, &post_entropy_3, &author_sk)?)
             }
             SlotSealer::BandersnatchPubKeys(key) => Ok(local_node_info.bandersnatch_key() == &key),
         }
-- 
2.43.0


From 9e14e35d6c6c2f67bc11f66c8ee91dcd61474f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 13/48] fix: author for the signalled slot with the validator
 index of its epoch

---
 node/src/roles/author.rs              | 22 +++++++++++++---------
 node/src/scheduler/chain_extension.rs | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/node/src/roles/author.rs b/node/src/roles/author.rs
index 8e9a9a2..a5a4e17 100644
--- a/node/src/roles/author.rs
+++ b/node/src/roles/author.rs
@@ -14,7 +14,6 @@ use fr_block::{
     },
     xt_db::XtDBError,
 };
-use fr_clock::JamClock;
 use fr_codec::prelude::*;
 use fr_common::{
     ticket::Ticket, BlockHeaderHash, ByteEncodable, CommonTypeError, EntropyHash, StateRoot,
@@ -27,7 +26,10 @@ use fr_crypto::{
     vrf::bandersnatch_vrf::VrfProver,
 };
 use fr_network::manager::LocalNodeInfo;
-use fr_state::{error::StateManagerError, types::SlotSealer};
+use fr_state::{
+    error::StateManagerError,
+    types::{SlotSealer, Timeslot},
+};
 use fr_storage::node_storage::NodeStorage;
 use std::sync::Arc;
 use thiserror::Error;
@@ -56,8 +58,6 @@ pub enum BlockAuthorError {
     BlockExecutionError(#[from] BlockExecutionError),
     #[error("Block seal output hash doesn't match ticket proof output hash")]
     InvalidBlockSealOutput,
-    #[error("System time is before the JAM common era")]
-    InvalidSysTime,
     #[error("Author key is not found from the keystore")]
     AuthorKeyNotFound,
 }
@@ -119,11 +119,12 @@ impl BlockAuthor {
     pub async fn author_block_commit_header(
         &mut self,
         storage: Arc<NodeStorage>,
+        new_timeslot: &Timeslot,
     ) -> Result<BlockHeader, BlockAuthorError> {
         let xt = Self::collect_extrinsics();
         let xt_hash = xt.hash()?;
         self.set_extrinsics(xt.clone(), xt_hash.clone())?;
-        self.prelude(&storage).await?;
+        self.prelude(&storage, new_timeslot).await?;
 
         // STF phase #1
         let header_markers = self
@@ -240,7 +241,11 @@ impl BlockAuthor {
     }
 
     /// Sets header fields required for running STFs in advance.
-    async fn prelude(&mut self, storage: &NodeStorage) -> Result<(), BlockAuthorError> {
+    async fn prelude(
+        &mut self,
+        storage: &NodeStorage,
+        new_timeslot: &Timeslot,
+    ) -> Result<(), BlockAuthorError> {
         let parent_hash = storage.header_db().get_best_header().hash()?;
         tracing::debug!("Parent header hash: {}", &parent_hash);
         let prior_state_root = storage.state_manager().merkle_root().await?;
@@ -251,9 +256,8 @@ impl BlockAuthor {
         self.new_block
             .header
             .set_author_index(self.author_info.author_index);
-        self.new_block
-            .header
-            .set_timeslot(JamClock::now_jam_timeslot().ok_or(BlockAuthorError::InvalidSysTime)?);
+        // Note: the slot the author role was determined for; the clock might be past it by now
+        self.new_block.header.set_timeslot(new_timeslot.slot());
 
         Ok(())
     }
diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index c33af31..b7c3f0c 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -7,7 +7,8 @@ use crate::{
 };
 use fr_block::{header_db::BlockHeaderDBError, types::block::BlockHeaderError, xt_db::XtDBError};
 use fr_network::error::NetworkError;
-use fr_state::types::Timeslot;
+use fr_state::{error::StateManagerError, types::Timeslot};
+use fr_transition::state_prediction::validator_sets::predict_active_set;
 use std::sync::Arc;
 use thiserror::Error;
 
@@ -25,6 +26,8 @@ pub enum ChainExtensionError {
     XtDBError(#[from] XtDBError),
     #[error("BlockAuthorError: {0}")]
     BlockAuthorError(#[from] BlockAuthorError),
+    #[error("StateManagerError: {0}")]
+    StateManagerError(#[from] StateManagerError),
     #[error("Current epoch validator index not set")]
     MissingValidatorIndex,
 }
@@ -42,15 +45,17 @@ pub async fn extend_chain(
     .await?
     {
         tracing::info!("✍️ Role: Author");
-        let mut author = BlockAuthor::new(
-            jam_node
-                .curr_epoch_validator_index
-                .ok_or(ChainExtensionError::MissingValidatorIndex)?,
-            jam_node.local_node_info().clone(),
-        )?;
+        // The active set might change with the new block
+        let validator_index =
+            predict_active_set(jam_node.storage().state_manager(), new_timeslot.slot())
+                .await?
+                .get_validator_index(jam_node.local_node_info().bandersnatch_key())
+                .ok_or(ChainExtensionError::MissingValidatorIndex)?;
+        let mut author =
+            BlockAuthor::new(validator_index, jam_node.local_node_info().clone())?;
 
         let new_header = author
-            .author_block_commit_header(jam_node.storage())
+            .author_block_commit_header(jam_node.storage(), new_timeslot)
             .await?;
         let storage = jam_node.storage();
         storage.header_db().set_best_header(new_header.clone());
-- 
2.43.0


From dbd7d49d613c8286da59a7fffee071c3f3993587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 14/48] fix: a slot gets one block even if it is signalled
 twice

---
 node/src/scheduler/chain_extension.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index b7c3f0c..8af72d6 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -37,6 +37,16 @@ pub async fn extend_chain(
     jam_node: Arc<JamNode>,
     new_timeslot: &Timeslot,
 ) -> Result<(), ChainExtensionError> {
+    let best_slot = jam_node
+        .storage()
+        .header_db()
+        .get_best_header()
+        .timeslot_index();
+    if new_timeslot.slot() <= best_slot {
+        tracing::warn!("Slot {new_timeslot:?} is already occupied by the best block");
+        return Ok(());
+    }
+
     if RoleManager::is_author_of_slot(
         jam_node.storage().state_manager(),
         jam_node.local_node_info().clone(),
-- 
2.43.0


From d5c383a584124841fdc4f578ecbf9e66cb896f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 15/48] fix: a failed attempt to author a block leaves no trace

---
 node/src/roles/author.rs              | 25 +++++++++++++----------
 node/src/scheduler/chain_extension.rs | 29 ++++++++++++++++++---------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/node/src/roles/author.rs b/node/src/roles/author.rs
index a5a4e17..9f2c608 100644
--- a/node/src/roles/author.rs
+++ b/node/src/roles/author.rs
@@ -140,6 +140,9 @@ impl BlockAuthor {
         self.seal_block_header(&curr_slot_sealer, curr_entropy_3)
             .await?;
 
+        // Store extrinsics, so that the whole block can be served as soon as it is announced
+        storage.xt_db().set_xt(&xt_hash, xt).await?;
+
         // Commit block header and finalize block
         let (new_header, _new_header_hash) = self.commit_header(&storage).await?;
         Ok(new_header)
@@ -160,10 +163,14 @@ impl BlockAuthor {
         self.run_final_state_transition(&storage, new_header_hash, execution_output)
             .await?;
 
-        // Commit the state transitions
+        // Prepare the commitment of the state transitions
         // Note: Also some STFs can be run asynchronously after committing the header.
-        storage.state_manager().commit_dirty_cache().await?;
-        let post_state_root = storage.state_manager().merkle_root().await?;
+        let state_manager = storage.state_manager();
+        let state_commit_artifact = state_manager.prepare_dirty_cache_commit().await?;
+        let post_state_root = match &state_commit_artifact {
+            Some(artifact) => artifact.state_root().clone(),
+            None => state_manager.merkle_root().await?,
+        };
         tracing::debug!("Post State Root: {}", &post_state_root);
 
         // Store post state root
@@ -173,14 +180,10 @@ impl BlockAuthor {
             .set_post_state_root(&new_block_hash, post_state_root.clone())
             .await?;
 
-        // Store extrinsics
-        storage
-            .xt_db()
-            .set_xt(
-                self.new_block.header.extrinsic_hash(),
-                self.new_block.extrinsics.clone(),
-            )
-            .await?;
+        // The last fallible step, which makes the new block a part of the chain
+        if let Some(artifact) = state_commit_artifact {
+            state_manager.apply_dirty_cache_commit(&artifact).await?;
+        }
 
         Ok((self.new_block.clone(), post_state_root))
     }
diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index 8af72d6..605ef1f 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -36,6 +36,18 @@ pub enum ChainExtensionError {
 pub async fn extend_chain(
     jam_node: Arc<JamNode>,
     new_timeslot: &Timeslot,
+) -> Result<(), ChainExtensionError> {
+    let result = try_extend_chain(&jam_node, new_timeslot).await;
+    if result.is_err() {
+        // Rollback uncommitted state changes
+        jam_node.storage().state_manager().rollback_dirty_cache();
+    }
+    result
+}
+
+async fn try_extend_chain(
+    jam_node: &JamNode,
+    new_timeslot: &Timeslot,
 ) -> Result<(), ChainExtensionError> {
     let best_slot = jam_node
         .storage()
@@ -67,14 +79,6 @@ pub async fn extend_chain(
         let new_header = author
             .author_block_commit_header(jam_node.storage(), new_timeslot)
             .await?;
-        let storage = jam_node.storage();
-        storage.header_db().set_best_header(new_header.clone());
-        // TODO: GRANDPA: Block finalization handling
-        storage
-            .header_db()
-            .commit_header(new_header.clone())
-            .await?;
-
         tracing::info!(
             "🎁 Authored a new block ({}) (slot: {})",
             new_header.hash()?,
@@ -83,14 +87,19 @@ pub async fn extend_chain(
 
         // Note: For simplicity, announce the block to all peers in the network.
         // TODO: Network: Announce to neighbors in the grid structure as per JAMNP
-        jam_node
+        if let Err(e) = jam_node
             .network_manager()
             .announce_block_to_all_peers(&new_header)
-            .await?;
+            .await
+        {
+            tracing::warn!("Failed to announce the new block: {e}");
+        }
 
         let (new_block, post_state_root) = author
             .author_block_commit_state(jam_node.storage(), new_header.hash()?)
             .await?;
+        // TODO: GRANDPA: Block finalization handling
+        jam_node.storage().header_db().set_best_header(new_header);
         tracing::trace!(
             "Header: {}\nXts: {:?} post state root: {}",
             new_block.header,
-- 
2.43.0


From 50e9048df305e784a3ccd61c45cbf2246ec14ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 16/48] fix: authoring and importing never share the dirty
 state cache

---
 node/src/roles/importer.rs            |  4 +++-
 node/src/scheduler/chain_extension.rs |  4 +++-
 state/src/manager.rs                  | 14 +++++++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index 6719d5d..ab014a9 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -126,6 +126,8 @@ impl BlockImporter {
                 }
             };
             let timeslot_index = block.header.timeslot_index();
+            let state_manager = storage.state_manager();
+            let _guard = state_manager.lock_block_processing().await;
             match Self::import_block(storage.clone(), block, false, BlockCommitMode::Immediate)
                 .await
             {
@@ -142,7 +144,7 @@ impl BlockImporter {
                 Err(e) => {
                     tracing::error!("Invalid block: {e}");
                     // Rollback uncommitted state changes
-                    storage.state_manager().rollback_dirty_cache();
+                    state_manager.rollback_dirty_cache();
                 }
             }
         }
diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index 605ef1f..858a2f3 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -37,10 +37,12 @@ pub async fn extend_chain(
     jam_node: Arc<JamNode>,
     new_timeslot: &Timeslot,
 ) -> Result<(), ChainExtensionError> {
+    let state_manager = jam_node.storage().state_manager();
+    let _guard = state_manager.lock_block_processing().await;
     let result = try_extend_chain(&jam_node, new_timeslot).await;
     if result.is_err() {
         // Rollback uncommitted state changes
-        jam_node.storage().state_manager().rollback_dirty_cache();
+        state_manager.rollback_dirty_cache();
     }
     result
 }
diff --git a/state/src/manager.rs b/state/src/manager.rs
index c4c8c2d..88c1097 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -42,7 +42,7 @@ use fr_db::{
 };
 use fr_state_merkle_v2::{merkle_db::MerkleDB, types::LeafNodeData};
 use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, Mutex, MutexGuard};
 use tracing::{debug_span, instrument};
 
 #[derive(Clone)]
@@ -131,6 +131,8 @@ pub struct StateManager {
     merkle_manager: MerkleManagerHandle,
     ring_cache: RwLock<RingCache>,
     last_staging_set_transition_context: RwLock<LastStagingSetTransitionContext>,
+    /// Held while a block is being processed.
+    block_processing_lock: Mutex<()>,
 }
 
 macro_rules! impl_simple_state_accessors {
@@ -259,9 +261,19 @@ impl StateManager {
             last_staging_set_transition_context: RwLock::new(
                 LastStagingSetTransitionContext::default(),
             ),
+            block_processing_lock: Mutex::new(()),
         }
     }
 
+    /// Waits until no other block is being processed.
+    ///
+    /// Dirty entries of the state cache belong to the block that is being processed until they are
+    /// committed or rolled back. Hence, block author and importer should hold the returned guard
+    /// in the meantime.
+    pub async fn lock_block_processing(&self) -> MutexGuard<'_, ()> {
+        self.block_processing_lock.lock().await
+    }
+
     fn last_staging_set_transition_context_read_guard(
         &self,
     ) -> RwLockReadGuard<'_, LastStagingSetTransitionContext> {
-- 
2.43.0


From 9bf21022f8217811d6ce9541f3fa81e4036767ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 17/48] fix: a failed block import leaves no trace

---
 node/src/roles/importer.rs            | 40 ++++++++++++++++++---------
 node/src/scheduler/chain_extension.rs |  3 +-
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index ab014a9..ad5dc84 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -131,15 +131,8 @@ impl BlockImporter {
             match Self::import_block(storage.clone(), block, false, BlockCommitMode::Immediate)
                 .await
             {
-                Ok(output) => {
+                Ok(_output) => {
                     tracing::info!("✅ Block validated ({header_hash}) (slot: {timeslot_index})");
-                    if let Err(e) = storage
-                        .post_state_root_db()
-                        .set_post_state_root(&header_hash, output.post_state_root.clone())
-                        .await
-                    {
-                        tracing::error!("Failed to set post state root of the block: {e:?}");
-                    }
                 }
                 Err(e) => {
                     tracing::error!("Invalid block: {e}");
@@ -168,9 +161,10 @@ impl BlockImporter {
                 .await?;
 
         if matches!(block_commit_mode, BlockCommitMode::Immediate) {
-            // Store the block header to the block header DB & ancestor set
-            let header_db = storage.header_db();
-            header_db.insert_header(header_hash, header).await?;
+            // Add the block header to the ancestor set
+            storage
+                .header_db()
+                .batch_insert_to_ancestor_set(vec![(header.timeslot_index(), header_hash)])?;
         }
 
         Ok(block_import_output)
@@ -559,8 +553,28 @@ impl BlockImporter {
         let mut state_commit_artifact = None;
         let post_state_root = match block_commit_mode {
             BlockCommitMode::Immediate => {
-                storage.state_manager().commit_dirty_cache().await?;
-                storage.state_manager().merkle_root().await?
+                let state_manager = storage.state_manager();
+                let artifact = state_manager.prepare_dirty_cache_commit().await?;
+                let root = match &artifact {
+                    Some(artifact) => artifact.state_root().clone(),
+                    None => state_manager.merkle_root().await?,
+                };
+
+                // Store the block header and the post state root
+                let header_hash = storage
+                    .header_db()
+                    .commit_header(block.header.clone())
+                    .await?;
+                storage
+                    .post_state_root_db()
+                    .set_post_state_root(&header_hash, root.clone())
+                    .await?;
+
+                // The last fallible step, which makes the block a part of the chain
+                if let Some(artifact) = artifact {
+                    state_manager.apply_dirty_cache_commit(&artifact).await?;
+                }
+                root
             }
             BlockCommitMode::StageOnly => {
                 if let Some(artifact) = storage.state_manager().prepare_dirty_cache_commit().await?
diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index 858a2f3..4472fd9 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -75,8 +75,7 @@ async fn try_extend_chain(
                 .await?
                 .get_validator_index(jam_node.local_node_info().bandersnatch_key())
                 .ok_or(ChainExtensionError::MissingValidatorIndex)?;
-        let mut author =
-            BlockAuthor::new(validator_index, jam_node.local_node_info().clone())?;
+        let mut author = BlockAuthor::new(validator_index, jam_node.local_node_info().clone())?;
 
         let new_header = author
             .author_block_commit_header(jam_node.storage(), new_timeslot)
-- 
2.43.0


From 1842db428eebdd086fa2ce7bae73ae2411463076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 18/48] fix: messages on QUIC streams survive any segmentation

Block announcements are length-prefixed (as in JAMNP) and block requests and
responses are read up to the end of their stream. Previously each was taken to
be whatever a single chunk of the stream happened to contain, so announcements
that were split or coalesced were lost, blocks that did not fit in one packet
could never be fetched, and an empty response panicked.
---
 network/src/error.rs                        |  2 +
 network/src/streams/ce_streams/mod.rs       | 17 ++++---
 network/src/streams/ce_streams/responder.rs | 25 ++++++-----
 network/src/streams/up_streams.rs           | 50 ++++++++++++++++-----
 network/src/types.rs                        |  7 ++-
 5 files changed, 70 insertions(+), 31 deletions(-)

diff --git a/network/src/error.rs b/network/src/error.rs
index 9839117..9899156 100644
--- a/network/src/error.rs
+++ b/network/src/error.rs
@@ -44,6 +44,8 @@ pub enum NetworkError {
     InvalidUpStreamKind(u8),
     #[error("Invalid CE stream kind value: {0}")]
     InvalidCeStreamKind(u8),
+    #[error("UP stream message is too large: {0} bytes")]
+    UpMessageTooLarge(usize),
     #[error("The socket address is not a known validator peer")]
     PeerSocketAddrNotFound,
     #[error("A connection with the peer is not yet established")]
diff --git a/network/src/streams/ce_streams/mod.rs b/network/src/streams/ce_streams/mod.rs
index 0ef7d5b..82e753c 100644
--- a/network/src/streams/ce_streams/mod.rs
+++ b/network/src/streams/ce_streams/mod.rs
@@ -1,4 +1,6 @@
-use crate::{error::NetworkError, streams::stream_kinds::CeStreamKind, types::CHUNK_SIZE};
+use crate::{
+    error::NetworkError, streams::stream_kinds::CeStreamKind, types::MAX_CE_RESPONSE_SIZE,
+};
 use async_trait::async_trait;
 use fr_codec::prelude::*;
 use fr_storage::server_trait::NodeServerTrait;
@@ -44,15 +46,11 @@ mod ce_stream_utils {
     where
         T: CeStream + ?Sized,
     {
-        let resp = match recv_stream.read_chunk(CHUNK_SIZE, true).await {
-            Ok(Some(chunk)) => {
-                let mut bytes: &[u8] = &chunk.bytes;
+        // The peer finishes the stream after sending the whole response
+        let resp = match recv_stream.read_to_end(MAX_CE_RESPONSE_SIZE).await {
+            Ok(bytes) => {
                 tracing::debug!("[{}] Received respond", T::CE_STREAM_KIND);
-                Some(T::decode_response(&mut bytes))
-            }
-            Ok(None) => {
-                tracing::warn!("[{}] Stream closed", T::CE_STREAM_KIND);
-                None
+                Some(T::decode_response(&mut bytes.as_slice()))
             }
             Err(e) => {
                 tracing::error!("[{}] Error receiving respond: {e}", T::CE_STREAM_KIND);
@@ -71,6 +69,7 @@ mod ce_stream_utils {
     {
         let args_encoded = T::encode_response_args(args)?;
         send_stream.write_all(args_encoded.as_slice()).await?;
+        send_stream.finish()?;
         Ok(())
     }
 }
diff --git a/network/src/streams/ce_streams/responder.rs b/network/src/streams/ce_streams/responder.rs
index f3b234a..654f79d 100644
--- a/network/src/streams/ce_streams/responder.rs
+++ b/network/src/streams/ce_streams/responder.rs
@@ -6,7 +6,7 @@ use crate::{
         },
         stream_kinds::CeStreamKind,
     },
-    types::CHUNK_SIZE,
+    types::MAX_CE_REQUEST_SIZE,
 };
 use fr_codec::prelude::*;
 use fr_storage::node_storage::NodeStorage;
@@ -22,20 +22,25 @@ impl CeStreamResponder {
     ) {
         match stream_kind {
             CeStreamKind::BlockRequest => {
-                let mut init_args_bytes: &[u8] =
-                    match recv_stream.read_chunk(CHUNK_SIZE, true).await {
-                        Ok(Some(chunk)) => &chunk.bytes.clone(),
-                        Ok(None) => {
-                            tracing::warn!("[CE128] Stream closed");
-                            return;
-                        }
+                // Ordered like the stream kind identifier: `read_to_end` is not, and stalls if the
+                // already consumed part of the stream was received more than once.
+                let mut request = Vec::new();
+                loop {
+                    match recv_stream.read_chunk(MAX_CE_REQUEST_SIZE, true).await {
+                        Ok(Some(chunk)) => request.extend_from_slice(&chunk.bytes),
+                        Ok(None) => break,
                         Err(e) => {
                             tracing::error!("[CE128] Failed to read block request: {e}");
                             return;
                         }
-                    };
+                    }
+                    if request.len() > MAX_CE_REQUEST_SIZE {
+                        tracing::error!("[CE128] Block request is too large");
+                        return;
+                    }
+                }
 
-                let Ok(init_args) = BlockRequestInitArgs::decode(&mut init_args_bytes) else {
+                let Ok(init_args) = BlockRequestInitArgs::decode(&mut request.as_slice()) else {
                     tracing::error!("[CE128] Failed to decode BlockRequestInitArgs");
                     return;
                 };
diff --git a/network/src/streams/up_streams.rs b/network/src/streams/up_streams.rs
index f613dc6..5b2211e 100644
--- a/network/src/streams/up_streams.rs
+++ b/network/src/streams/up_streams.rs
@@ -7,11 +7,11 @@ use crate::{
         },
         stream_kinds::UpStreamKind,
     },
-    types::{BlockAnnouncement, CHUNK_SIZE},
+    types::{BlockAnnouncement, MAX_UP_MESSAGE_SIZE},
 };
 use fr_block::types::block::Block;
 use fr_codec::prelude::*;
-use quinn::{RecvStream, SendStream};
+use quinn::{ReadExactError, RecvStream, SendStream};
 use tokio::sync::mpsc;
 
 /// A UP stream handle that can request an outgoing UP stream message via `UpStreamHandler`.
@@ -64,10 +64,10 @@ impl UpStreamHandler {
         block_import_mpsc_sender: mpsc::Sender<Block>,
     ) {
         loop {
-            match recv_stream.read_chunk(CHUNK_SIZE, true).await {
-                Ok(Some(chunk)) => {
-                    let mut bytes: &[u8] = &chunk.bytes;
-                    let Ok(block_announcement) = BlockAnnouncement::decode(&mut bytes) else {
+            match Self::read_message(&mut recv_stream).await {
+                Ok(Some(message)) => {
+                    let Ok(block_announcement) = BlockAnnouncement::decode(&mut message.as_slice())
+                    else {
                         tracing::error!("[UP0] Failed to decode BlockAnnouncement");
                         continue;
                     };
@@ -91,11 +91,12 @@ impl UpStreamHandler {
                         .await
                         {
                             Ok(blocks) => {
+                                let Some(block) = blocks.into_iter().next() else {
+                                    tracing::error!("[UP0 | CE128] Block not served by the peer");
+                                    return;
+                                };
                                 // Block Importer: validate the received block
-                                if let Err(e) = block_import_mpsc_sender_cloned
-                                    .send(blocks[0].clone())
-                                    .await
-                                {
+                                if let Err(e) = block_import_mpsc_sender_cloned.send(block).await {
                                     tracing::error!(
                                         "Block Importer mpsc channel receiver closed: {e}"
                                     )
@@ -125,11 +126,38 @@ impl UpStreamHandler {
         mut mpsc_recv: mpsc::Receiver<Vec<u8>>,
     ) {
         while let Some(send_msg) = mpsc_recv.recv().await {
-            if let Err(e) = send_stream.write_all(send_msg.as_slice()).await {
+            if let Err(e) = Self::write_message(&mut send_stream, &send_msg).await {
                 tracing::error!("Error sending block announcement: {e}");
                 break;
             }
             tracing::debug!("📣 Sent Block Announcement to peer");
         }
     }
+
+    /// Reads a length-prefixed message. Returns `None` if the stream is finished.
+    async fn read_message(recv_stream: &mut RecvStream) -> Result<Option<Vec<u8>>, NetworkError> {
+        let mut len_bytes = [0u8; 4];
+        match recv_stream.read_exact(&mut len_bytes).await {
+            Ok(()) => {}
+            Err(ReadExactError::FinishedEarly(0)) => return Ok(None),
+            Err(e) => return Err(e.into()),
+        }
+        let len = u32::from_le_bytes(len_bytes) as usize;
+        if len > MAX_UP_MESSAGE_SIZE {
+            return Err(NetworkError::UpMessageTooLarge(len));
+        }
+        let mut message = vec![0u8; len];
+        recv_stream.read_exact(&mut message).await?;
+        Ok(Some(message))
+    }
+
+    /// Writes a message prefixed with its length (4 bytes, little-endian).
+    async fn write_message(
+        send_stream: &mut SendStream,
+        message: &[u8],
+    ) -> Result<(), NetworkError> {
+        let mut framed = (message.len() as u32).to_le_bytes().to_vec();
+        framed.extend_from_slice(message);
+        Ok(send_stream.write_all(&framed).await?)
+    }
 }
diff --git a/network/src/types.rs b/network/src/types.rs
index 93b10d7..5a75031 100644
--- a/network/src/types.rs
+++ b/network/src/types.rs
@@ -3,7 +3,12 @@ use fr_codec::prelude::*;
 use fr_common::BlockHeaderHash;
 use std::fmt::{Display, Formatter};
 
-pub const CHUNK_SIZE: usize = 1024;
+/// Maximum size of a message on a UP stream.
+pub const MAX_UP_MESSAGE_SIZE: usize = 1024 * 1024;
+/// Maximum size of a CE stream request.
+pub const MAX_CE_REQUEST_SIZE: usize = 1024 * 1024;
+/// Maximum size of a CE stream response.
+pub const MAX_CE_RESPONSE_SIZE: usize = 64 * 1024 * 1024;
 
 #[derive(Clone, Debug, JamDecode)]
 pub struct BlockAnnouncement {
-- 
2.43.0


From d215ff25ef937bd97a1aa0f13392e9f9e58d9223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 19/48] fix: one unreachable, departed or slow peer does not
 affect the others

---
 network/src/error.rs              |  6 ++---
 network/src/manager.rs            | 38 ++++++++++++++++++++++---------
 network/src/streams/up_streams.rs |  4 ++--
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/network/src/error.rs b/network/src/error.rs
index 9899156..5f00676 100644
--- a/network/src/error.rs
+++ b/network/src/error.rs
@@ -6,7 +6,7 @@ use quinn::{
     ClosedStream, ConnectError, ConnectionError, ReadExactError, ReadToEndError, WriteError,
 };
 use thiserror::Error;
-use tokio::{sync::mpsc::error::SendError, task::JoinError};
+use tokio::{sync::mpsc::error::TrySendError, task::JoinError};
 
 #[derive(Debug, Error)]
 pub enum NetworkError {
@@ -32,8 +32,8 @@ pub enum NetworkError {
     ReadExactError(#[from] ReadExactError),
     #[error("tokio JoinError: {0}")]
     JoinError(#[from] JoinError),
-    #[error("tokio SendError<Vec<u8>>: {0}")]
-    SendError(#[from] SendError<Vec<u8>>),
+    #[error("tokio TrySendError<Vec<u8>>: {0}")]
+    TrySendError(#[from] TrySendError<Vec<u8>>),
     #[error("Invalid local address")]
     InvalidLocalAddr,
     #[error("Invalid peer address format: should be SocketAddrV6")]
diff --git a/network/src/manager.rs b/network/src/manager.rs
index 0597032..ea20bb7 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -266,8 +266,13 @@ impl NetworkManager {
                 handles.push(jh);
             }
         }
+        // A peer that cannot be reached doesn't affect the other ones
         for handle in handles {
-            handle.await??;
+            match handle.await {
+                Ok(Ok(())) => {}
+                Ok(Err(e)) => tracing::warn!("Failed to connect to a peer: {e}"),
+                Err(e) => tracing::warn!("Peer connection task failed: {e}"),
+            }
         }
         Ok(())
     }
@@ -390,16 +395,27 @@ impl NetworkManager {
         block_header: &BlockHeader,
     ) -> Result<(), NetworkError> {
         tracing::debug!("Sending block announcement via mpsc channel...");
-        for peer in self.all_validator_peers.iter() {
-            if let Some(conn) = &peer.value().conn {
-                if let Some(handle_ref) =
-                    conn.up_stream_handles.get(&UpStreamKind::BlockAnnouncement)
-                {
-                    let handle = handle_ref.value();
-                    handle
-                        .send_block_announcement(block_header.block_announcement_blob()?)
-                        .await?
-                }
+        let announcement = block_header.block_announcement_blob()?;
+        let handles: Vec<(SocketAddrV6, UpStreamHandle)> = self
+            .all_validator_peers
+            .iter()
+            .filter_map(|peer| {
+                let conn = peer.value().conn.as_ref()?;
+                let handle = conn
+                    .up_stream_handles
+                    .get(&UpStreamKind::BlockAnnouncement)?;
+                Some((*peer.key(), handle.value().clone()))
+            })
+            .collect();
+
+        // A peer that is gone or doesn't keep up doesn't affect the other ones
+        for (socket_addr, handle) in handles {
+            if let Err(e) = handle.send_block_announcement(announcement.clone()) {
+                tracing::warn!(
+                    "Failed to announce the block to the peer [{}]:{}: {e}",
+                    socket_addr.ip(),
+                    socket_addr.port()
+                );
             }
         }
         Ok(())
diff --git a/network/src/streams/up_streams.rs b/network/src/streams/up_streams.rs
index 5b2211e..6d930cb 100644
--- a/network/src/streams/up_streams.rs
+++ b/network/src/streams/up_streams.rs
@@ -30,8 +30,8 @@ impl UpStreamHandle {
         }
     }
 
-    pub async fn send_block_announcement(&self, blob: Vec<u8>) -> Result<(), NetworkError> {
-        Ok(self.mpsc_sender.send(blob).await?)
+    pub fn send_block_announcement(&self, blob: Vec<u8>) -> Result<(), NetworkError> {
+        Ok(self.mpsc_sender.try_send(blob)?)
     }
 }
 
-- 
2.43.0


From 7e290e27c972f073328820f3ebabe730bbe9e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 20/48] fix: blocks announced in any order are imported

---
 network/src/streams/up_streams.rs | 53 ++++++++++------------
 node/src/roles/importer.rs        | 74 ++++++++++++++++++++++---------
 2 files changed, 78 insertions(+), 49 deletions(-)

diff --git a/network/src/streams/up_streams.rs b/network/src/streams/up_streams.rs
index 6d930cb..93ff78b 100644
--- a/network/src/streams/up_streams.rs
+++ b/network/src/streams/up_streams.rs
@@ -76,37 +76,32 @@ impl UpStreamHandler {
                         block_announcement.header_hash
                     );
 
-                    // Request the block to the announcer
-                    let conn_cloned = conn.clone();
-                    let block_import_mpsc_sender_cloned = block_import_mpsc_sender.clone();
-                    tokio::spawn(async move {
-                        match BlockRequest::request(
-                            conn_cloned,
-                            BlockRequestInitArgs {
-                                header_hash: block_announcement.header_hash,
-                                ascending_excl: false,
-                                max_blocks: 1,
-                            },
-                        )
-                        .await
-                        {
-                            Ok(blocks) => {
-                                let Some(block) = blocks.into_iter().next() else {
-                                    tracing::error!("[UP0 | CE128] Block not served by the peer");
-                                    return;
-                                };
-                                // Block Importer: validate the received block
-                                if let Err(e) = block_import_mpsc_sender_cloned.send(block).await {
-                                    tracing::error!(
-                                        "Block Importer mpsc channel receiver closed: {e}"
-                                    )
-                                }
-                            }
-                            Err(e) => {
-                                tracing::error!("[UP0 | CE128] Block request failed: {e}");
+                    // Request the block to the announcer. Blocks of an announcer are passed to the
+                    // block importer in the order it announced them.
+                    match BlockRequest::request(
+                        conn.clone(),
+                        BlockRequestInitArgs {
+                            header_hash: block_announcement.header_hash,
+                            ascending_excl: false,
+                            max_blocks: 1,
+                        },
+                    )
+                    .await
+                    {
+                        Ok(blocks) => {
+                            let Some(block) = blocks.into_iter().next() else {
+                                tracing::error!("[UP0 | CE128] Block not served by the peer");
+                                continue;
+                            };
+                            // Block Importer: validate the received block
+                            if let Err(e) = block_import_mpsc_sender.send(block).await {
+                                tracing::error!("Block Importer mpsc channel receiver closed: {e}")
                             }
                         }
-                    });
+                        Err(e) => {
+                            tracing::error!("[UP0 | CE128] Block request failed: {e}");
+                        }
+                    }
                 }
                 Ok(None) => {
                     tracing::warn!("[UP0] Stream closed");
diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index ad5dc84..02dfec3 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -111,38 +111,72 @@ pub struct BlockImportOutput {
     pub state_commit_artifact: Option<StateCommitArtifact>,
 }
 
+/// The maximum number of blocks waiting for their parent.
+const MAX_PENDING_BLOCKS: usize = 32;
+
 pub struct BlockImporter;
 impl BlockImporter {
     pub async fn run_block_importer(
         storage: Arc<NodeStorage>,
         mut block_import_mpsc_recv: mpsc::Receiver<Block>,
     ) {
+        // Blocks that arrived before their parent
+        let mut pending_blocks: Vec<Block> = Vec::new();
         while let Some(block) = block_import_mpsc_recv.recv().await {
-            let header_hash = match block.header.hash() {
-                Ok(hash) => hash,
-                Err(e) => {
-                    tracing::error!("Block Import Error (Header hashing failed): {e}");
-                    continue;
-                }
-            };
-            let timeslot_index = block.header.timeslot_index();
-            let state_manager = storage.state_manager();
-            let _guard = state_manager.lock_block_processing().await;
-            match Self::import_block(storage.clone(), block, false, BlockCommitMode::Immediate)
-                .await
-            {
-                Ok(_output) => {
-                    tracing::info!("✅ Block validated ({header_hash}) (slot: {timeslot_index})");
-                }
-                Err(e) => {
-                    tracing::error!("Invalid block: {e}");
-                    // Rollback uncommitted state changes
-                    state_manager.rollback_dirty_cache();
+            pending_blocks.push(block);
+            loop {
+                let state_manager = storage.state_manager();
+                let _guard = state_manager.lock_block_processing().await;
+                let best_header = storage.header_db().get_best_header();
+                let Some(block) = Self::next_importable_block(&mut pending_blocks, &best_header)
+                else {
+                    break;
+                };
+                let header_hash = match block.header.hash() {
+                    Ok(hash) => hash,
+                    Err(e) => {
+                        tracing::error!("Block Import Error (Header hashing failed): {e}");
+                        continue;
+                    }
+                };
+                let timeslot_index = block.header.timeslot_index();
+                match Self::import_block(storage.clone(), block, false, BlockCommitMode::Immediate)
+                    .await
+                {
+                    Ok(_output) => {
+                        tracing::info!(
+                            "✅ Block validated ({header_hash}) (slot: {timeslot_index})"
+                        );
+                    }
+                    Err(e) => {
+                        tracing::error!("Invalid block: {e}");
+                        // Rollback uncommitted state changes
+                        state_manager.rollback_dirty_cache();
+                    }
                 }
             }
         }
     }
 
+    /// Takes a pending block that can be imported now, which is any but one that is later than
+    /// the best block without being its child.
+    fn next_importable_block(
+        pending_blocks: &mut Vec<Block>,
+        best_header: &BlockHeader,
+    ) -> Option<Block> {
+        let best_header_hash = best_header.hash().ok()?;
+        let importable = pending_blocks.iter().position(|block| {
+            block.is_genesis()
+                || block.header.parent_hash() == &best_header_hash
+                || block.header.timeslot_index() <= best_header.timeslot_index()
+        });
+        if importable.is_none() && pending_blocks.len() > MAX_PENDING_BLOCKS {
+            tracing::error!("Too many blocks with unknown parents; dropping the oldest one");
+            pending_blocks.remove(0);
+        }
+        importable.map(|index| pending_blocks.remove(index))
+    }
+
     pub async fn import_block(
         storage: Arc<NodeStorage>,
         block: Block,
-- 
2.43.0


From 3f00457e88bc5cf173c2c4133b87404b61ea2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 21/48] fix: importing and authoring don't wait for unreachable
 peers

---
 node/src/jam_node/runner.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/node/src/jam_node/runner.rs b/node/src/jam_node/runner.rs
index cc88f3f..c60f306 100644
--- a/node/src/jam_node/runner.rs
+++ b/node/src/jam_node/runner.rs
@@ -3,8 +3,11 @@ use crate::{
     scheduler::timeslot_scheduler::TimeslotScheduler,
 };
 use fr_block::types::block::Block;
-use std::{error::Error, sync::Arc};
-use tokio::sync::mpsc;
+use std::{error::Error, sync::Arc, time::Duration};
+use tokio::{sync::mpsc, time::timeout};
+
+/// The maximum time to wait for connections to peers before starting per-slot tasks.
+const PEER_CONNECTION_WAIT: Duration = Duration::from_secs(10);
 
 pub async fn run_node(node: JamNode) -> Result<(), Box<dyn Error>> {
     let node = Arc::new(node);
@@ -13,6 +16,11 @@ pub async fn run_node(node: JamNode) -> Result<(), Box<dyn Error>> {
     const CHANNEL_SIZE: usize = 10;
     let (block_import_mpsc_sender, block_import_mpsc_recv) = mpsc::channel::<Block>(CHANNEL_SIZE);
 
+    let storage = node.storage();
+    let importer_jh = tokio::spawn(async move {
+        BlockImporter::run_block_importer(storage, block_import_mpsc_recv).await
+    });
+
     // Bind to a socket address and start accepting connections
     let node_cloned = node.clone();
     let block_import_mpsc_sender_cloned = block_import_mpsc_sender.clone();
@@ -30,16 +38,16 @@ pub async fn run_node(node: JamNode) -> Result<(), Box<dyn Error>> {
             .await
     });
 
-    // Connect to all peers
-    if let Err(e) = client_jh.await? {
-        tracing::error!("Peer connection error: {e}");
+    // Connect to all peers. The ones that don't respond in time are not waited for.
+    match timeout(PEER_CONNECTION_WAIT, client_jh).await {
+        Ok(res) => {
+            if let Err(e) = res? {
+                tracing::error!("Peer connection error: {e}");
+            }
+        }
+        Err(_) => tracing::warn!("Some peers are not connected yet"),
     }
 
-    let storage = node.storage();
-    let importer_jh = tokio::spawn(async move {
-        BlockImporter::run_block_importer(storage, block_import_mpsc_recv).await
-    });
-
     // Spawn per-slot tasks
     let slots_jh =
         tokio::spawn(async move { TimeslotScheduler::spawn_scheduled_tasks(node).await });
-- 
2.43.0


From ce14ea3a4923a52b62b7a36754f4d268613f14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 22/48] fix: the slot timer never stops, skips or repeats a
 slot

The two clock readings of the boundary calculation could fall into different
slots, in which case the scheduler stopped for good. A delay between them and
the start of the interval shifted the phase of all following ticks, so that a
later delay shorter than a slot skipped one.
---
 clock/src/lib.rs                         |  8 ++--
 node/src/scheduler/timeslot_scheduler.rs | 58 +++++++++++++-----------
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/clock/src/lib.rs b/clock/src/lib.rs
index dcf4fe4..fe56b0e 100644
--- a/clock/src/lib.rs
+++ b/clock/src/lib.rs
@@ -47,10 +47,10 @@ impl<T: UnixTimeProvider> Clock<T> {
     }
 
     pub fn millis_until_next_timeslot_boundary() -> Option<u64> {
-        let millis_since_common_era = Self::millis_since_common_era()?;
-        let offset_millis = millis_since_common_era
-            .checked_sub(((Self::now_jam_timeslot()? as u64) * SLOT_DURATION) * 1_000)?;
-        (SLOT_DURATION * 1_000).checked_sub(offset_millis)
+        const SLOT_DURATION_MILLIS: u64 = SLOT_DURATION * 1_000;
+        // The current timeslot is derived from the same reading of the clock
+        let offset_millis = Self::millis_since_common_era()? % SLOT_DURATION_MILLIS;
+        Some(SLOT_DURATION_MILLIS - offset_millis)
     }
 }
 
diff --git a/node/src/scheduler/timeslot_scheduler.rs b/node/src/scheduler/timeslot_scheduler.rs
index 79468dd..a8f55fe 100644
--- a/node/src/scheduler/timeslot_scheduler.rs
+++ b/node/src/scheduler/timeslot_scheduler.rs
@@ -3,41 +3,47 @@ use fr_clock::JamClock;
 use fr_common::SLOT_DURATION;
 use fr_state::types::Timeslot;
 use std::sync::Arc;
-use tokio::time::{interval_at, Duration, Instant};
+use tokio::time::{sleep_until, Duration, Instant};
+
+const SLOT_DURATION_MILLIS: u64 = SLOT_DURATION * 1_000;
 
 pub struct TimeslotScheduler;
 impl TimeslotScheduler {
     pub async fn spawn_scheduled_tasks(jam_node: Arc<JamNode>) {
-        let next_boundary = match JamClock::millis_until_next_timeslot_boundary() {
-            Some(millis) => Instant::now() + Duration::from_millis(millis),
-            None => {
-                tracing::warn!("Failed to calculate the next timeslot boundary");
-                return;
-            }
-        };
-        let mut interval = interval_at(next_boundary, Duration::from_secs(SLOT_DURATION));
+        let mut last_slot = None;
         tracing::info!("Waiting until timeslot boundary...");
 
         loop {
-            interval.tick().await;
-            let timeslot = match JamClock::now_jam_timeslot() {
-                Some(slot) => Timeslot::new(slot),
-                None => {
-                    tracing::error!("Failed to get current JAM timeslot");
-                    continue;
-                }
+            // Both the timeslot and the time of the next boundary are derived from a single reading
+            // of the clock, anew for each timeslot. This way a delay at any point neither hides a
+            // timeslot nor shifts the following ones.
+            let now = Instant::now();
+            let Some(millis) = JamClock::millis_since_common_era() else {
+                tracing::error!("Failed to get current JAM timeslot");
+                sleep_until(now + Duration::from_millis(SLOT_DURATION_MILLIS)).await;
+                continue;
             };
-            if timeslot.is_epoch_start() {
-                tracing::info!("🏁 New epoch: {:?}, {timeslot:?}", timeslot.epoch())
-            } else {
-                tracing::info!("⏱️ {timeslot:?}");
+            let slot = (millis / SLOT_DURATION_MILLIS) as u32;
+            let is_new_slot = last_slot.is_some_and(|last| slot > last);
+            last_slot = last_slot.max(Some(slot));
+            if is_new_slot {
+                Self::spawn_slot_tasks(jam_node.clone(), Timeslot::new(slot));
             }
-            let jam_node_cloned = jam_node.clone();
-            tokio::spawn(async move {
-                if let Err(e) = extend_chain(jam_node_cloned, &timeslot).await {
-                    tracing::error!("Chain extension error: {e}");
-                }
-            });
+            let millis_until_boundary = SLOT_DURATION_MILLIS - millis % SLOT_DURATION_MILLIS;
+            sleep_until(now + Duration::from_millis(millis_until_boundary)).await;
+        }
+    }
+
+    fn spawn_slot_tasks(jam_node: Arc<JamNode>, timeslot: Timeslot) {
+        if timeslot.is_epoch_start() {
+            tracing::info!("🏁 New epoch: {:?}, {timeslot:?}", timeslot.epoch())
+        } else {
+            tracing::info!("⏱️ {timeslot:?}");
         }
+        tokio::spawn(async move {
+            if let Err(e) = extend_chain(jam_node, &timeslot).await {
+                tracing::error!("Chain extension error: {e}");
+            }
+        });
     }
 }
-- 
2.43.0


From 0372465647153b9cc7357d0953851fdc1bdc0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 23/48] fix: the fuzz target's state replies include preimages
 integrated from extrinsics

---
 node/src/roles/executor.rs       |  8 ++++----
 transition/src/state/services.rs | 22 +++++++++++++++++++++-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/node/src/roles/executor.rs b/node/src/roles/executor.rs
index 4beb37b..13bfd80 100644
--- a/node/src/roles/executor.rs
+++ b/node/src/roles/executor.rs
@@ -28,7 +28,7 @@ use fr_transition::{
         },
         safrole::{mark_safrole_header_markers, transition_safrole},
         services::{
-            transition_on_accumulate, transition_services_integrate_preimages,
+            integrate_preimages_with_changes, transition_on_accumulate,
             transition_services_last_accumulate_at, AccountStateChanges,
         },
         statistics::transition_onchain_statistics,
@@ -255,7 +255,7 @@ impl BlockExecutor {
                 acc_summary.account_state_changes,
             ))
         });
-        let (acc_stats, acc_output_pairs, account_state_changes) = acc_jh.await??;
+        let (acc_stats, acc_output_pairs, mut account_state_changes) = acc_jh.await??;
 
         // LastAccumulateOutputs STF
         let manager = storage.state_manager();
@@ -295,7 +295,7 @@ impl BlockExecutor {
         // Preimage integration STF
         let manager = storage.state_manager();
         let preimage_jh = spawn_timed("preimage_stf", async move {
-            transition_services_integrate_preimages(manager, &preimages_xt).await
+            integrate_preimages_with_changes(manager, &preimages_xt).await
         });
 
         // --- Join: AuthPool, Services(last_accumulate_at), OnChainStatistics, Preimage integration STFs
@@ -304,7 +304,7 @@ impl BlockExecutor {
         auth_pool_res?;
         last_acc_at_res?;
         stats_res?;
-        preimage_res?;
+        account_state_changes.extend(preimage_res?);
 
         Ok(BlockExecutionOutput {
             accumulate_root,
diff --git a/transition/src/state/services.rs b/transition/src/state/services.rs
index ab90b63..8e58fbb 100644
--- a/transition/src/state/services.rs
+++ b/transition/src/state/services.rs
@@ -434,12 +434,23 @@ pub async fn transition_services_integrate_preimages(
     state_manager: Arc<StateManager>,
     preimages_xt: &PreimagesXt,
 ) -> Result<(), TransitionError> {
+    integrate_preimages_with_changes(state_manager, preimages_xt).await?;
+    Ok(())
+}
+
+/// Same as [`transition_services_integrate_preimages`], but also returns the state keys added by
+/// the integrated preimages.
+pub async fn integrate_preimages_with_changes(
+    state_manager: Arc<StateManager>,
+    preimages_xt: &PreimagesXt,
+) -> Result<AccountStateChanges, TransitionError> {
     tracing::info!("Reports: {} preimages xts", preimages_xt.len());
     // Validate preimages extrinsic data.
     let preimages_validator = PreimagesXtValidator::new(state_manager.clone());
     preimages_validator.validate(preimages_xt).await?;
 
     let curr_timeslot = state_manager.get_timeslot().await?;
+    let mut account_state_changes = AccountStateChanges::default();
 
     for xt in preimages_xt.iter() {
         let preimage_data_hash = hash::<Blake2b256>(&xt.preimage_data)?;
@@ -496,8 +507,17 @@ pub async fn transition_services_integrate_preimages(
                     AccountPreimagesEntry::new(xt.preimage_data.clone()),
                 )
                 .await?;
+            account_state_changes
+                .inner
+                .entry(xt.service_id)
+                .or_default()
+                .added_state_keys
+                .insert(get_account_preimage_state_key(
+                    xt.service_id,
+                    &preimage_data_hash,
+                )?);
         }
     }
 
-    Ok(())
+    Ok(account_state_changes)
 }
-- 
2.43.0


From 3aa0f781a4eb882436a6530c83cc12a70ba3f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 24/48] fix: the fuzz target doesn't allocate what a message
 header announces

---
 fuzz/src/utils.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fuzz/src/utils.rs b/fuzz/src/utils.rs
index ff3e57d..6efd402 100644
--- a/fuzz/src/utils.rs
+++ b/fuzz/src/utils.rs
@@ -3,7 +3,10 @@ use crate::{
     types::{FuzzMessageKind, FuzzProtocolMessage},
 };
 use fr_codec::prelude::*;
-use std::path::Path;
+use std::{
+    io::{Error as IoError, ErrorKind},
+    path::Path,
+};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     net::UnixStream,
@@ -19,8 +22,15 @@ impl StreamUtils {
         stream.read_exact(&mut length_buf).await?;
         let message_len = u32::decode_fixed(&mut length_buf.as_slice(), 4)?;
 
-        let mut message_buf = vec![0u8; message_len as usize];
-        stream.read_exact(&mut message_buf).await?;
+        // The buffer grows with the bytes received, not with the length announced.
+        let mut message_buf = Vec::new();
+        stream
+            .take(message_len as u64)
+            .read_to_end(&mut message_buf)
+            .await?;
+        if message_buf.len() < message_len as usize {
+            return Err(IoError::from(ErrorKind::UnexpectedEof).into());
+        }
         let message_kind = FuzzMessageKind::decode(&mut message_buf.as_slice())?;
         Ok(message_kind)
     }
-- 
2.43.0


From 854c06b9f66ef293e843b23d28b6c35f4b7dee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 25/48] fix: decoding doesn't allocate what a length announces
 beyond the input

---
 codec/fr-codec/src/lib.rs   | 22 +++++++++++++++++++---
 common/src/types/mod.rs     |  5 +++++
 state/src/types/services.rs |  2 +-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/codec/fr-codec/src/lib.rs b/codec/fr-codec/src/lib.rs
index 2124931..8f7a169 100644
--- a/codec/fr-codec/src/lib.rs
+++ b/codec/fr-codec/src/lib.rs
@@ -333,10 +333,16 @@ impl<T: JamEncode> JamEncode for Vec<T> {
     }
 }
 
+/// The capacity to reserve for `len` items announced by a length discriminator, which takes no
+/// more memory than the remaining input until the items turn out to exist.
+fn initial_capacity<T, I: JamInput>(input: &I, len: usize) -> usize {
+    len.min(input.remaining_len() / size_of::<T>().max(1))
+}
+
 impl<T: JamDecode> JamDecode for Vec<T> {
     fn decode<I: JamInput>(input: &mut I) -> Result<Self, JamCodecError> {
         let len = usize::decode(input)?; // length discriminator
-        let mut vec = Self::with_capacity(len);
+        let mut vec = Self::with_capacity(initial_capacity::<T, I>(input, len));
         for _ in 0..len {
             vec.push(T::decode(input)?);
         }
@@ -366,7 +372,7 @@ impl<T: JamDecode, const MAX_SIZE: usize> JamDecode for LimitedVec<T, MAX_SIZE>
                 "LimitedVec size limit exceeded".to_string(),
             ));
         }
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::with_capacity(initial_capacity::<T, I>(input, len));
         for _ in 0..len {
             vec.push(T::decode(input)?);
         }
@@ -685,8 +691,13 @@ impl JamDecodeFixed for BitVec<u8, Lsb0> {
     where
         Self: Sized,
     {
-        let mut bv = Self::with_capacity(size_in_bits);
         let expected_bytes = size_in_bits.div_ceil(8);
+        if expected_bytes > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to decode bits".into(),
+            ));
+        }
+        let mut bv = Self::with_capacity(size_in_bits);
         let mut bytes_read = 0;
 
         while bytes_read < expected_bytes {
@@ -731,6 +742,11 @@ impl JamDecodeFixed for Vec<u8> {
     where
         Self: Sized,
     {
+        if size > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to fill buffer".into(),
+            ));
+        }
         let mut buffer = vec![0u8; size];
         input.read(&mut buffer)?;
         Ok(buffer)
diff --git a/common/src/types/mod.rs b/common/src/types/mod.rs
index 2df8180..c4309d0 100644
--- a/common/src/types/mod.rs
+++ b/common/src/types/mod.rs
@@ -163,6 +163,11 @@ impl JamDecode for ByteSequence {
         Self: Sized,
     {
         let len = usize::decode(input)?;
+        if len > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Failed to Decode ByteSequence".into(),
+            ));
+        }
         let mut vec = vec![0u8; len];
         input
             .read(&mut vec)
diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index 31dac09..1ae7c6c 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -518,7 +518,7 @@ impl JamDecode for AccountLookupsEntry {
         Self: Sized,
     {
         let len = usize::decode(input)?;
-        let mut timeslots = Vec::with_capacity(len);
+        let mut timeslots = Vec::new();
         for _ in 0..len {
             let timeslot = Timeslot::decode_fixed(input, 4)?;
             timeslots.push(timeslot)
-- 
2.43.0


From 600b2f32e90c62a733f0ae6f85da9cead66bb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 26/48] Revert "fix: the fuzz target doesn't allocate what a
 message header announces"

This reverts commit 3aa0f781a4eb882436a6530c83cc12a70ba3f6ef.
---
 fuzz/src/utils.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/fuzz/src/utils.rs b/fuzz/src/utils.rs
index 6efd402..ff3e57d 100644
--- a/fuzz/src/utils.rs
+++ b/fuzz/src/utils.rs
@@ -3,10 +3,7 @@ use crate::{
     types::{FuzzMessageKind, FuzzProtocolMessage},
 };
 use fr_codec::prelude::*;
-use std::{
-    io::{Error as IoError, ErrorKind},
-    path::Path,
-};
+use std::path::Path;
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     net::UnixStream,
@@ -22,15 +19,8 @@ impl StreamUtils {
         stream.read_exact(&mut length_buf).await?;
         let message_len = u32::decode_fixed(&mut length_buf.as_slice(), 4)?;
 
-        // The buffer grows with the bytes received, not with the length announced.
-        let mut message_buf = Vec::new();
-        stream
-            .take(message_len as u64)
-            .read_to_end(&mut message_buf)
-            .await?;
-        if message_buf.len() < message_len as usize {
-            return Err(IoError::from(ErrorKind::UnexpectedEof).into());
-        }
+        let mut message_buf = vec![0u8; message_len as usize];
+        stream.read_exact(&mut message_buf).await?;
         let message_kind = FuzzMessageKind::decode(&mut message_buf.as_slice())?;
         Ok(message_kind)
     }
-- 
2.43.0


From 381df919efc8fa1e2855c63402ddc6ce259876b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 27/48] fix: instructions cut off by the end of the code or
 longer than 16 octets decode

---
 pvm/pvm-core/src/program/loader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index a1feab8..324b218 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -9,7 +9,7 @@ use bitvec::prelude::*;
 use fr_codec::prelude::*;
 use fr_pvm_types::{
     common::{MemAddress, RegValue},
-    constants::MAX_SKIP_DISTANCE,
+    constants::{MAX_INST_BLOB_LENGTH, MAX_SKIP_DISTANCE},
 };
 use tracing::Level;
 
@@ -157,7 +157,11 @@ impl ProgramLoader {
             let inst = if next_index > instructions.len() {
                 Instruction::trap()
             } else {
-                Instruction::from_inst_blob(&instructions[idx..next_index], idx as RegValue, skip)?
+                // Octets beyond the end of the instruction sequence are read as zeros
+                let mut inst_blob = [0u8; MAX_INST_BLOB_LENGTH];
+                let blob_end = instructions.len().min(idx + MAX_INST_BLOB_LENGTH);
+                inst_blob[..blob_end - idx].copy_from_slice(&instructions[idx..blob_end]);
+                Instruction::from_inst_blob(&inst_blob, idx as RegValue, skip)?
             };
             decoded_instructions.push(inst);
             let decoded_index = decoded_instructions.len() as u32;
-- 
2.43.0


From ee7363095077ceadb26923eb0956b12a5b7e000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 28/48] fix: the block after a program's first instruction is a
 jump target

---
 pvm/pvm-core/src/program/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index 324b218..ffd72d1 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -92,7 +92,7 @@ impl ProgramLoader {
     fn set_basic_block_start_indices(program: &mut ProgramState) -> Result<(), VMCoreError> {
         program.basic_block_start_indices.set(0, true);
         let instructions_len = program.instructions.len();
-        for n in 1..instructions_len {
+        for n in 0..instructions_len {
             if program
                 .opcode_bitmask
                 .get(n)
-- 
2.43.0


From 3af19495610e877d8cb50c86baf7ad74d396e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 29/48] fix: a program's jump table is not allocated beyond its
 code blob

---
 pvm/pvm-core/src/program/loader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index ffd72d1..f6d7ae5 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -68,6 +68,10 @@ impl ProgramLoader {
         let instructions_len = usize::decode(input)?;
 
         // Decode the dynamic jump table (j)
+        // Every entry takes `z` octets of the input, so a longer table can't be complete
+        if jump_table_len > input.remaining_len() {
+            return Err(VMCoreError::InvalidProgram);
+        }
         let mut jump_table = Vec::with_capacity(jump_table_len);
         for _ in 0..jump_table_len {
             jump_table.push(MemAddress::decode_fixed(input, z as usize)?);
-- 
2.43.0


From ca7e650687f568b3c7dcca0cb0bae6b3582ed635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 30/48] fix: a malformed service program panics instead of
 failing the block

---
 pvm/pvm-interface/src/invoke.rs | 37 +++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 6aa05be..7fa1623 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -196,19 +196,14 @@ impl PVMInterface {
         let cached_program = if let Some(entry) = program_cache().get(&program_hash) {
             entry
         } else {
-            let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
-            if !formatted_program.is_program_size_valid() {
-                return Err(PVMError::VMCoreError(VMCoreError::InvalidProgram));
-            }
-
-            // Initialize the program state
-            let mut program_state = ProgramState::default();
-            ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
-
-            let cached = Arc::new(CachedProgram {
-                formatted_program: Arc::new(formatted_program),
-                program_state: Arc::new(program_state),
-            });
+            let cached = match Self::load_standard_program(standard_program) {
+                Ok(program) => Arc::new(program),
+                Err(e) => {
+                    // A malformed program panics without consuming gas
+                    tracing::warn!("Ψ_M Panic: Failed to load program: {e}");
+                    return Ok(PVMInvocationResult::panic(0));
+                }
+            };
             program_cache().insert(program_hash, cached.clone());
             cached
         };
@@ -257,6 +252,22 @@ impl PVMInterface {
         }
     }
 
+    /// Decodes a standard program blob and loads its code into the initial program state.
+    fn load_standard_program(standard_program: &[u8]) -> Result<CachedProgram, VMCoreError> {
+        let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
+        if !formatted_program.is_program_size_valid() {
+            return Err(VMCoreError::InvalidProgram);
+        }
+
+        let mut program_state = ProgramState::default();
+        ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
+
+        Ok(CachedProgram {
+            formatted_program: Arc::new(formatted_program),
+            program_state: Arc::new(program_state),
+        })
+    }
+
     /// Invokes the PVM general functions including host calls with arguments injected by the `Ψ_M`
     /// common invocation function.
     ///
-- 
2.43.0


From 59b0d7b66cea8e312d9e1ab1c43192ea3b54bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 31/48] fix: a program that halts with an output address beyond
 the memory has no output

---
 pvm/pvm-interface/src/invoke.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 7fa1623..68f2779 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -235,7 +235,9 @@ impl PVMInterface {
         match result.exit_reason {
             ExitReason::OutOfGas => Ok(PVMInvocationResult::out_of_gas(gas_used)),
             ExitReason::RegularHalt => {
-                let start_address = pvm.state.read_reg_as_mem_address(7)?;
+                let Ok(start_address) = pvm.state.read_reg_as_mem_address(7) else {
+                    return Ok(PVMInvocationResult::no_output(gas_used));
+                };
                 let data_len = pvm.state.read_reg(8) as usize;
                 if !pvm
                     .state
-- 
2.43.0


From 0b2d800e811e5364351e2623886c9fba4b8912e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 32/48] fix: a code preimage that doesn't decode is no code

---
 pvm/pvm-host/src/context/partial_state.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 2a5605d..80202f2 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -457,9 +457,8 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
         let code_preimage = self
             .get_account_preimages_entry(state_provider, service_id, &code_hash)
             .await?;
-        Ok(code_preimage
-            .map(|code| AccountCode::decode(&mut code.value.as_slice()))
-            .transpose()?)
+        // A preimage that is not a valid code blob is handled as if there was no code
+        Ok(code_preimage.and_then(|code| AccountCode::decode(&mut code.value.as_slice()).ok()))
     }
 
     pub async fn update_account_footprints(
-- 
2.43.0


From 4a523d56c94943a2ced3f95d3d59fbd41ed6f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 33/48] fix: gas amounts beyond the gas counter's range run out
 of gas instead of failing the block

---
 pvm/pvm-core/src/error.rs       |  5 -----
 pvm/pvm-core/src/gas/mod.rs     | 12 +++++-------
 pvm/pvm-interface/src/invoke.rs |  2 ++
 3 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/pvm/pvm-core/src/error.rs b/pvm/pvm-core/src/error.rs
index 952b482..90128ea 100644
--- a/pvm/pvm-core/src/error.rs
+++ b/pvm/pvm-core/src/error.rs
@@ -3,7 +3,6 @@ use crate::{
     state::{memory::MemoryError, vm_state::RegIndex},
 };
 use fr_codec::JamCodecError;
-use fr_common::UnsignedGas;
 use fr_pvm_types::common::{MemAddress, RegValue};
 use thiserror::Error;
 
@@ -12,10 +11,6 @@ use thiserror::Error;
 pub enum VMCoreError {
     #[error("Out of gas")]
     OutOfGas,
-    #[error("Too large gas charge value: {0}")]
-    TooLargeGasCharge(UnsignedGas),
-    #[error("Gas counter value overflowed")]
-    GasCounterOverflow,
     #[error("Invalid program")]
     InvalidProgram,
     #[error("Program arguments size limit exceeded")]
diff --git a/pvm/pvm-core/src/gas/mod.rs b/pvm/pvm-core/src/gas/mod.rs
index ec3fbdb..a352133 100644
--- a/pvm/pvm-core/src/gas/mod.rs
+++ b/pvm/pvm-core/src/gas/mod.rs
@@ -10,13 +10,11 @@ impl GasCharger {
         vm_state: &mut VMState,
         gas_charge: UnsignedGas,
     ) -> Result<SignedGas, VMCoreError> {
-        let gas_charge_signed: SignedGas = gas_charge
-            .try_into()
-            .map_err(|_| VMCoreError::TooLargeGasCharge(gas_charge))?;
-        vm_state.gas_counter = vm_state
-            .gas_counter
-            .checked_sub(gas_charge_signed)
-            .ok_or(VMCoreError::GasCounterOverflow)?;
+        // A charge beyond what the counter can represent leaves it at its minimum (out-of-gas)
+        vm_state.gas_counter = SignedGas::try_from(gas_charge)
+            .ok()
+            .and_then(|charge| vm_state.gas_counter.checked_sub(charge))
+            .unwrap_or(SignedGas::MIN);
         Ok(vm_state.gas_counter)
     }
 }
diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 68f2779..2208e9f 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -218,6 +218,8 @@ impl PVMInterface {
             return Ok(PVMInvocationResult::panic(0));
         };
         pvm.state.pc = pc;
+        // The gas counter can't represent more than `SignedGas::MAX`
+        let gas_limit = gas_limit.min(SignedGas::MAX as UnsignedGas);
         pvm.state.gas_counter = gas_limit as SignedGas;
 
         let result = Self::invoke_extended(
-- 
2.43.0


From 97b00aaf493e9f08bfbf71c6c3c42d5830fb1d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 34/48] fix: host function identifiers beyond an octet are
 unknown instead of truncated

---
 pvm/pvm-core/src/program/instruction/set.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index 720e507..8790c53 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -172,7 +172,9 @@ impl InstructionSet {
         program_state: &ProgramState,
         ins: &Instruction,
     ) -> Result<SingleStepResult, VMCoreError> {
-        let imm_host_call_type = reg_to_u8(ins.imm1()?);
+        // Identifiers beyond an octet are not known host functions
+        let imm_host_call_type =
+            u8::try_from(ins.imm1()?).unwrap_or(HostCallType::INVALID as u8);
         let exit_reason = ExitReason::HostCall(
             HostCallType::from_u8(imm_host_call_type).ok_or(VMCoreError::InvalidHostCallType)?,
         );
-- 
2.43.0


From d39ba3372a7176c23895c771150751bb9a670dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 35/48] fix: memory accesses beyond the last address panic
 instead of failing the block

---
 pvm/pvm-core/src/program/instruction/set.rs | 31 ++++++++++-----------
 pvm/pvm-core/src/state/state_change.rs      |  4 +++
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index 8790c53..0f823ac 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -173,8 +173,7 @@ impl InstructionSet {
         ins: &Instruction,
     ) -> Result<SingleStepResult, VMCoreError> {
         // Identifiers beyond an octet are not known host functions
-        let imm_host_call_type =
-            u8::try_from(ins.imm1()?).unwrap_or(HostCallType::INVALID as u8);
+        let imm_host_call_type = u8::try_from(ins.imm1()?).unwrap_or(HostCallType::INVALID as u8);
         let exit_reason = ExitReason::HostCall(
             HostCallType::from_u8(imm_host_call_type).ok_or(VMCoreError::InvalidHostCallType)?,
         );
@@ -333,7 +332,7 @@ impl InstructionSet {
             Ok(val) => {
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, val as RegValue)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -353,7 +352,7 @@ impl InstructionSet {
                 let val_extended = VMUtils::sext(val, SextInputSize::Octets1);
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, val_extended)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -378,7 +377,7 @@ impl InstructionSet {
                     val_decoded as RegValue
                 )
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -399,7 +398,7 @@ impl InstructionSet {
                 let val_extended = VMUtils::sext(val_decoded, SextInputSize::Octets2);
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, val_extended)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -424,7 +423,7 @@ impl InstructionSet {
                     val_decoded as RegValue
                 )
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -445,7 +444,7 @@ impl InstructionSet {
                 let val_extended = VMUtils::sext(val_decoded, SextInputSize::Octets4);
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, val_extended)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -465,7 +464,7 @@ impl InstructionSet {
                 let val_decoded = u64::from_le_bytes(val);
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, val_decoded)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -1013,7 +1012,7 @@ impl InstructionSet {
             Ok(val) => {
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, val as RegValue)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -1034,7 +1033,7 @@ impl InstructionSet {
                 let unsigned_val = VMUtils::i64_to_u64(signed_val as i64);
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, unsigned_val)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -1059,7 +1058,7 @@ impl InstructionSet {
                     val_decoded as RegValue
                 )
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -1081,7 +1080,7 @@ impl InstructionSet {
                 let unsigned_val = VMUtils::i64_to_u64(signed_val as i64);
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, unsigned_val)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -1106,7 +1105,7 @@ impl InstructionSet {
                     val_decoded as RegValue
                 )
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -1128,7 +1127,7 @@ impl InstructionSet {
                 let unsigned_val = VMUtils::i64_to_u64(signed_val as i64);
                 continue_with_reg_write!(vm_state.pc, program_state, ins.rs1()?, unsigned_val)
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
@@ -1153,7 +1152,7 @@ impl InstructionSet {
                     val_decoded as RegValue
                 )
             }
-            Err(MemoryError::Forbidden(_)) => mem_panic!(),
+            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => mem_panic!(),
             Err(MemoryError::AccessViolation(addr)) => mem_page_fault!(addr),
             Err(e) => Err(e.into()),
         }
diff --git a/pvm/pvm-core/src/state/state_change.rs b/pvm/pvm-core/src/state/state_change.rs
index 666c87a..c2dcea2 100644
--- a/pvm/pvm-core/src/state/state_change.rs
+++ b/pvm/pvm-core/src/state/state_change.rs
@@ -157,6 +157,10 @@ impl VMStateMutator {
                 Err(MemoryError::AccessViolation(address)) => {
                     return Err(VMCoreError::PageFault(VMUtils::page_start_address(address)))
                 }
+                // Addresses wrap around the end of the memory into the forbidden zone
+                Err(MemoryError::OutOfRange(address)) => {
+                    return Err(VMCoreError::ForbiddenMemZone(address))
+                }
                 Err(e) => return Err(e.into()),
             }
         }
-- 
2.43.0


From 6f8f0ba28af47a925d65b71ac7c1de34c86f938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 36/48] fix: a heap expansion that doesn't fit returns zero
 instead of failing the block

---
 pvm/pvm-core/src/program/instruction/set.rs | 10 ++++++++--
 pvm/pvm-core/src/state/memory.rs            |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index 0f823ac..e684738 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -802,8 +802,14 @@ impl InstructionSet {
         // find the first sequence of inaccessible memory cells that can satisfy the requested size
         let alloc_start = vm_state.memory.get_break(expand_size);
 
-        // try expanding the heap area
-        vm_state.memory.expand_heap(alloc_start, expand_size)?;
+        // try expanding the heap area; an allocation that doesn't fit returns zero
+        if vm_state
+            .memory
+            .expand_heap(alloc_start, expand_size)
+            .is_err()
+        {
+            return continue_with_reg_write!(vm_state.pc, program_state, ins.rd()?, 0);
+        }
 
         // returns the start of the newly allocated heap memory
         continue_with_reg_write!(
diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index bd31710..f8f5990 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -369,7 +369,10 @@ impl Memory {
 
     /// Expand the heap area for the `sbrk` instruction.
     pub fn expand_heap(&mut self, start: MemAddress, size: usize) -> Result<(), MemoryError> {
-        let end = start + size as MemAddress;
+        let end = (start as usize)
+            .checked_add(size)
+            .and_then(|end| MemAddress::try_from(end).ok())
+            .ok_or(MemoryError::OutOfRange(start))?;
         if self.heap_start != 0 && end >= self.stack_start {
             return Err(MemoryError::SbrkHeapStackCollision(
                 start,
-- 
2.43.0


From 8d92b4c2159f4e7a8f8000543371d15df12dbea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 37/48] fix: assigner changes by the manager don't drop those
 by the other assigners

---
 pvm/pvm-host/src/context/partial_state.rs     |  1 -
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 36 +++++++++----------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 80202f2..dcdcab6 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -1108,7 +1108,6 @@ impl AssignServicesPartialState {
     ) -> Result<(), PartialStateError> {
         if let Some(assigners_by_manager) = &other.change_by_bless {
             self.change_by_bless = Some(assigners_by_manager.clone());
-            return Ok(());
         }
 
         for (&core_idx, &assigner_by_self) in &other.change_by_self {
diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 8bc5fd1..554343c 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -3,11 +3,12 @@ use crate::{
     error::PVMInvokeError,
 };
 use fr_common::{
-    workloads::work_report::WorkReport, LookupsKey, Octets, ServiceId, TimeslotIndex, UnsignedGas,
+    workloads::work_report::WorkReport, CoreIndex, LookupsKey, Octets, ServiceId, TimeslotIndex,
+    UnsignedGas,
 };
 use fr_crypto::{hash, Blake2b256};
 use fr_pvm_host::context::partial_state::{
-    AccumulatePartialState, SandboxEntryAccessor, SandboxEntryStatus,
+    AccumulatePartialState, AssignServicesPartialState, SandboxEntryAccessor, SandboxEntryStatus,
 };
 use fr_pvm_types::{
     invoke_args::{AccumulateInputs, AccumulateInvokeArgs, AccumulateOperand, DeferredTransfer},
@@ -591,22 +592,21 @@ async fn accumulate_parallel(
     //
     // Once the state change is confirmed, partial state change fields of the union should be cleared.
 
-    // Confirm the new assign services
-    if let Some(new_assign_services_by_manager) =
-        &partial_state_union.assign_services.change_by_bless
-    {
-        partial_state_union.assign_services.last_confirmed = new_assign_services_by_manager.clone();
-    } else {
-        for (core_idx, new_assign_service_by_self) in
-            &partial_state_union.assign_services.change_by_self
-        {
-            if let Some(assign) = partial_state_union
-                .assign_services
-                .last_confirmed
-                .get_mut(*core_idx as usize)
-            {
-                *assign = *new_assign_service_by_self;
-            }
+    // Confirm the new assign services, core by core: a change by the manager is prioritized over
+    // a change by the previous assigner of the core.
+    let AssignServicesPartialState {
+        last_confirmed,
+        change_by_bless,
+        change_by_self,
+    } = &mut partial_state_union.assign_services;
+    for (core_idx, assign) in last_confirmed.iter_mut().enumerate() {
+        let by_manager = change_by_bless
+            .as_ref()
+            .and_then(|assigners| assigners.get(core_idx))
+            .filter(|by_manager| *by_manager != assign);
+        let by_self = change_by_self.get(&(core_idx as CoreIndex));
+        if let Some(new_assign) = by_manager.or(by_self) {
+            *assign = *new_assign;
         }
     }
 
-- 
2.43.0


From a670feea23f334e91f6b14d37be3fd736acc6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 38/48] fix: preimages provided in a parallel accumulation are
 not lost to the merge of a later service

---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 554343c..0bc566c 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -370,7 +370,7 @@ async fn merge_partial_state_change(
     Ok(())
 }
 
-/// Integrates all provided preimages by a single-service accumulation into the partial state accounts sandbox.
+/// Integrates all preimages provided by the services of a parallel accumulation into the partial state accounts sandbox.
 async fn add_provided_preimages(
     state_manager: Arc<StateManager>,
     partial_state_union: &mut AccumulatePartialState<StateManager>,
@@ -502,6 +502,7 @@ async fn accumulate_parallel(
     let mut service_gas_pairs = Vec::new();
     let mut service_output_pairs = BTreeSet::new();
     let mut new_deferred_transfers = Vec::new();
+    let mut provided_preimages = HashSet::new();
 
     // Concurrent accumulate invocations grouped by service ids.
     let mut handles = Vec::with_capacity(all_service_ids.len());
@@ -569,18 +570,21 @@ async fn accumulate_parallel(
                 // Add deferred transfers
                 new_deferred_transfers.extend(accumulate_result.deferred_transfers);
 
-                // Add provided preimages
-                add_provided_preimages(
-                    state_manager.clone(),
-                    partial_state_union,
-                    accumulate_result.provided_preimages,
-                    curr_timeslot_index,
-                )
-                .await?;
+                // Collect provided preimages
+                provided_preimages.extend(accumulate_result.provided_preimages);
             }
         }
     }
 
+    // Integrate provided preimages, after the changes of all services have been merged
+    add_provided_preimages(
+        state_manager.clone(),
+        partial_state_union,
+        provided_preimages,
+        curr_timeslot_index,
+    )
+    .await?;
+
     // Multiple services that are accumulated in the same `Δ*` round can produce conflicting
     // changes to the privileged services: assigners, designate and registrar.
     // So at this point, `partial_state_union` may hold `Some` variants for both `change_by_bless`
-- 
2.43.0


From c0378dc71eceb4628facc59cc8ef6af7d5f5c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 39/48] fix: preimage expiry near the last timeslot doesn't
 overflow

---
 pvm/pvm-host/src/host_functions/accumulate/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/accumulate/mod.rs b/pvm/pvm-host/src/host_functions/accumulate/mod.rs
index 3f31f72..4ed0e0e 100644
--- a/pvm/pvm-host/src/host_functions/accumulate/mod.rs
+++ b/pvm/pvm-host/src/host_functions/accumulate/mod.rs
@@ -659,7 +659,10 @@ impl<S: HostStateProvider> AccumulateHostFunction<S> {
         };
 
         if entry.value.len() != 2
-            || entry.value[1].slot() + PREIMAGE_EXPIRATION_PERIOD >= curr_timeslot_index
+            || entry.value[1]
+                .slot()
+                .saturating_add(PREIMAGE_EXPIRATION_PERIOD)
+                >= curr_timeslot_index
         {
             continue_huh!()
         }
@@ -1026,7 +1029,9 @@ impl<S: HostStateProvider> AccumulateHostFunction<S> {
                         continue_ok!()
                     }
                     len if len == 2 || len == 3 => {
-                        let is_expired = lookups_timeslots[1].slot() + PREIMAGE_EXPIRATION_PERIOD
+                        let is_expired = lookups_timeslots[1]
+                            .slot()
+                            .saturating_add(PREIMAGE_EXPIRATION_PERIOD)
                             < curr_timeslot_index;
                         if is_expired {
                             if len == 2 {
-- 
2.43.0


From 7f27a8a08fabd8e05f7435f3a8c35f59d5b2a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 40/48] fix: sums of gas limits saturate instead of failing the
 block

---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 33 ++++++-------------
 pvm/pvm-invocation/src/error.rs               |  2 --
 pvm/pvm-types/src/stats.rs                    |  2 +-
 transition/src/state/services.rs              |  8 ++---
 4 files changed, 15 insertions(+), 30 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 0bc566c..b13a498 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -141,20 +141,13 @@ pub async fn accumulate_outer(
         report_idx += processable_reports_prediction;
         let gas_used = service_gas_pairs
             .iter()
-            .try_fold(0u64, |acc, pair| acc.checked_add(pair.gas))
-            .ok_or(PVMInvokeError::GasOverflow)?;
-        let deferred_transfer_gas =
-            prev_deferred_transfers
-                .iter()
-                .try_fold(0u64, |acc, transfer| {
-                    acc.checked_add(transfer.gas_limit)
-                        .ok_or(PVMInvokeError::GasOverflow)
-                })?;
+            .fold(0u64, |acc, pair| acc.saturating_add(pair.gas));
+        let deferred_transfer_gas = prev_deferred_transfers
+            .iter()
+            .fold(0u64, |acc, transfer| acc.saturating_add(transfer.gas_limit));
         remaining_gas_limit = remaining_gas_limit
-            .checked_add(deferred_transfer_gas)
-            .ok_or(PVMInvokeError::GasOverflow)?
-            .checked_sub(gas_used)
-            .ok_or(PVMInvokeError::GasOverflow)?;
+            .saturating_add(deferred_transfer_gas)
+            .saturating_sub(gas_used);
         service_gas_pairs_flattened.extend(service_gas_pairs);
         service_output_pairs_flattened.extend(output_pairs.0);
     }
@@ -701,20 +694,14 @@ async fn accumulate_single_service(
         .iter()
         .flat_map(|wr| wr.digests.iter())
         .filter(|wd| wd.service_id == service_id)
-        .try_fold(0u64, |acc, wd| acc.checked_add(wd.accumulate_gas_limit))
-        .ok_or(PVMInvokeError::GasOverflow)?;
-    gas_limit = gas_limit
-        .checked_add(reports_gas_aggregated)
-        .ok_or(PVMInvokeError::GasOverflow)?;
+        .fold(0u64, |acc, wd| acc.saturating_add(wd.accumulate_gas_limit));
+    gas_limit = gas_limit.saturating_add(reports_gas_aggregated);
 
     let deferred_transfers_gas_aggregated = prev_deferred_transfers
         .iter()
         .filter(|&transfer| transfer.to == service_id)
-        .try_fold(0u64, |acc, transfer| acc.checked_add(transfer.gas_limit))
-        .ok_or(PVMInvokeError::GasOverflow)?;
-    gas_limit = gas_limit
-        .checked_add(deferred_transfers_gas_aggregated)
-        .ok_or(PVMInvokeError::GasOverflow)?;
+        .fold(0u64, |acc, transfer| acc.saturating_add(transfer.gas_limit));
+    gas_limit = gas_limit.saturating_add(deferred_transfers_gas_aggregated);
 
     AccumulateInvocation::<StateManager>::accumulate(
         state_manager,
diff --git a/pvm/pvm-invocation/src/error.rs b/pvm/pvm-invocation/src/error.rs
index a7f5546..31e42d1 100644
--- a/pvm/pvm-invocation/src/error.rs
+++ b/pvm/pvm-invocation/src/error.rs
@@ -25,8 +25,6 @@ pub enum PVMInvokeError {
     MissingAccumulateHostSandbox(ServiceId),
     #[error("Number of work digests exceeds maximum")]
     WorkDigestsOverflow,
-    #[error("Gas usage or gas limit overflowed")]
-    GasOverflow,
     #[error("Zero padded justification data size exceeds SEGMENT_SIZE")]
     PagedProofJustificationBlobTooLarge,
     #[error("Attempted to add or remove service (s={0}) that was removed or added in the same parallel accumulation round")]
diff --git a/pvm/pvm-types/src/stats.rs b/pvm/pvm-types/src/stats.rs
index 68babb0..456524d 100644
--- a/pvm/pvm-types/src/stats.rs
+++ b/pvm/pvm-types/src/stats.rs
@@ -41,7 +41,7 @@ impl AccumulateStats {
         let service_gas_counts: HashMap<ServiceId, UnsignedGas> =
             gas_pairs.iter().fold(HashMap::new(), |mut map, pair| {
                 let service_gas_count = map.entry(pair.service).or_default();
-                *service_gas_count += pair.gas;
+                *service_gas_count = service_gas_count.saturating_add(pair.gas);
                 map
             });
         let service_ids: HashSet<ServiceId> = service_digests_counts
diff --git a/transition/src/state/services.rs b/transition/src/state/services.rs
index 8e58fbb..1e2e7ce 100644
--- a/transition/src/state/services.rs
+++ b/transition/src/state/services.rs
@@ -109,10 +109,10 @@ pub async fn transition_on_accumulate(
         .await?
         .always_accumulate_services;
 
-    let gas_limit = ACCUMULATION_GAS_ALL_CORES.max(
-        ACCUMULATION_GAS_PER_CORE * CORE_COUNT as UnsignedGas
-            + always_accumulate_services.values().sum::<UnsignedGas>(),
-    );
+    let gas_limit = ACCUMULATION_GAS_ALL_CORES.max(always_accumulate_services.values().fold(
+        ACCUMULATION_GAS_PER_CORE * CORE_COUNT as UnsignedGas,
+        |sum, gas| sum.saturating_add(*gas),
+    ));
 
     let mut outer_accumulate_result = accumulate_outer(
         state_manager.clone(),
-- 
2.43.0


From 8d0f677d87810100ad3793f3702bb047e15616cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 41/48] fix: ejecting an account updated or added earlier in
 the accumulation removes it

---
 pvm/pvm-host/src/context/partial_state.rs | 48 ++---------------------
 transition/src/state/services.rs          |  3 +-
 2 files changed, 6 insertions(+), 45 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index dcdcab6..a93eb22 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -387,24 +387,6 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
             .and_then(|sandbox| sandbox.metadata.as_mut()))
     }
 
-    async fn get_account_metadata_clean(
-        &mut self,
-        state_provider: Arc<S>,
-        service_id: ServiceId,
-    ) -> Result<Option<AccountMetadata>, PartialStateError> {
-        let sandbox =
-            if let Some(sandbox) = self.get_account_sandbox(state_provider, service_id).await? {
-                sandbox
-            } else {
-                return Ok(None);
-            };
-        if let SandboxEntryStatus::Clean = sandbox.metadata.entry.status {
-            Ok(sandbox.metadata.entry.value.clone())
-        } else {
-            Ok(sandbox.metadata.clean_snapshot.clone())
-        }
-    }
-
     pub async fn mark_account_metadata_updated(
         &mut self,
         state_provider: Arc<S>,
@@ -1036,22 +1018,6 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
             unreachable!("Account being ejected not found from the global state; this case should be handled by the host function");
         }
 
-        // Lookup the state entry from the global state (or clean snapshot) to determine the final entry status.
-        //
-        // If the entry exists in the global state (or clean snapshot), the new entry should be
-        // marked as `Remove`d, since the operation is effectively attempting to mark the entry as
-        // removed in the sandbox.
-        // Otherwise, the entry should be removed from the sandbox since the operation is removing
-        // entry that is added during the accumulation, only existing in the sandbox.
-        let Some(clean) = self
-            .get_account_metadata_clean(state_provider.clone(), service_id)
-            .await?
-        else {
-            // Removing account metadata entry that only exists in the sandbox.
-            self.remove(&service_id);
-            return Ok(());
-        };
-
         // Remove the last lookups and preimage entries for the account.
         // Since the `EJECT` host function requires that all storage entries associated with the
         // ejecting account must be removed except for the last lookup entry, removing
@@ -1066,16 +1032,10 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
         self.remove_account_lookups_entry(state_provider.clone(), service_id, one_last_lookups_key)
             .await?;
 
-        // Entry with the key already exists in the global state
-        let entry = SandboxEntryVersioned::new_removed(clean);
-        let sandbox = self
-            .get_mut_account_sandbox(state_provider, service_id)
-            .await?
-            .ok_or(PartialStateError::AccountNotFoundFromGlobalState(
-                service_id,
-            ))?;
-
-        sandbox.metadata = entry;
+        // The account is always marked as `Removed`, even if it was updated or added earlier in the
+        // accumulation, so that the removal is propagated when the sandboxes are merged.
+        self.mark_account_metadata_removed(state_provider, service_id)
+            .await?;
         Ok(())
     }
 }
diff --git a/transition/src/state/services.rs b/transition/src/state/services.rs
index 1e2e7ce..dbcf52f 100644
--- a/transition/src/state/services.rs
+++ b/transition/src/state/services.rs
@@ -193,7 +193,8 @@ async fn transition_service_account(
                 )
                 .await?;
         }
-        SandboxEntryStatus::Removed => {
+        // Accounts that were added and removed by the same block are not in the state
+        SandboxEntryStatus::Removed if state_manager.account_exists(service_id).await? => {
             state_manager
                 .with_mut_account_metadata(
                     StateMut::Remove,
-- 
2.43.0


From e2e8d1905ef02bcc55177993ee9de21db4804acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 42/48] fix: a service ID can be reused in the block that
 ejected its account

---
 pvm/pvm-host/src/context/mod.rs           |  8 +++-
 pvm/pvm-host/src/context/partial_state.rs | 19 +++++++++
 transition/src/state/services.rs          | 47 +++++++++++------------
 3 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/pvm/pvm-host/src/context/mod.rs b/pvm/pvm-host/src/context/mod.rs
index 4318b07..644ffea 100644
--- a/pvm/pvm-host/src/context/mod.rs
+++ b/pvm/pvm-host/src/context/mod.rs
@@ -419,7 +419,7 @@ impl<S: HostStateProvider> AccumulateHostContext<S> {
         new_service_id: ServiceId,
     ) -> Result<ServiceId, HostCallError> {
         let code_length = new_account_fields.code_lookups_key.clone().1;
-        let new_account = AccountSandbox {
+        let mut new_account = AccountSandbox {
             metadata: SandboxEntryVersioned::new_added(AccountMetadata {
                 version: SERVICE_ACCOUNT_VERSION,
                 code_hash: new_account_fields.code_hash,
@@ -439,6 +439,12 @@ impl<S: HostStateProvider> AccumulateHostContext<S> {
             _phantom: PhantomData,
         };
 
+        // If the ID belonged to an account that was ejected earlier in the accumulation, the entries
+        // of that account remain removed.
+        if let Some(ejected) = self.partial_state.accounts_sandbox.get(&new_service_id) {
+            new_account.carry_over_removals(ejected);
+        }
+
         self.partial_state
             .accounts_sandbox
             .insert(new_service_id, new_account);
diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index a93eb22..fe53fae 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -219,6 +219,25 @@ impl<S: HostStateProvider> AccountSandbox<S> {
         })
     }
 
+    /// Copies the entries of the `ejected` account sandbox that are marked as removed.
+    pub(crate) fn carry_over_removals(&mut self, ejected: &Self) {
+        fn removals<K, T>(
+            entries: &HashMap<K, SandboxEntryVersioned<T>>,
+        ) -> impl Iterator<Item = (K, SandboxEntryVersioned<T>)> + '_
+        where
+            K: Clone,
+            T: AccountPartialState + Clone,
+        {
+            entries
+                .iter()
+                .filter(|(_, entry)| *entry.status() == SandboxEntryStatus::Removed)
+                .map(|(key, entry)| (key.clone(), entry.clone()))
+        }
+        self.storage.extend(removals(&ejected.storage));
+        self.preimages.extend(removals(&ejected.preimages));
+        self.lookups.extend(removals(&ejected.lookups));
+    }
+
     pub async fn is_ejected(&self) -> bool {
         matches!(self.metadata.status(), SandboxEntryStatus::Removed)
     }
diff --git a/transition/src/state/services.rs b/transition/src/state/services.rs
index dbcf52f..2f9165c 100644
--- a/transition/src/state/services.rs
+++ b/transition/src/state/services.rs
@@ -165,33 +165,32 @@ async fn transition_service_account(
     let mut account_state_change = AccountStateChange::default();
 
     match &sandbox.metadata.status() {
-        SandboxEntryStatus::Added => {
-            state_manager
-                .add_account_metadata(
-                    service_id,
-                    sandbox.metadata.get_cloned().ok_or(
-                        TransitionError::TransitionedServiceAccountMissing(service_id),
-                    )?,
-                )
-                .await?;
-            account_state_change
-                .added_state_keys
-                .insert(get_account_metadata_state_key(service_id)?);
-        }
-        SandboxEntryStatus::Updated => {
+        status @ (SandboxEntryStatus::Added | SandboxEntryStatus::Updated) => {
             let metadata_updated = sandbox.metadata.get_cloned().ok_or(
                 TransitionError::TransitionedServiceAccountMissing(service_id),
             )?;
-            state_manager
-                .with_mut_account_metadata(
-                    StateMut::Update,
-                    service_id,
-                    |metadata| -> Result<(), StateManagerError> {
-                        *metadata = metadata_updated;
-                        Ok(())
-                    },
-                )
-                .await?;
+            // A new account might take the ID of an account that was ejected by the same block
+            if **status == SandboxEntryStatus::Added
+                && !state_manager.account_exists(service_id).await?
+            {
+                state_manager
+                    .add_account_metadata(service_id, metadata_updated)
+                    .await?;
+                account_state_change
+                    .added_state_keys
+                    .insert(get_account_metadata_state_key(service_id)?);
+            } else {
+                state_manager
+                    .with_mut_account_metadata(
+                        StateMut::Update,
+                        service_id,
+                        |metadata| -> Result<(), StateManagerError> {
+                            *metadata = metadata_updated;
+                            Ok(())
+                        },
+                    )
+                    .await?;
+            }
         }
         // Accounts that were added and removed by the same block are not in the state
         SandboxEntryStatus::Removed if state_manager.account_exists(service_id).await? => {
-- 
2.43.0


From 41fa8157281ff4520c638a350ffcdd0bc35b5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 43/48] fix: the authorization trace of an accumulate operand
 is encoded as octets

---
 pvm/pvm-types/src/invoke_args.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-types/src/invoke_args.rs b/pvm/pvm-types/src/invoke_args.rs
index 418186c..29d51bd 100644
--- a/pvm/pvm-types/src/invoke_args.rs
+++ b/pvm/pvm-types/src/invoke_args.rs
@@ -7,7 +7,7 @@ use fr_common::{
 };
 use std::collections::HashMap;
 
-#[derive(Clone, JamEncode)]
+#[derive(Clone)]
 pub struct AccumulateOperand {
     /// `p`: Work package hash (`work_package_hash` of `AvailSpecs`)
     pub work_package_hash: WorkPackageHash,
@@ -25,6 +25,32 @@ pub struct AccumulateOperand {
     pub auth_trace: Vec<u8>,
 }
 
+impl JamEncode for AccumulateOperand {
+    fn size_hint(&self) -> usize {
+        self.work_package_hash.size_hint()
+            + self.segment_root.size_hint()
+            + self.authorizer_hash.size_hint()
+            + self.work_item_payload_hash.size_hint()
+            + self.accumulate_gas_limit.size_hint()
+            + self.refine_result.size_hint()
+            + self.auth_trace.len().size_hint()
+            + self.auth_trace.len()
+    }
+
+    fn encode_to<T: JamOutput>(&self, dest: &mut T) -> Result<(), JamCodecError> {
+        self.work_package_hash.encode_to(dest)?;
+        self.segment_root.encode_to(dest)?;
+        self.authorizer_hash.encode_to(dest)?;
+        self.work_item_payload_hash.encode_to(dest)?;
+        self.accumulate_gas_limit.encode_to(dest)?;
+        self.refine_result.encode_to(dest)?;
+        self.auth_trace.len().encode_to(dest)?;
+        // Octets, each of which takes one octet (unlike the items of an integer sequence)
+        dest.write(&self.auth_trace);
+        Ok(())
+    }
+}
+
 pub type TransferMemo = ByteArray<TRANSFER_MEMO_SIZE>;
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 9fa83e2680ef8697e068e02fddb33d55492fbd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 44/48] fix: the metadata of a service's code is decoded as
 octets

---
 state/src/types/services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index 1ae7c6c..21b4ea8 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -91,7 +91,7 @@ impl JamDecode for AccountCode {
     where
         Self: Sized,
     {
-        let metadata = Vec::<u8>::decode(input)?;
+        let metadata = Octets::decode(input)?.into_vec();
         let code_len = input.remaining_len();
         let code = Vec::<u8>::decode_fixed(input, code_len)?;
         Ok(Self { metadata, code })
-- 
2.43.0


From 03da74708a6281661ef77c1bfcbf4b21476acd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 45/48] fix: dynamic jump table entries take any number of
 octets

---
 pvm/pvm-core/src/program/loader.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index f6d7ae5..36ce2f6 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -74,7 +74,8 @@ impl ProgramLoader {
         }
         let mut jump_table = Vec::with_capacity(jump_table_len);
         for _ in 0..jump_table_len {
-            jump_table.push(MemAddress::decode_fixed(input, z as usize)?);
+            let entry = Vec::<u8>::decode_fixed(input, z as usize)?;
+            jump_table.push(Self::jump_table_entry(&entry));
         }
 
         // Decode the instruction sequence (c)
@@ -91,6 +92,18 @@ impl ProgramLoader {
         Ok((instructions, opcode_bitmask, jump_table))
     }
 
+    /// A dynamic jump table entry, encoded in little-endian order with any number of octets.
+    /// Entries beyond the range of addresses can't be a jump target, just as the last address.
+    fn jump_table_entry(octets: &[u8]) -> MemAddress {
+        let (low, high) = octets.split_at(octets.len().min(size_of::<MemAddress>()));
+        if high.iter().any(|&octet| octet != 0) {
+            return MemAddress::MAX;
+        }
+        low.iter()
+            .rev()
+            .fold(0, |entry, &octet| (entry << 8) | octet as MemAddress)
+    }
+
     /// Collects opcode indices that indicate beginning of basic blocks and sets the
     /// `basic_block_start_indices` of the `ProgramState`.
     fn set_basic_block_start_indices(program: &mut ProgramState) -> Result<(), VMCoreError> {
-- 
2.43.0


From 092c7aea255f5d9a2495b92ba789857682aaa8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 46/48] fix: unsupported CE stream requests are refused instead
 of panicking

A request for a range of blocks, or of a stream kind that is not served yet, made the task that
handles it panic. On the side that initiated the connection this is the task that accepts all
streams of the peer, so that nothing the peer asked for afterwards was served.
---
 network/src/streams/ce_streams/responder.rs | 3 ++-
 storage/src/node_storage.rs                 | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/network/src/streams/ce_streams/responder.rs b/network/src/streams/ce_streams/responder.rs
index 654f79d..6365c4b 100644
--- a/network/src/streams/ce_streams/responder.rs
+++ b/network/src/streams/ce_streams/responder.rs
@@ -52,8 +52,9 @@ impl CeStreamResponder {
                     tracing::error!("[CE128] Failed to process Block Request: {e}");
                 }
             }
+            // TODO: Serve the remaining CE stream kinds
             _ => {
-                unimplemented!()
+                tracing::error!("[{stream_kind}] Unsupported CE stream request");
             }
         }
     }
diff --git a/storage/src/node_storage.rs b/storage/src/node_storage.rs
index e8aa49a..487ef79 100644
--- a/storage/src/node_storage.rs
+++ b/storage/src/node_storage.rs
@@ -27,6 +27,8 @@ pub enum NodeStorageError {
     HeaderNotFoundFromDB(String),
     #[error("Xts with hash {0} not found from the XtDB")]
     XtsNotFoundFromDB(String),
+    #[error("Block requests for a range of blocks are not supported")]
+    UnsupportedBlockRange,
 }
 
 // TODO: Add storages for Shards, etc.
@@ -49,7 +51,8 @@ impl NodeServerTrait for NodeStorage {
             let block = self.get_block(&header_hash).await?;
             Ok(vec![block])
         } else {
-            unimplemented!()
+            // TODO: Serve multiple blocks
+            Err(NodeStorageError::UnsupportedBlockRange)
         }
     }
 }
-- 
2.43.0


From 2b1184b42b3cd29e7b67c0a14e6775033c4906d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 47/48] fix: signed remainders of the least integers have the
 sign of the dividend

---
 pvm/pvm-core/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-core/src/utils.rs b/pvm/pvm-core/src/utils.rs
index 3c1d8fd..37720db 100644
--- a/pvm/pvm-core/src/utils.rs
+++ b/pvm/pvm-core/src/utils.rs
@@ -313,8 +313,8 @@ impl VMUtils {
         if b == 0 {
             a
         } else {
-            let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i64).abs() as i32) % ((b as i64).abs() as i32))
+            // The sign is the one of `a`; also when the absolute value of `a` is out of range
+            a.wrapping_rem(b)
         }
     }
 
@@ -324,8 +324,8 @@ impl VMUtils {
         if b == 0 {
             a
         } else {
-            let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i128).abs() as i64) % ((b as i128).abs() as i64))
+            // The sign is the one of `a`; also when the absolute value of `a` is out of range
+            a.wrapping_rem(b)
         }
     }
 }
-- 
2.43.0


From c62825ea690576e99e47a205fca5a3e76002def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:13 +0000
Subject: [PATCH 48/48] fix: storage errors in the general host calls are not
 taken for absent entries

---
 pvm/pvm-host/src/host_functions/general/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/general/mod.rs b/pvm/pvm-host/src/host_functions/general/mod.rs
index 68c3431..4ac9481 100644
--- a/pvm/pvm-host/src/host_functions/general/mod.rs
+++ b/pvm/pvm-host/src/host_functions/general/mod.rs
@@ -272,9 +272,9 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             };
             service_id_reg
         };
-        let Ok(Some(entry)) = accounts_sandbox
+        let Some(entry) = accounts_sandbox
             .get_account_preimages_entry(state_provider, service_id, &hash)
-            .await
+            .await?
         else {
             continue_none!()
         };
@@ -349,9 +349,9 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             };
             service_id_reg
         };
-        let Ok(Some(entry)) = accounts_sandbox
+        let Some(entry) = accounts_sandbox
             .get_account_storage_entry(state_provider, service_id, &storage_key)
-            .await
+            .await?
         else {
             continue_none!()
         };
@@ -431,9 +431,7 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
         // Threshold balance change simulation
         let maybe_prev_storage_entry = accounts_sandbox
             .get_account_storage_entry(state_provider.clone(), service_id, &storage_key)
-            .await
-            .ok()
-            .flatten();
+            .await?;
 
         let new_storage_entry = if value_size == 0 {
             None
@@ -545,9 +543,9 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             };
             service_id_reg
         };
-        let Ok(Some(metadata)) = accounts_sandbox
+        let Some(metadata) = accounts_sandbox
             .get_account_metadata(state_provider, service_id)
-            .await
+            .await?
         else {
             continue_none!()
         };
-- 
2.43.0

