From c49f5d26734b65c32cf7ffaa1cb2b5e128c2c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:29 +0000
Subject: [PATCH 01/20] fix: flush and sync write out every pending change

The dirty flag was only raised by node writes, so the first put into an
empty map, an overwrite found through the hash table and the headers of a
newly created map were skipped by flush(), sync_all() and sync_data().
---
 src/filedb/inner/dbxxx.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f19afad..ca713d9 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -41,6 +41,12 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         ks_name: &str,
         params: FileDbParams,
     ) -> Result<FileDbXxxInner<KT>> {
+        // the initial headers of a new map are still in the buffers after opening.
+        let is_new = ["key", "val", "idx"].iter().any(|ext| {
+            let pb = path.as_ref().join(format!("{}.{}", ks_name, ext));
+            std::fs::metadata(pb).map_or(true, |md| md.len() == 0)
+        });
+        //
         let key_file = key::KeyFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
         let val_file = val::ValueFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
         let idx_file = idx::IdxFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
@@ -53,7 +59,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             idx_file,
             #[cfg(feature = "htx")]
             htx_file,
-            dirty: false,
+            dirty: is_new,
             _phantom: std::marker::PhantomData,
         })
     }
@@ -635,6 +641,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         let (key_offset, _short_key) = node_.get_ref().keys_get(i);
         debug_assert!(!key_offset.is_zero(), "key_offset: {} != 0", key_offset);
         //
+        self.dirty = true;
         let opt_value = {
             let key_piece = self.key_file.read_piece(key_offset)?;
             #[cfg(feature = "htx")]
@@ -1133,6 +1140,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        self.dirty = true;
         #[cfg(feature = "htx")]
         {
             let hash = key_kt.hash_value();
-- 
2.43.0


From ef263a2468ccd24503bf8e14ef6f8ad35e777d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 02/20] fix: sync_all and sync_data synchronize data already
 flushed

flush() cleared the dirty flag, so a following sync_all() or sync_data()
returned Ok without any fsync.
---
 src/filedb/inner/dbxxx.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index ca713d9..c55688d 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -25,6 +25,8 @@ use super::htx;
 #[derive(Debug)]
 pub struct FileDbXxxInner<KT: DbMapKeyType> {
     dirty: bool,
+    /// flushed data is not synchronized yet, maybe it is of a former session.
+    unsynced: bool,
     //
     key_file: key::KeyFile<KT>,
     val_file: val::ValueFile,
@@ -60,6 +62,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             htx_file,
             dirty: is_new,
+            unsynced: true,
             _phantom: std::marker::PhantomData,
         })
     }
@@ -1031,12 +1034,13 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.flush()?;
             self.dirty = false;
+            self.unsynced = true;
         }
         Ok(())
     }
     #[inline]
     fn sync_all(&mut self) -> Result<()> {
-        if self.is_dirty() {
+        if self.is_dirty() || self.unsynced {
             // save all data and meta
             self.val_file.sync_all()?;
             self.key_file.sync_all()?;
@@ -1044,12 +1048,13 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.sync_all()?;
             self.dirty = false;
+            self.unsynced = false;
         }
         Ok(())
     }
     #[inline]
     fn sync_data(&mut self) -> Result<()> {
-        if self.is_dirty() {
+        if self.is_dirty() || self.unsynced {
             // save all data
             self.val_file.sync_data()?;
             self.key_file.sync_data()?;
@@ -1057,6 +1062,7 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.sync_data()?;
             self.dirty = false;
+            self.unsynced = false;
         }
         Ok(())
     }
-- 
2.43.0


From b26b67d6ca85913cee4537cf7420da9ff547747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 03/20] fix: iterating over an empty map ends instead of
 panicking

---
 src/filedb/inner/dbxxx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index c55688d..46a945c 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1207,7 +1207,10 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
         let depth_nodes = {
             let db_map_inner = RefCell::borrow(&db_map);
             let top_node = db_map_inner.idx_file.read_top_node()?;
-            let mut depth_nodes = vec![(top_node.clone(), 0, 0)];
+            let mut depth_nodes = Vec::new();
+            if !top_node.get_ref().keys_is_empty() {
+                depth_nodes.push((top_node.clone(), 0, 0));
+            }
             let mut node = top_node;
             //
             loop {
-- 
2.43.0


From 980ccbeccd791df8eed47bfb47530ccfe2a42fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 04/20] fix: write dirty cached nodes when a map is dropped
 without flush

The file buffers are written on drop but the dirty nodes in the node cache
were lost, so the index of the reopened map was broken.
---
 src/filedb/inner/idx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 7070e0a..b04e5cb 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -39,6 +39,14 @@ pub struct VarFileNodeCache(pub VarFile, PhantomData<i32>, NodePieceOffset);
 #[derive(Debug)]
 pub struct VarFileNodeCache(pub VarFile, NodeCache, NodePieceOffset);
 
+#[cfg(feature = "node_cache")]
+impl Drop for VarFileNodeCache {
+    /// Write the dirty nodes, the file buffer will be written on its own drop.
+    fn drop(&mut self) {
+        let _ = self.flush_node_cache();
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct IdxFile(pub Rc<RefCell<VarFileNodeCache>>);
 
-- 
2.43.0


From 5f472b9eb661522fc0741862827e8dcf4a3adc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 05/20] fix: small buffer size parameters do not overflow the
 stack

A buffer with only one chunk can not swap chunks, because the first chunk
is never removed: any file larger than a chunk recursed without end.
---
 src/filedb/inner/vfile.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 5d76415..37fb1f7 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -18,6 +18,11 @@ pub struct VarFile {
     pub(crate) piece_mgr: PieceMgr,
 }
 
+/// The buffer needs two chunks or more, because the first chunk is never removed.
+const MIN_NUM_CHUNKS: u16 = 2;
+/// The buffer of per mille is 32 KiB or more, so this gets three chunks or more.
+const PER_MILLE_CHUNK_SIZE_MAX: u32 = 16 * 1024;
+
 impl VarFile {
     /// Creates a new VarFile.
     #[allow(dead_code)]
@@ -38,6 +43,7 @@ impl VarFile {
         max_num_chunks: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        let max_num_chunks = max_num_chunks.max(MIN_NUM_CHUNKS);
         Ok(Self {
             buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks)?,
             piece_mgr,
@@ -55,6 +61,7 @@ impl VarFile {
         per_mille: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        let chunk_size = chunk_size.min(PER_MILLE_CHUNK_SIZE_MAX);
         Ok(Self {
             buf_file: BufFile::with_per_mille(name, file, chunk_size, per_mille)?,
             piece_mgr,
-- 
2.43.0


From f4efe4a2dfa32391fbb50c1171991789dd3a5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 06/20] fix: a reused large free piece keeps its whole size

A value or a key written into a larger free piece recorded the needed size,
so the rest of the piece was lost and the file grew without end.
---
 src/filedb/inner/key.rs | 7 ++++---
 src/filedb/inner/val.rs | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 74ce359..e40fe1f 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -430,11 +430,12 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
+                // a large free piece may be larger than the needed size.
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                (free_piece_offset, self.0.read_piece_size()?)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0f833c1..b936025 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -395,11 +395,12 @@ impl VarFileValueCache {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
+                // a large free piece may be larger than the needed size.
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                (free_piece_offset, self.0.read_piece_size()?)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
-- 
2.43.0


From d01fff7408aa0fc368ef337830f84d575a1b3e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 07/20] fix: keys_count_stats counts the top node and the last
 child nodes

---
 src/filedb/inner/idx.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index b04e5cb..7d5bf5a 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -1432,6 +1432,12 @@ impl VarFileNodeCache {
         keys_vec: &mut KeysCountStats,
     ) -> Result<()> {
         let node = node_.get_ref();
+        let keys_count = node.keys_len();
+        #[cfg(feature = "siamese_debug")]
+        keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
+        #[cfg(not(feature = "siamese_debug"))]
+        keys_vec.touch_size(KeysCount::new(keys_count as u16));
+        //
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1448,11 +1454,6 @@ impl VarFileNodeCache {
                 let node = self
                     .read_node(node_offset)
                     .unwrap_or_else(|_| panic!("offset: {:04x}", node_offset.as_value()));
-                let keys_count = node.get_ref().keys_len();
-                #[cfg(feature = "siamese_debug")]
-                keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
-                #[cfg(not(feature = "siamese_debug"))]
-                keys_vec.touch_size(KeysCount::new(keys_count as u16));
                 self.idx_keys_count_stats(&node, keys_vec)?;
             }
         }
-- 
2.43.0


From b4685c6dcf4998ab826b1af06ba92ed20541fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 08/20] fix: refuse to open a map that is already open with
 another key type

Both maps were created on the same files, each one overwriting the other,
and the files could not be opened any more.
---
 src/filedb/inner/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/mod.rs b/src/filedb/inner/mod.rs
index 2c0c954..2a43053 100644
--- a/src/filedb/inner/mod.rs
+++ b/src/filedb/inner/mod.rs
@@ -1,7 +1,7 @@
 use super::super::DbXxxBase;
 use super::{FileDbMapDbBytes, FileDbMapDbInt, FileDbMapDbString, FileDbParams};
 use std::collections::BTreeMap;
-use std::io::Result;
+use std::io::{Error, ErrorKind, Result};
 use std::path::{Path, PathBuf};
 
 pub(crate) mod dbxxx;
@@ -125,17 +125,33 @@ impl FileDbInner {
 }
 
 impl FileDbInner {
+    /// Refuse the name of a map that is already opened with another key type.
+    fn check_name_is_unused(&self, name: &str) -> Result<()> {
+        if self.db_bytes_map.contains_key(name)
+            || self.db_int_map.contains_key(name)
+            || self.db_string_map.contains_key(name)
+        {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                format!("the map '{}' is opened with another key type", name),
+            ));
+        }
+        Ok(())
+    }
     pub(super) fn create_db_map(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_name_is_unused(name)?;
         let child: FileDbMapDbString = FileDbMapDbString::open(self.path(), name, params)?;
         let _ = self.db_map_insert(name, child);
         Ok(())
     }
     pub(super) fn create_db_map_bytes(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_name_is_unused(name)?;
         let child: FileDbMapDbBytes = FileDbMapDbBytes::open(self.path(), name, params)?;
         let _ = self.db_map_bytes_insert(name, child);
         Ok(())
     }
     pub(super) fn create_db_map_dbint(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_name_is_unused(name)?;
         let child: FileDbMapDbInt = FileDbMapDbInt::open(self.path(), name, params)?;
         let _ = self.db_map_dbint_insert(name, child);
         Ok(())
-- 
2.43.0


From 14a22833b76d1e1d614fe58be81b9e071c95258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 09/20] fix: the first put into an empty map reuses the empty
 top node

A new top node was appended for every put into an empty map and the old one
was lost, so a map that runs empty again and again grew without end.
---
 src/filedb/inner/dbxxx.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 46a945c..e85f6fe 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1175,8 +1175,23 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
             }
         }
         let top_node = self.idx_file.read_top_node()?;
+        let empty_top_node = if top_node.get_ref().keys_is_empty() {
+            Some(top_node.clone())
+        } else {
+            None
+        };
         let active_node = self.insert_into_node_tree_kt(top_node, key_kt, value)?;
-        let new_top_node = active_node.deactivate();
+        let mut new_top_node = active_node.deactivate();
+        if let Some(empty_top_node) = empty_top_node {
+            // over writes the empty top node.
+            let (offset, size) = {
+                let node = empty_top_node.get_ref();
+                (node.offset(), node.size())
+            };
+            let mut node = new_top_node.get_mut();
+            node.set_offset(offset);
+            node.set_size(size);
+        }
         self.idx_file.write_top_node(new_top_node)?;
         Ok(())
     }
-- 
2.43.0


From 31cbb413884f0e1136b5962393bc33326a4ac7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 10/20] fix: bulk operations handle repeated keys in the given
 order

For a repeated key bulk_put kept the first value, bulk_put_string any of
them and bulk_delete returned the value at any of the positions.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c17e31c..2c7a52a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,6 +245,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
+        // the pairs of the same key are put in the given order, the last one wins.
+        vec.reverse();
         vec.sort_by(|a, b| b.0.cmp(a.0));
         while let Some(kv) = vec.pop() {
             self.put(kv.0, kv.1)?;
@@ -260,7 +262,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_unstable_by(|a, b| b.0.cmp(a.0));
+        // the pairs of the same key are put in the given order, the last one wins.
+        vec.reverse();
+        vec.sort_by(|a, b| b.0.cmp(a.0));
         while let Some(kv) = vec.pop() {
             self.put(kv.0, kv.1.as_bytes())?;
         }
@@ -298,7 +302,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         let mut result: Vec<(usize, Option<Vec<u8>>)> = Vec::new();
         let mut vec: Vec<(usize, &Q)> =
             bulk_keys.iter().enumerate().map(|(i, &a)| (i, a)).collect();
-        vec.sort_unstable_by(|a, b| b.1.cmp(a.1));
+        // the same keys are deleted in the given order, the first one gets the value.
+        vec.sort_unstable_by(|a, b| b.1.cmp(a.1).then(b.0.cmp(&a.0)));
         while let Some(ik) = vec.pop() {
             let result_value = self.delete(ik.1)?;
             result.push((ik.0, result_value));
-- 
2.43.0


From c2fe575dbd4182ece4b3fa20895a33813d75c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 11/20] fix: memory string maps keep keys that are not valid
 UTF-8 apart

---
 src/memdb.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/memdb.rs b/src/memdb.rs
index 8cc85dd..3913036 100644
--- a/src/memdb.rs
+++ b/src/memdb.rs
@@ -246,7 +246,7 @@ impl<'a> MemoryDbInner<'a> {
 #[derive(Debug)]
 pub(crate) struct MemoryDbMapDbStringInner<'a> {
     parent: Option<MemoryDbNode<'a>>,
-    mem: BTreeMap<String, Vec<u8>>,
+    mem: BTreeMap<DbString, Vec<u8>>,
 }
 
 impl MemoryDbMapDbStringInner<'_> {
@@ -287,18 +287,15 @@ impl DbXxxBase for MemoryDbMapDbStringInner<'_> {
 
 impl DbXxxObjectSafe<DbString> for MemoryDbMapDbStringInner<'_> {
     fn get_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.get(&key_s).map(|val| val.to_vec());
+        let r = self.mem.get(key).cloned();
         Ok(r)
     }
     fn put_kt(&mut self, key: &DbString, value: &[u8]) -> Result<()> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let _ = self.mem.insert(key_s, value.to_vec());
+        let _ = self.mem.insert(key.clone(), value.to_vec());
         Ok(())
     }
     fn del_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.remove(&key_s);
+        let r = self.mem.remove(key);
         Ok(r)
     }
 }
-- 
2.43.0


From dfa94fa685fdcf3049ddb912aff81506d163586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 12/20] fix: long keys and values do not trip the assertion of
 the buffer

The debug build panicked on a put of a key or a value longer than a chunk
of the buffer: it was written as a small one.
---
 src/filedb/inner/vfile.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 37fb1f7..11118d1 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -22,6 +22,8 @@ pub struct VarFile {
 const MIN_NUM_CHUNKS: u16 = 2;
 /// The buffer of per mille is 32 KiB or more, so this gets three chunks or more.
 const PER_MILLE_CHUNK_SIZE_MAX: u32 = 16 * 1024;
+/// No buffer has smaller chunks: anything longer is not small for the buffer.
+const MIN_CHUNK_SIZE: usize = 4 * 1024;
 
 impl VarFile {
     /// Creates a new VarFile.
@@ -287,7 +289,11 @@ impl rabuf::SmallWrite for VarFile {
     }
     #[inline]
     fn write_all_small(&mut self, buf: &[u8]) -> Result<()> {
-        self.buf_file.write_all_small(buf)
+        if buf.len() <= MIN_CHUNK_SIZE {
+            self.buf_file.write_all_small(buf)
+        } else {
+            self.buf_file.write_all(buf)
+        }
     }
     #[inline]
     fn write_zero(&mut self, size: u32) -> Result<()> {
-- 
2.43.0


From 03bd326eaa804eb3b4c4cdb337fad8a6af44a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 13/20] fix: self-checks on a map with unwritten nodes do not
 panic

---
 src/filedb/inner/tr.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/tr.rs b/src/filedb/inner/tr.rs
index b6fe0f5..d35d7ba 100644
--- a/src/filedb/inner/tr.rs
+++ b/src/filedb/inner/tr.rs
@@ -110,8 +110,12 @@ impl IdxNode {
     }
     #[inline]
     pub(crate) fn idx_write_node_one(&self, file: &mut VarFile) -> Result<()> {
-        let mut locked = RefCell::borrow_mut(&self.0);
-        locked.idx_write_node_one(file)
+        // the node may be borrowed by someone that reads the tree
+        RefCell::borrow(&self.0).idx_write_node_one(file)?;
+        if let Ok(mut locked) = self.0.try_borrow_mut() {
+            locked.is_dirty = false;
+        }
+        Ok(())
     }
 }
 
@@ -800,7 +804,7 @@ impl TreeNode {
         sum_size
     }
     //
-    pub(crate) fn idx_write_node_one(&mut self, file: &mut VarFile) -> Result<()> {
+    pub(crate) fn idx_write_node_one(&self, file: &mut VarFile) -> Result<()> {
         if !self.is_dirty {
             let _phantom = std::marker::PhantomData::<i32>;
             return Ok(());
@@ -924,8 +928,6 @@ impl TreeNode {
         //
         file.write_zero_to_offset(self.offset + self.size)?;
         //
-        self.is_dirty = false;
-        //
         #[cfg(debug_assertions)]
         {
             let _current_pos = file.seek_position()?;
-- 
2.43.0


From 2ea09e67ea2ce98c9319ea276c870400aeda7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 14/20] fix: an unchanged index node that moves to a piece of
 another size is written

---
 src/filedb/inner/tr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/tr.rs b/src/filedb/inner/tr.rs
index d35d7ba..bd011a8 100644
--- a/src/filedb/inner/tr.rs
+++ b/src/filedb/inner/tr.rs
@@ -347,7 +347,10 @@ impl TreeNode {
     }
     #[inline]
     pub fn set_offset(&mut self, offset: NodePieceOffset) {
-        self.offset = offset;
+        if self.offset != offset {
+            self.offset = offset;
+            self.is_dirty = true;
+        }
     }
     #[inline]
     pub fn size(&self) -> NodePieceSize {
-- 
2.43.0


From cb687f764445877ed3563b6accf400a203284700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:41 +0000
Subject: [PATCH 15/20] fix: a map whose creation failed could not be opened
 any more

---
 src/filedb/inner/dbxxx.rs | 56 ++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index e85f6fe..c86badf 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -9,7 +9,7 @@ use std::borrow::Borrow;
 use std::cell::RefCell;
 use std::cmp::Ordering;
 use std::convert::TryInto;
-use std::io::Result;
+use std::io::{ErrorKind, Result};
 use std::path::Path;
 use std::rc::Rc;
 
@@ -37,23 +37,61 @@ pub struct FileDbXxxInner<KT: DbMapKeyType> {
     _phantom: std::marker::PhantomData<KT>,
 }
 
+#[cfg(feature = "htx")]
+const FILE_EXTS: &[&str] = &["key", "val", "idx", "htx"];
+#[cfg(not(feature = "htx"))]
+const FILE_EXTS: &[&str] = &["key", "val", "idx"];
+
 impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
     pub(crate) fn open_with_params<P: AsRef<Path>>(
         path: P,
         ks_name: &str,
         params: FileDbParams,
     ) -> Result<FileDbXxxInner<KT>> {
-        // the initial headers of a new map are still in the buffers after opening.
-        let is_new = ["key", "val", "idx"].iter().any(|ext| {
+        // the files that are made by this opening.
+        let mut new_files = Vec::new();
+        for ext in FILE_EXTS {
             let pb = path.as_ref().join(format!("{}.{}", ks_name, ext));
-            std::fs::metadata(pb).map_or(true, |md| md.len() == 0)
-        });
+            let is_new = match std::fs::metadata(&pb) {
+                Ok(md) => md.is_file() && md.len() == 0,
+                Err(err) => err.kind() == ErrorKind::NotFound,
+            };
+            if is_new {
+                new_files.push(pb);
+            }
+        }
         //
-        let key_file = key::KeyFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
-        let val_file = val::ValueFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
-        let idx_file = idx::IdxFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
+        match Self::open_files(&path, ks_name, &params, !new_files.is_empty()) {
+            Ok(inner) => Ok(inner),
+            Err(err) => {
+                // incomplete new files could not be opened any more.
+                for pb in &new_files {
+                    let _ = std::fs::remove_file(pb);
+                }
+                Err(err)
+            }
+        }
+    }
+    fn open_files<P: AsRef<Path>>(
+        path: P,
+        ks_name: &str,
+        params: &FileDbParams,
+        is_new: bool,
+    ) -> Result<FileDbXxxInner<KT>> {
+        let key_file = key::KeyFile::open_with_params(&path, ks_name, KT::signature(), params)?;
+        let val_file = val::ValueFile::open_with_params(&path, ks_name, KT::signature(), params)?;
+        let idx_file = idx::IdxFile::open_with_params(&path, ks_name, KT::signature(), params)?;
         #[cfg(feature = "htx")]
-        let htx_file = htx::HtxFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
+        let htx_file = htx::HtxFile::open_with_params(&path, ks_name, KT::signature(), params)?;
+        //
+        if is_new {
+            // the initial headers are still in the buffers.
+            key_file.flush()?;
+            val_file.flush()?;
+            idx_file.flush()?;
+            #[cfg(feature = "htx")]
+            htx_file.flush()?;
+        }
         //
         Ok(Self {
             key_file,
-- 
2.43.0


From 52c0ad827b7c3a91c5e96f3b11ee78c9b273ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 16/20] fix: an iterator stepped after an update reads the
 updated tree

---
 src/filedb/inner/dbxxx.rs | 81 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index c86badf..5e23c9d 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -27,6 +27,8 @@ pub struct FileDbXxxInner<KT: DbMapKeyType> {
     dirty: bool,
     /// flushed data is not synchronized yet, maybe it is of a former session.
     unsynced: bool,
+    /// count of the updates of the index node tree.
+    updates: u64,
     //
     key_file: key::KeyFile<KT>,
     val_file: val::ValueFile,
@@ -101,6 +103,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             htx_file,
             dirty: is_new,
             unsynced: true,
+            updates: 0,
             _phantom: std::marker::PhantomData,
         })
     }
@@ -1212,6 +1215,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
                 }
             }
         }
+        self.updates += 1;
         let top_node = self.idx_file.read_top_node()?;
         let empty_top_node = if top_node.get_ref().keys_is_empty() {
             Some(top_node.clone())
@@ -1235,6 +1239,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn del_kt(&mut self, key_kt: &KT) -> Result<Option<Vec<u8>>> {
+        self.updates += 1;
         let top_node = self.idx_file.read_top_node()?;
         let top_node_offset = top_node.get_ref().offset();
         let (top_node, opt_val) = self.delete_from_node_tree_kt(top_node, key_kt)?;
@@ -1248,15 +1253,70 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
 
 // for Iterator
 //
+impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
+    /// the nodes from the top node to the node of the first key that is greater than `key_kt`.
+    fn depth_nodes_after_kt(&mut self, key_kt: &KT) -> Result<Vec<(IdxNode, i32, i32)>> {
+        let mut depth_nodes: Vec<(IdxNode, i32, i32)> = Vec::new();
+        let mut node_ = self.idx_file.read_top_node()?;
+        if node_.get_ref().keys_is_empty() {
+            return Ok(depth_nodes);
+        }
+        loop {
+            let r = {
+                let node = node_.get_ref();
+                #[cfg(not(feature = "tr_has_short_key"))]
+                let r = self.keys_binary_search_kt(node.keys(), key_kt)?;
+                #[cfg(feature = "tr_has_short_key")]
+                let r = self.keys_binary_search_kt(node.keys(), node.short_keys(), key_kt)?;
+                //
+                r
+            };
+            let (k, node_offset) = match r {
+                Ok(k) => (k + 1, NodePieceOffset::new(0)),
+                Err(k) => (k, node_.get_ref().downs_get(k)),
+            };
+            let idx: i32 = k.try_into().unwrap();
+            let is_leaf = node_.get_ref().downs_get(0).is_zero();
+            if !is_leaf {
+                depth_nodes.push((node_, idx, idx));
+                if node_offset.is_zero() {
+                    return Ok(depth_nodes);
+                }
+                node_ = self.idx_file.read_node(node_offset)?;
+            } else if k < node_.get_ref().keys_len() {
+                depth_nodes.push((node_, idx, 0));
+                return Ok(depth_nodes);
+            } else {
+                break;
+            }
+        }
+        // the leaf is finished, goes up to the node that is not finished.
+        while let Some((idx_node, _keys_idx, downs_idx)) = depth_nodes.last_mut() {
+            *downs_idx += 1;
+            if *downs_idx < idx_node.get_ref().downs_len().try_into().unwrap() {
+                break;
+            }
+            depth_nodes.pop();
+        }
+        Ok(depth_nodes)
+    }
+}
+
 #[derive(Debug)]
 pub struct DbXxxIterMut<KT: DbMapKeyType> {
     db_map: Rc<RefCell<FileDbXxxInner<KT>>>,
     /// node depth of top node to leaf node.
     depth_nodes: Vec<(IdxNode, i32, i32)>,
+    /// the updates of the db map that `depth_nodes` is made from.
+    updates: u64,
+    /// the key of the last item.
+    last_key: Option<KT>,
+    is_end: bool,
 }
 
 impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
     pub fn new(db_map: Rc<RefCell<FileDbXxxInner<KT>>>) -> Result<Self> {
+        let updates = RefCell::borrow(&db_map).updates;
         let depth_nodes = {
             let db_map_inner = RefCell::borrow(&db_map);
             let top_node = db_map_inner.idx_file.read_top_node()?;
@@ -1281,8 +1341,23 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
         Ok(Self {
             db_map,
             depth_nodes,
+            updates,
+            last_key: None,
+            is_end: false,
         })
     }
+    /// the nodes may be stale after the db map was updated, finds the next key again.
+    fn follow_updates(&mut self) -> Result<()> {
+        let updates = RefCell::borrow(&self.db_map).updates;
+        if self.updates != updates {
+            self.depth_nodes = match &self.last_key {
+                Some(key_kt) => RefCell::borrow_mut(&self.db_map).depth_nodes_after_kt(key_kt)?,
+                None => Self::new(self.db_map.clone())?.depth_nodes,
+            };
+            self.updates = updates;
+        }
+        Ok(())
+    }
     fn next_piece_offset(&mut self) -> Option<KeyPieceOffset> {
         if self.depth_nodes.is_empty() {
             return None;
@@ -1396,12 +1471,18 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
 impl<KT: DbMapKeyType> Iterator for DbXxxIterMut<KT> {
     type Item = (KT, Vec<u8>);
     fn next(&mut self) -> Option<(KT, Vec<u8>)> {
+        if self.is_end {
+            return None;
+        }
+        self.follow_updates().unwrap();
         if let Some(key_offset) = self.next_piece_offset() {
             let db_map_inner = RefCell::borrow_mut(&self.db_map);
             let key = db_map_inner.load_key_data(key_offset).unwrap();
             let value_vec = db_map_inner.load_value(key_offset).unwrap();
+            self.last_key = Some(key.clone());
             Some((key, value_vec))
         } else {
+            self.is_end = true;
             None
         }
     }
-- 
2.43.0


From 8218ee0acdf28d4f501cd11f76ff9c4885d278b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 17/20] fix: a deleted node is removed from the node cache

With nc_lru or nc_lfu the bean of a deleted node stayed in the cache. When its
offset was used again by a new node and the old bean was evicted, the new node
could not be found in the cache any more: its changes were lost.
---
 src/filedb/inner/nc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/nc.rs b/src/filedb/inner/nc.rs
index 21d8c52..d107c71 100644
--- a/src/filedb/inner/nc.rs
+++ b/src/filedb/inner/nc.rs
@@ -332,8 +332,12 @@ impl NodeCache {
     pub fn delete(&mut self, node_offset: &NodePieceOffset) -> Option<NodePieceSize> {
         match self.map.remove(&node_offset.as_value()) {
             Some(idx) => {
-                let ncb = self.vec.get_mut(idx).unwrap();
-                ncb.node = None;
+                // removes the bean, because its offset may be used again by a new node.
+                let ncb = self.vec.swap_remove(idx);
+                if idx < self.vec.len() {
+                    let off = self.vec[idx].node_offset;
+                    self.map.insert(&off.as_value(), idx);
+                }
                 Some(ncb.node_size)
             }
             None => None,
-- 
2.43.0


From 98aaac440ee567a3ae6c7fbe6a879316d437a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 18/20] fix: a piece that could not be written is given back,
 the file is not cut off in the middle

---
 src/filedb/inner/key.rs | 6 +++++-
 src/filedb/inner/val.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index e40fe1f..30948ab 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -444,7 +444,11 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
                 Ok(()) => (),
                 Err(err) => {
                     // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    let _ = if free_piece_offset.is_zero() {
+                        self.0.set_file_length(new_piece_offset)
+                    } else {
+                        self.0.push_free_piece_list(new_piece_offset, new_piece_size)
+                    };
                     return Err(err);
                 }
             }
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index b936025..a6ec67a 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -409,7 +409,11 @@ impl VarFileValueCache {
                 Ok(()) => (),
                 Err(err) => {
                     // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    let _ = if free_piece_offset.is_zero() {
+                        self.0.set_file_length(new_piece_offset)
+                    } else {
+                        self.0.push_free_piece_list(new_piece_offset, new_piece_size)
+                    };
                     return Err(err);
                 }
             }
-- 
2.43.0


From c8a9b0b9f454f0f8a0e7a9d4658aeb7c9a91cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 19/20] fix: an update frees the pieces it replaces after they
 are no longer referred

---
 src/filedb/inner/dbxxx.rs | 36 +++++++++++++++++++++++++++++-------
 src/filedb/inner/key.rs   |  5 +----
 src/filedb/inner/val.rs   |  5 +----
 3 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 5e23c9d..a7eecf1 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -29,6 +29,8 @@ pub struct FileDbXxxInner<KT: DbMapKeyType> {
     unsynced: bool,
     /// count of the updates of the index node tree.
     updates: u64,
+    /// the pieces that the running update makes useless.
+    useless: (KeyPieceOffset, ValuePieceOffset),
     //
     key_file: key::KeyFile<KT>,
     val_file: val::ValueFile,
@@ -104,6 +106,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             dirty: is_new,
             unsynced: true,
             updates: 0,
+            useless: Default::default(),
             _phantom: std::marker::PhantomData,
         })
     }
@@ -532,17 +535,34 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         value: &[u8],
     ) -> Result<KeyPieceOffset> {
         let mut key_piece = self.key_file.read_piece(piece_offset)?;
-        let mut val_piece = self.val_file.read_piece(key_piece.value_offset)?;
+        let old_value_offset = key_piece.value_offset;
+        let mut val_piece = self.val_file.read_piece(old_value_offset)?;
         val_piece.value = value.to_vec();
         let new_value_piece = self.val_file.write_piece(val_piece)?;
-        let new_key_piece = if key_piece.value_offset == new_value_piece.offset {
+        let new_key_piece = if old_value_offset == new_value_piece.offset {
             key_piece
         } else {
             key_piece.value_offset = new_value_piece.offset;
-            self.key_file.write_piece(key_piece)?
+            let new_key_piece = self.key_file.write_piece(key_piece)?;
+            self.useless.1 = old_value_offset;
+            if new_key_piece.offset != piece_offset {
+                self.useless.0 = piece_offset;
+            }
+            new_key_piece
         };
         Ok(new_key_piece.offset)
     }
+    /// deletes the pieces that no longer are referred, after the update is complete.
+    fn delete_useless_pieces(&mut self) -> Result<()> {
+        let (key_offset, value_offset) = std::mem::take(&mut self.useless);
+        if !value_offset.is_zero() {
+            self.val_file.delete_piece(value_offset)?;
+        }
+        if !key_offset.is_zero() {
+            self.key_file.delete_piece(key_offset)?;
+        }
+        Ok(())
+    }
     #[inline]
     fn balance_on_insert(
         &mut self,
@@ -697,8 +717,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             let value = self
                 .val_file
                 .read_piece_only_value(key_piece.value_offset)?;
-            self.val_file.delete_piece(key_piece.value_offset)?;
-            self.key_file.delete_piece(key_offset)?;
+            self.useless = (key_offset, key_piece.value_offset);
             Some(value)
         };
         let node_offset1 = node_.get_ref().downs_get(i);
@@ -1188,6 +1207,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
         self.dirty = true;
+        self.useless = Default::default();
         #[cfg(feature = "htx")]
         {
             let hash = key_kt.hash_value();
@@ -1208,7 +1228,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
                     //
                     let new_piece_offset = self.store_value_on_insert(key_offset, value)?;
                     assert!(key_offset == new_piece_offset);
-                    return Ok(());
+                    return self.delete_useless_pieces();
                 } else {
                     #[cfg(feature = "htx_print_hits")]
                     self.htx_file.set_miss();
@@ -1235,11 +1255,12 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
             node.set_size(size);
         }
         self.idx_file.write_top_node(new_top_node)?;
-        Ok(())
+        self.delete_useless_pieces()
     }
     #[inline]
     fn del_kt(&mut self, key_kt: &KT) -> Result<Option<Vec<u8>>> {
         self.updates += 1;
+        self.useless = Default::default();
         let top_node = self.idx_file.read_top_node()?;
         let top_node_offset = top_node.get_ref().offset();
         let (top_node, opt_val) = self.delete_from_node_tree_kt(top_node, key_kt)?;
@@ -1247,6 +1268,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
         if top_node_offset != new_top_node.get_ref().offset() {
             self.idx_file.write_top_node(new_top_node)?;
         }
+        self.delete_useless_pieces()?;
         Ok(opt_val)
     }
 }
diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 30948ab..b830435 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -421,11 +421,8 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
                 piece.size = old_piece_size;
                 piece.dat_write_piece_one(&mut self.0)?;
                 return Ok(piece);
-            } else {
-                // delete old and add new
-                // old
-                self.0.push_free_piece_list(piece.offset, old_piece_size)?;
             }
+            // the caller deletes the old after the new is referred.
         }
         // add new.
         {
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index a6ec67a..1da7a8e 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -386,11 +386,8 @@ impl VarFileValueCache {
                 piece.size = old_piece_size;
                 piece.dat_write_piece_one(&mut self.0)?;
                 return Ok(piece);
-            } else {
-                // delete old and add new
-                // old
-                self.0.push_free_piece_list(piece.offset, old_piece_size)?;
             }
+            // the caller deletes the old after the new is referred.
         }
         // add new.
         {
-- 
2.43.0


From 3288d1ffab6e25ebd50d0baaf0919523246a66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:12 +0000
Subject: [PATCH 20/20] fix: a key or value that is too long for the files is
 refused

The lengths in the key and value files are 32 bits. A put of a longer value
returned Ok and stored it with a truncated length.
---
 src/filedb/inner/dbxxx.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index a7eecf1..b26472b 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -9,7 +9,7 @@ use std::borrow::Borrow;
 use std::cell::RefCell;
 use std::cmp::Ordering;
 use std::convert::TryInto;
-use std::io::{ErrorKind, Result};
+use std::io::{Error, ErrorKind, Result};
 use std::path::Path;
 use std::rc::Rc;
 
@@ -46,6 +46,9 @@ const FILE_EXTS: &[&str] = &["key", "val", "idx", "htx"];
 #[cfg(not(feature = "htx"))]
 const FILE_EXTS: &[&str] = &["key", "val", "idx"];
 
+/// the length and the piece size, that has some more bytes, are 32 bits in the files.
+const DATA_LEN_MAX: usize = u32::MAX as usize - 255;
+
 impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
     pub(crate) fn open_with_params<P: AsRef<Path>>(
         path: P,
@@ -1206,6 +1209,12 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        if key_kt.as_bytes().len() > DATA_LEN_MAX || value.len() > DATA_LEN_MAX {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "the key or the value is too long",
+            ));
+        }
         self.dirty = true;
         self.useless = Default::default();
         #[cfg(feature = "htx")]
-- 
2.43.0

