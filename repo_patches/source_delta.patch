From 2838814c8ae61ac79818a37d01f85220ce20d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 01/15] verif hook: open a file map with any key type (cfg
 siamesedb_verif)

---
 src/filedb/dbmap/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/filedb/dbmap/mod.rs b/src/filedb/dbmap/mod.rs
index 19368b5..fd6ec8d 100644
--- a/src/filedb/dbmap/mod.rs
+++ b/src/filedb/dbmap/mod.rs
@@ -36,6 +36,19 @@ impl<KT: DbMapKeyType> FileDbMap<KT> {
     }
 }
 
+/// hook for verification only: open a map with any key type.
+#[allow(unexpected_cfgs)]
+#[cfg(siamesedb_verif)]
+impl<KT: DbMapKeyType> FileDbMap<KT> {
+    pub fn verif_open<P: AsRef<Path>>(
+        path: P,
+        ks_name: &str,
+        params: FileDbParams,
+    ) -> Result<FileDbMap<KT>> {
+        Self::open(path, ks_name, params)
+    }
+}
+
 /// for debug
 impl<KT: DbMapKeyType + std::fmt::Display> CheckFileDbMap for FileDbMap<KT> {
     #[cfg(feature = "htx")]
-- 
2.43.0


From c9a98151c74abf48e411b639dc019996a20219c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 02/15] fix: iterating an empty map ends instead of panicking

---
 src/filedb/inner/dbxxx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f19afad..f19faca 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1239,6 +1239,9 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
                     .get_ref()
                     .downs_get((*downs_idx).try_into().unwrap());
                 if node_offset.is_zero() {
+                    if idx_node.get_ref().keys_is_empty() {
+                        return None;
+                    }
                     idx_node.get_ref().keys_get((*keys_idx).try_into().unwrap())
                 } else {
                     {
@@ -1261,6 +1264,9 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
                     .get_ref()
                     .downs_get((*downs_idx).try_into().unwrap());
                 if node_offset.is_zero() {
+                    if idx_node.get_ref().keys_is_empty() {
+                        return None;
+                    }
                     idx_node.get_ref().keys_get((*keys_idx).try_into().unwrap())
                 } else {
                     {
-- 
2.43.0


From 0e24fd8d936e39145830908812e957e52d766150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 03/15] fix: every put marks the map as having unsaved changes

---
 src/filedb/inner/dbxxx.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f19faca..3c42744 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1133,6 +1133,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        self.dirty = true;
         #[cfg(feature = "htx")]
         {
             let hash = key_kt.hash_value();
-- 
2.43.0


From 8b32cee76a3f9580f6d35de71442ac67605b1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 04/15] fix: a sync after a flush still reaches the storage
 device

---
 src/filedb/inner/dbxxx.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 3c42744..c536c19 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -25,6 +25,8 @@ use super::htx;
 #[derive(Debug)]
 pub struct FileDbXxxInner<KT: DbMapKeyType> {
     dirty: bool,
+    /// flushed but not yet synced.
+    unsynced: bool,
     //
     key_file: key::KeyFile<KT>,
     val_file: val::ValueFile,
@@ -54,6 +56,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             htx_file,
             dirty: false,
+            unsynced: false,
             _phantom: std::marker::PhantomData,
         })
     }
@@ -1024,12 +1027,13 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.flush()?;
             self.dirty = false;
+            self.unsynced = true;
         }
         Ok(())
     }
     #[inline]
     fn sync_all(&mut self) -> Result<()> {
-        if self.is_dirty() {
+        if self.is_dirty() || self.unsynced {
             // save all data and meta
             self.val_file.sync_all()?;
             self.key_file.sync_all()?;
@@ -1037,12 +1041,13 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.sync_all()?;
             self.dirty = false;
+            self.unsynced = false;
         }
         Ok(())
     }
     #[inline]
     fn sync_data(&mut self) -> Result<()> {
-        if self.is_dirty() {
+        if self.is_dirty() || self.unsynced {
             // save all data
             self.val_file.sync_data()?;
             self.key_file.sync_data()?;
@@ -1050,6 +1055,7 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.sync_data()?;
             self.dirty = false;
+            self.unsynced = false;
         }
         Ok(())
     }
-- 
2.43.0


From 20256bee7345f182d0fe18eb6770e7d8f3bc48bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 05/15] fix: inspecting a large modified map no longer panics
 when the node cache overflows

---
 src/filedb/inner/tr.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/tr.rs b/src/filedb/inner/tr.rs
index b6fe0f5..0caa1fd 100644
--- a/src/filedb/inner/tr.rs
+++ b/src/filedb/inner/tr.rs
@@ -110,8 +110,12 @@ impl IdxNode {
     }
     #[inline]
     pub(crate) fn idx_write_node_one(&self, file: &mut VarFile) -> Result<()> {
-        let mut locked = RefCell::borrow_mut(&self.0);
-        locked.idx_write_node_one(file)
+        RefCell::borrow(&self.0).idx_write_node_one(file)?;
+        // a reader may be holding this node while the cache writes it out.
+        if let Ok(mut locked) = RefCell::try_borrow_mut(&self.0) {
+            locked.is_dirty = false;
+        }
+        Ok(())
     }
 }
 
@@ -800,7 +804,7 @@ impl TreeNode {
         sum_size
     }
     //
-    pub(crate) fn idx_write_node_one(&mut self, file: &mut VarFile) -> Result<()> {
+    pub(crate) fn idx_write_node_one(&self, file: &mut VarFile) -> Result<()> {
         if !self.is_dirty {
             let _phantom = std::marker::PhantomData::<i32>;
             return Ok(());
@@ -924,8 +928,6 @@ impl TreeNode {
         //
         file.write_zero_to_offset(self.offset + self.size)?;
         //
-        self.is_dirty = false;
-        //
         #[cfg(debug_assertions)]
         {
             let _current_pos = file.seek_position()?;
-- 
2.43.0


From 8ea98cb95d61cc82efc8b763792133bd7fe74eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 06/15] fix: the node of an empty map is freed when the first
 key replaces it

---
 src/filedb/inner/dbxxx.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index c536c19..4a1a9df 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -357,11 +357,14 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         key_kt: &KT,
         value: &[u8],
     ) -> Result<IdxNode> {
+        if node_.get_ref().keys_is_empty() {
+            let active_node = self.keys_is_empty_on_insert_(key_kt, value)?;
+            // the empty node is replaced by the active node.
+            self.idx_file.delete_node(node_)?;
+            return Ok(active_node);
+        }
         let r = {
             let node = node_.get_ref();
-            if node.keys_is_empty() {
-                return self.keys_is_empty_on_insert_(key_kt, value);
-            }
             #[cfg(not(feature = "tr_has_short_key"))]
             let r = self.keys_binary_search_kt(node.keys(), key_kt)?;
             #[cfg(feature = "tr_has_short_key")]
-- 
2.43.0


From 0cee9eaa4258fa68ab336ec2b2fb0fa68ea63b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 07/15] fix: reusing a larger free piece keeps its whole size

---
 src/filedb/inner/key.rs | 9 ++++++---
 src/filedb/inner/val.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 74ce359..79b544e 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -430,11 +430,14 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                // a large free piece may be larger than the requested size.
+                let piece_size = self.0.read_piece_size()?;
+                self.0.seek_from_start(free_piece_offset)?;
+                (free_piece_offset, piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0f833c1..08a88b2 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -395,11 +395,14 @@ impl VarFileValueCache {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                // a large free piece may be larger than the requested size.
+                let piece_size = self.0.read_piece_size()?;
+                self.0.seek_from_start(free_piece_offset)?;
+                (free_piece_offset, piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
-- 
2.43.0


From 259c7423f8d07209aa5f8ad9f1cc572ba6ea23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 08/15] fix: a failed write into a reused piece no longer
 truncates the file

---
 src/filedb/inner/key.rs | 6 ++++--
 src/filedb/inner/val.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 79b544e..a2593bb 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -445,8 +445,10 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
             match piece.dat_write_piece_one(&mut self.0) {
                 Ok(()) => (),
                 Err(err) => {
-                    // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    // recover on error, a reused piece has other pieces behind it.
+                    if free_piece_offset.is_zero() {
+                        let _ = self.0.set_file_length(new_piece_offset);
+                    }
                     return Err(err);
                 }
             }
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 08a88b2..87cf16c 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -410,8 +410,10 @@ impl VarFileValueCache {
             match piece.dat_write_piece_one(&mut self.0) {
                 Ok(()) => (),
                 Err(err) => {
-                    // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    // recover on error, a reused piece has other pieces behind it.
+                    if free_piece_offset.is_zero() {
+                        let _ = self.0.set_file_length(new_piece_offset);
+                    }
                     return Err(err);
                 }
             }
-- 
2.43.0


From fd11389755392700089711b61c892d6016b8f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 09/15] fix: a sync of a new map saves its headers

---
 src/filedb/inner/dbxxx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 4a1a9df..4d293bb 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -43,6 +43,10 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         ks_name: &str,
         params: FileDbParams,
     ) -> Result<FileDbXxxInner<KT>> {
+        // the headers of a new map have not been saved yet.
+        let idx_path = path.as_ref().join(format!("{}.idx", ks_name));
+        let is_new = !matches!(std::fs::metadata(idx_path), Ok(meta) if meta.len() > 0);
+        //
         let key_file = key::KeyFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
         let val_file = val::ValueFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
         let idx_file = idx::IdxFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
@@ -55,7 +59,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             idx_file,
             #[cfg(feature = "htx")]
             htx_file,
-            dirty: false,
+            dirty: is_new,
             unsynced: false,
             _phantom: std::marker::PhantomData,
         })
-- 
2.43.0


From bd0096392295e5ef061dd33248679ba3fe793595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 10/15] fix: bulk operations treat repeated keys in the given
 order

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c17e31c..120c6aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -191,8 +191,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         let mut result: Vec<(usize, Option<Vec<u8>>)> = Vec::new();
         let mut vec: Vec<(usize, &Q)> =
             bulk_keys.iter().enumerate().map(|(i, &a)| (i, a)).collect();
-        vec.sort_unstable_by(|a, b| b.1.cmp(a.1));
-        while let Some(ik) = vec.pop() {
+        vec.sort_by(|a, b| a.1.cmp(b.1));
+        for ik in vec {
             let result_value = self.get(ik.1)?;
             result.push((ik.0, result_value));
         }
@@ -245,8 +245,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1)?;
         }
         Ok(())
@@ -260,8 +260,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_unstable_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1.as_bytes())?;
         }
         Ok(())
@@ -298,8 +298,8 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         let mut result: Vec<(usize, Option<Vec<u8>>)> = Vec::new();
         let mut vec: Vec<(usize, &Q)> =
             bulk_keys.iter().enumerate().map(|(i, &a)| (i, a)).collect();
-        vec.sort_unstable_by(|a, b| b.1.cmp(a.1));
-        while let Some(ik) = vec.pop() {
+        vec.sort_by(|a, b| a.1.cmp(b.1));
+        for ik in vec {
             let result_value = self.delete(ik.1)?;
             result.push((ik.0, result_value));
         }
-- 
2.43.0


From 5c8de1ca41a973b81dbee35a01420579865ef116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 11/15] fix: memory string maps tell apart keys that are not
 UTF-8

---
 src/memdb.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/memdb.rs b/src/memdb.rs
index 8cc85dd..3913036 100644
--- a/src/memdb.rs
+++ b/src/memdb.rs
@@ -246,7 +246,7 @@ impl<'a> MemoryDbInner<'a> {
 #[derive(Debug)]
 pub(crate) struct MemoryDbMapDbStringInner<'a> {
     parent: Option<MemoryDbNode<'a>>,
-    mem: BTreeMap<String, Vec<u8>>,
+    mem: BTreeMap<DbString, Vec<u8>>,
 }
 
 impl MemoryDbMapDbStringInner<'_> {
@@ -287,18 +287,15 @@ impl DbXxxBase for MemoryDbMapDbStringInner<'_> {
 
 impl DbXxxObjectSafe<DbString> for MemoryDbMapDbStringInner<'_> {
     fn get_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.get(&key_s).map(|val| val.to_vec());
+        let r = self.mem.get(key).cloned();
         Ok(r)
     }
     fn put_kt(&mut self, key: &DbString, value: &[u8]) -> Result<()> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let _ = self.mem.insert(key_s, value.to_vec());
+        let _ = self.mem.insert(key.clone(), value.to_vec());
         Ok(())
     }
     fn del_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.remove(&key_s);
+        let r = self.mem.remove(key);
         Ok(r)
     }
 }
-- 
2.43.0


From 55a11473442543944a750afa83164bd1a6f68003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 12/15] fix: the keys-per-node statistics count every node

---
 src/filedb/inner/idx.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 7070e0a..ac537ce 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -1424,6 +1424,11 @@ impl VarFileNodeCache {
         keys_vec: &mut KeysCountStats,
     ) -> Result<()> {
         let node = node_.get_ref();
+        let keys_count = node.keys_len();
+        #[cfg(feature = "siamese_debug")]
+        keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
+        #[cfg(not(feature = "siamese_debug"))]
+        keys_vec.touch_size(KeysCount::new(keys_count as u16));
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1440,11 +1445,6 @@ impl VarFileNodeCache {
                 let node = self
                     .read_node(node_offset)
                     .unwrap_or_else(|_| panic!("offset: {:04x}", node_offset.as_value()));
-                let keys_count = node.get_ref().keys_len();
-                #[cfg(feature = "siamese_debug")]
-                keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
-                #[cfg(not(feature = "siamese_debug"))]
-                keys_vec.touch_size(KeysCount::new(keys_count as u16));
                 self.idx_keys_count_stats(&node, keys_vec)?;
             }
         }
-- 
2.43.0


From 2ce97ba8b628d744cc3218d056af0715a7f76d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 13/15] fix: values and keys larger than a buffer chunk can be
 written

---
 src/filedb/inner/key.rs | 2 +-
 src/filedb/inner/val.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index a2593bb..447d7ca 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -371,7 +371,7 @@ impl<KT: DbMapKeyType> KeyPiece<KT> {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_key_len(key_len)?;
-        file.write_all_small(key)?;
+        file.write_all(key)?;
         //
         #[cfg(any(feature = "htx", feature = "idx_straight"))]
         file.write_value_piece_offset(self.value_offset)?;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 87cf16c..102aa16 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -342,7 +342,7 @@ impl ValuePiece {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_value_len(value_len)?;
-        file.write_all_small(value)?;
+        file.write_all(value)?;
         file.write_zero_to_offset(self.offset + self.size)?;
         //
         Ok(())
-- 
2.43.0


From 8d161c8b5314931f092d4ae5924f7d31c89197bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 14/15] fix: buffers of one chunk overflow the stack once the
 file is larger

---
 src/filedb/inner/vfile.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 5d76415..4a58b6b 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -18,6 +18,11 @@ pub struct VarFile {
     pub(crate) piece_mgr: PieceMgr,
 }
 
+/// The first chunk stays in the buffer, so that it needs a second one for the rest of the file.
+const MIN_NUM_CHUNKS: u16 = 2;
+/// The smallest size of an auto sized buffer, see `rabuf`.
+const MIN_PART_SIZE: u32 = 8 * 4 * 1024;
+
 impl VarFile {
     /// Creates a new VarFile.
     #[allow(dead_code)]
@@ -39,7 +44,12 @@ impl VarFile {
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
         Ok(Self {
-            buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks)?,
+            buf_file: BufFile::with_capacity(
+                name,
+                file,
+                chunk_size,
+                max_num_chunks.max(MIN_NUM_CHUNKS),
+            )?,
             piece_mgr,
             //piece_mgr: PieceMgr::new(free_list_offset, size_ary),
         })
@@ -55,6 +65,12 @@ impl VarFile {
         per_mille: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // A part of the file: the smallest buffer `MIN_PART_SIZE` must hold `MIN_NUM_CHUNKS`.
+        let chunk_size = if per_mille < 1000 {
+            chunk_size.min(MIN_PART_SIZE)
+        } else {
+            chunk_size
+        };
         Ok(Self {
             buf_file: BufFile::with_per_mille(name, file, chunk_size, per_mille)?,
             piece_mgr,
-- 
2.43.0


From ebdd546cf23eccbf65d3731407fc8ba3f45a6805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 15/15] fix: the first sync after an opening reaches the
 storage device

---
 src/filedb/inner/dbxxx.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 4d293bb..3a79aa4 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -60,7 +60,8 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             htx_file,
             dirty: is_new,
-            unsynced: false,
+            // an earlier opening of the files may have left them unsynced.
+            unsynced: true,
             _phantom: std::marker::PhantomData,
         })
     }
-- 
2.43.0

