From 07fa0369614e4a6cb0d653405374511c2d44fdd9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 01/17] fix: iterating a map without keys panicked

The iterator started on the empty top node and indexed its missing first key.
---
 src/filedb/inner/dbxxx.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f19afad..e669916 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1194,6 +1194,10 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
             let db_map_inner = RefCell::borrow(&db_map);
             let top_node = db_map_inner.idx_file.read_top_node()?;
             let mut depth_nodes = vec![(top_node.clone(), 0, 0)];
+            if top_node.get_ref().keys_is_empty() {
+                // the map has no keys: nothing to iterate over.
+                depth_nodes.clear();
+            }
             let mut node = top_node;
             //
             loop {
-- 
2.43.0


From 2f06ebc7b5af5b3598305f090ec7b6e30df924e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 02/17] fix: closing a map without a sync lost the dirty nodes
 of the node cache

The file buffers are written on drop, the index nodes that were only in the
node cache were not: the reopened index was missing keys or was corrupt.
---
 src/filedb/inner/idx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 7070e0a..b49a5c7 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -39,6 +39,14 @@ pub struct VarFileNodeCache(pub VarFile, PhantomData<i32>, NodePieceOffset);
 #[derive(Debug)]
 pub struct VarFileNodeCache(pub VarFile, NodeCache, NodePieceOffset);
 
+// The buffer of `VarFile` is written on drop, so that the cached nodes must go there before.
+#[cfg(feature = "node_cache")]
+impl Drop for VarFileNodeCache {
+    fn drop(&mut self) {
+        let _ = self.flush_node_cache();
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct IdxFile(pub Rc<RefCell<VarFileNodeCache>>);
 
-- 
2.43.0


From f6abda72901055de78f1cd7bb0f41927572b68c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 03/17] fix: flush and sync ignored overwrites and the first
 put of a map

These puts did not set the dirty flag, so that flush, sync_data and sync_all
wrote nothing and the data was lost if the process was killed.
---
 src/filedb/inner/dbxxx.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index e669916..b650e25 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1133,6 +1133,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        self.dirty = true;
         #[cfg(feature = "htx")]
         {
             let hash = key_kt.hash_value();
-- 
2.43.0


From 69acbea94a553008575be4b1571ac1f5b2c58684 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 04/17] fix: the headers of a new map stayed in the buffer

Until the first sync of a new map its files were empty on disk, so that the
same name opened again with another key type was not rejected and both maps
wrote to the same files, and a sync of the map without keys did not write it.
---
 src/filedb/inner/htx.rs | 1 +
 src/filedb/inner/idx.rs | 3 +++
 src/filedb/inner/key.rs | 1 +
 src/filedb/inner/val.rs | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/filedb/inner/htx.rs b/src/filedb/inner/htx.rs
index e609479..7a11788 100644
--- a/src/filedb/inner/htx.rs
+++ b/src/filedb/inner/htx.rs
@@ -80,6 +80,7 @@ impl HtxFile {
             let off = NodePieceOffset::new(HTX_HEADER_SZ + 8 * DEFAULT_HT_SIZE - 8);
             file_nc.0.seek_from_start(off)?;
             file_nc.0.write_u64_le(0)?;
+            file_nc.0.sync_all()?;
             file_nc.1 = DEFAULT_HT_SIZE;
         } else {
             check_htxf_header(&mut file_nc.0, sig2)?;
diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index b49a5c7..79c6422 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -97,6 +97,9 @@ impl IdxFile {
             let new_top_node_ = file_nc.write_node(top_node, true)?;
             debug_assert!(new_top_node_.get_ref().offset() == NodePieceOffset::new(IDX_HEADER_SZ));
             file_nc.2 = new_top_node_.get_ref().offset();
+            #[cfg(feature = "node_cache")]
+            file_nc.flush_node_cache()?;
+            file_nc.0.sync_all()?;
         } else {
             check_idxf_header(&mut file_nc.0, sig2)?;
             let top_node_offset = file_nc.0.read_top_node_offset()?;
diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 74ce359..cf4d7ef 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -64,6 +64,7 @@ impl<KT: DbMapKeyType> KeyFile<KT> {
         let file_length: KeyPieceOffset = file.seek_to_end()?;
         if file_length.is_zero() {
             write_keyrecf_init_header(&mut file, sig2)?;
+            file.sync_all()?;
         } else {
             check_keyrecf_header(&mut file, sig2)?;
         }
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0f833c1..0dc8ec6 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -63,6 +63,7 @@ impl ValueFile {
         let file_length: ValuePieceOffset = file.seek_to_end()?;
         if file_length.is_zero() {
             write_valrecf_init_header(&mut file, sig2)?;
+            file.sync_all()?;
         } else {
             check_valrecf_header(&mut file, sig2)?;
         }
-- 
2.43.0


From 8b1edcdf58b40757d616f015c955506cbcd6ab63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 05/17] fix: small buffer size parameters overflowed the stack

With one chunk in the buffer, which is the pinned header chunk, fetching
another one recursed without an end.
---
 src/filedb/inner/vfile.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 5d76415..954f8b7 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -39,7 +39,8 @@ impl VarFile {
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
         Ok(Self {
-            buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks)?,
+            // the header chunk is pinned, so that the buffer needs one more chunk at least.
+            buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks.max(2))?,
             piece_mgr,
             //piece_mgr: PieceMgr::new(free_list_offset, size_ary),
         })
@@ -55,6 +56,13 @@ impl VarFile {
         per_mille: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // the header chunk is pinned, so that the buffer needs one more chunk at least:
+        // the minimum size of an auto size buffer is 32 KiB.
+        let chunk_size = if per_mille < 1000 {
+            chunk_size.min(16 * 1024)
+        } else {
+            chunk_size
+        };
         Ok(Self {
             buf_file: BufFile::with_per_mille(name, file, chunk_size, per_mille)?,
             piece_mgr,
-- 
2.43.0


From 3a7d967ec61f3d275fee412135a883b421e060fc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 06/17] fix: bulk operations with a repeated key were not done
 in the given order

bulk_put kept the first value of a repeated key and bulk_delete returned the
deleted value at the last position of it, bulk_put_string at any.
---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c17e31c..766fc0b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,8 +245,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        // stable sort: the last one of the same keys is put last.
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1)?;
         }
         Ok(())
@@ -260,8 +261,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_unstable_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        // stable sort: the last one of the same keys is put last.
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1.as_bytes())?;
         }
         Ok(())
@@ -298,8 +300,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         let mut result: Vec<(usize, Option<Vec<u8>>)> = Vec::new();
         let mut vec: Vec<(usize, &Q)> =
             bulk_keys.iter().enumerate().map(|(i, &a)| (i, a)).collect();
-        vec.sort_unstable_by(|a, b| b.1.cmp(a.1));
-        while let Some(ik) = vec.pop() {
+        // stable sort: the first one of the same keys is deleted first.
+        vec.sort_by(|a, b| a.1.cmp(b.1));
+        for ik in vec {
             let result_value = self.delete(ik.1)?;
             result.push((ik.0, result_value));
         }
-- 
2.43.0


From 3af661f17dbbf08ef755dbff7c822f78c352f58b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 07/17] fix: a value or a key longer than a buffer chunk
 panicked in debug builds

write_all_small is for data of a chunk at most.
---
 src/filedb/inner/key.rs | 2 +-
 src/filedb/inner/val.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index cf4d7ef..ad7e52f 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -372,7 +372,7 @@ impl<KT: DbMapKeyType> KeyPiece<KT> {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_key_len(key_len)?;
-        file.write_all_small(key)?;
+        file.write_all(key)?;
         //
         #[cfg(any(feature = "htx", feature = "idx_straight"))]
         file.write_value_piece_offset(self.value_offset)?;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0dc8ec6..4f71395 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -343,7 +343,7 @@ impl ValuePiece {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_value_len(value_len)?;
-        file.write_all_small(value)?;
+        file.write_all(value)?;
         file.write_zero_to_offset(self.offset + self.size)?;
         //
         Ok(())
-- 
2.43.0


From b18c3844fe40eb121a25eed5fb11c950c3e5b13a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 08/17] fix: the tail of a reused large free piece was lost

A reused piece was given the size that was asked for, and the rest of the
larger free piece belonged to no piece any more.
---
 src/filedb/inner/key.rs | 8 +++++---
 src/filedb/inner/val.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index ad7e52f..3c8575b 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -431,11 +431,13 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
+                // a large free piece may be larger than the new piece.
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                let free_piece_size = self.0.read_piece_size()?;
+                (free_piece_offset, free_piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 4f71395..f3266e6 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -396,11 +396,13 @@ impl VarFileValueCache {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
+                // a large free piece may be larger than the new piece.
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                let free_piece_size = self.0.read_piece_size()?;
+                (free_piece_offset, free_piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
-- 
2.43.0


From f94f72b838266bd6d3cb2577fde25b4f24c7656e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 09/17] fix: each insert into an empty map leaked the old top
 node

The empty top node was replaced by a new one and was never freed.
---
 src/filedb/inner/dbxxx.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index b650e25..09119a9 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -354,11 +354,14 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         key_kt: &KT,
         value: &[u8],
     ) -> Result<IdxNode> {
+        if node_.get_ref().keys_is_empty() {
+            let active_node = self.keys_is_empty_on_insert_(key_kt, value)?;
+            // the new node takes the place of the empty top node.
+            self.idx_file.delete_node(node_)?;
+            return Ok(active_node);
+        }
         let r = {
             let node = node_.get_ref();
-            if node.keys_is_empty() {
-                return self.keys_is_empty_on_insert_(key_kt, value);
-            }
             #[cfg(not(feature = "tr_has_short_key"))]
             let r = self.keys_binary_search_kt(node.keys(), key_kt)?;
             #[cfg(feature = "tr_has_short_key")]
-- 
2.43.0


From cbf97df384222146672573a35cc3788a3c22b979 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 10/17] fix: a write error on a reused piece truncated the file

The piece may be anywhere in the file, all the pieces after it were lost.
---
 src/filedb/inner/key.rs | 4 +++-
 src/filedb/inner/val.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 3c8575b..e8dc115 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -446,7 +446,9 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
                 Ok(()) => (),
                 Err(err) => {
                     // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    if free_piece_offset.is_zero() {
+                        let _ = self.0.set_file_length(new_piece_offset);
+                    }
                     return Err(err);
                 }
             }
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index f3266e6..182cc2d 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -411,7 +411,9 @@ impl VarFileValueCache {
                 Ok(()) => (),
                 Err(err) => {
                     // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    if free_piece_offset.is_zero() {
+                        let _ = self.0.set_file_length(new_piece_offset);
+                    }
                     return Err(err);
                 }
             }
-- 
2.43.0


From 76f35b27eaaaddc3864e22d162b4863fe61bf917 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 11/17] fix: a key or a value of 4 GiB or more was stored
 truncated

Its length does not fit in the piece header, it is an error now.
---
 src/filedb/inner/dbxxx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 09119a9..292d408 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1136,6 +1136,14 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        // the size of a piece is `u32`, including the header and the padding of it.
+        const LENGTH_MAX: usize = u32::MAX as usize - 1024;
+        if key_kt.as_bytes().len() > LENGTH_MAX || value.len() > LENGTH_MAX {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "too long key or value",
+            ));
+        }
         self.dirty = true;
         #[cfg(feature = "htx")]
         {
-- 
2.43.0


From a61b476ca2bf2e30245a604f4dd22a1b46e428dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 12/17] fix: keys_count_stats left out nodes

The top node and the last child of each node were not counted.
---
 src/filedb/inner/idx.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 79c6422..3c1b52d 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -1435,6 +1435,12 @@ impl VarFileNodeCache {
         keys_vec: &mut KeysCountStats,
     ) -> Result<()> {
         let node = node_.get_ref();
+        let keys_count = node.keys_len();
+        #[cfg(feature = "siamese_debug")]
+        keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
+        #[cfg(not(feature = "siamese_debug"))]
+        keys_vec.touch_size(KeysCount::new(keys_count as u16));
+        //
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1451,11 +1457,6 @@ impl VarFileNodeCache {
                 let node = self
                     .read_node(node_offset)
                     .unwrap_or_else(|_| panic!("offset: {:04x}", node_offset.as_value()));
-                let keys_count = node.get_ref().keys_len();
-                #[cfg(feature = "siamese_debug")]
-                keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
-                #[cfg(not(feature = "siamese_debug"))]
-                keys_vec.touch_size(KeysCount::new(keys_count as u16));
                 self.idx_keys_count_stats(&node, keys_vec)?;
             }
         }
-- 
2.43.0


From 3adbd5142970c9cdedf3c885fad33e35b4b11d9c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 13/17] fix: the statistics panicked on a map with unsaved
 nodes

The functions kept a node borrowed while they read its children. When the
node cache made room and the node was dirty, writing it back panicked.
---
 src/filedb/inner/idx.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 3c1b52d..c329c21 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -1337,7 +1337,7 @@ impl VarFileNodeCache {
     fn graph_string(&mut self, head: &str, node_: &IdxNode) -> Result<String> {
         use std::fmt::Write;
         //
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut gs = format!(
             "{}{}:{:04x}\n",
             head,
@@ -1386,7 +1386,7 @@ impl VarFileNodeCache {
     {
         use std::fmt::Write;
         //
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut gs = format!(
             "{}{}:0x{:04x},{03}\n",
             head,
@@ -1434,7 +1434,7 @@ impl VarFileNodeCache {
         node_: &IdxNode,
         keys_vec: &mut KeysCountStats,
     ) -> Result<()> {
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let keys_count = node.keys_len();
         #[cfg(feature = "siamese_debug")]
         keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
@@ -1475,7 +1475,7 @@ impl VarFileNodeCache {
     where
         F: Fn(KeyPieceOffset) -> Result<(KeyPieceSize, ValuePieceSize)> + std::marker::Copy,
     {
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         match node_vec.iter().position(|v| v.0 == node.size().as_value()) {
             Some(sz_idx) => {
                 node_vec[sz_idx].1 += 1;
@@ -1565,7 +1565,7 @@ impl VarFileNodeCache {
         F: Fn(KeyPieceOffset) -> Result<PieceSize<KV>> + Copy,
         KV: Copy + Ord,
     {
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1608,7 +1608,7 @@ impl VarFileNodeCache {
     where
         F: Fn(KeyPieceOffset) -> Result<Length<KV>> + Copy,
     {
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
-- 
2.43.0


From 1b1069edaac4c88c0553dc1b478c04ea951ce2c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 14/17] fix: a sync after a flush did not sync the files

flush cleared the dirty flag, so a following sync_all or sync_data did
nothing and the flushed data never was forced to the disk.
---
 src/filedb/inner/dbxxx.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 292d408..3698342 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -25,6 +25,8 @@ use super::htx;
 #[derive(Debug)]
 pub struct FileDbXxxInner<KT: DbMapKeyType> {
     dirty: bool,
+    /// the files may have writes that are not yet on the disk: a flush, the headers of a new map.
+    unsynced: bool,
     //
     key_file: key::KeyFile<KT>,
     val_file: val::ValueFile,
@@ -54,6 +56,7 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             htx_file,
             dirty: false,
+            unsynced: true,
             _phantom: std::marker::PhantomData,
         })
     }
@@ -1027,12 +1030,13 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.flush()?;
             self.dirty = false;
+            self.unsynced = true;
         }
         Ok(())
     }
     #[inline]
     fn sync_all(&mut self) -> Result<()> {
-        if self.is_dirty() {
+        if self.is_dirty() || self.unsynced {
             // save all data and meta
             self.val_file.sync_all()?;
             self.key_file.sync_all()?;
@@ -1040,12 +1044,13 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.sync_all()?;
             self.dirty = false;
+            self.unsynced = false;
         }
         Ok(())
     }
     #[inline]
     fn sync_data(&mut self) -> Result<()> {
-        if self.is_dirty() {
+        if self.is_dirty() || self.unsynced {
             // save all data
             self.val_file.sync_data()?;
             self.key_file.sync_data()?;
@@ -1053,6 +1058,7 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             #[cfg(feature = "htx")]
             self.htx_file.sync_data()?;
             self.dirty = false;
+            self.unsynced = false;
         }
         Ok(())
     }
-- 
2.43.0


From 8040d275d9de39c37e3f21b5e4bf297635e56344 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:26 +0000
Subject: [PATCH 15/17] fix: the lru and the lfu node cache lost nodes

A deleted bean stayed in the cache without an entry in the map. To remove or
to move such a bean changed the entry of a live bean with the same offset.
---
 src/filedb/inner/nc.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/filedb/inner/nc.rs b/src/filedb/inner/nc.rs
index 21d8c52..3d25051 100644
--- a/src/filedb/inner/nc.rs
+++ b/src/filedb/inner/nc.rs
@@ -240,10 +240,15 @@ impl NodeCache {
                         //
                         let mut ncb = self.vec.swap_remove(k);
                         write_node(file, &mut ncb)?;
-                        self.map.remove(&ncb.node_offset.as_value());
+                        // a deleted bean has no entry in the map, an other bean may have it.
+                        if ncb.node.is_some() {
+                            self.map.remove(&ncb.node_offset.as_value());
+                        }
                         //
-                        let off = self.vec[k].node_offset;
-                        self.map.insert(&off.as_value(), k);
+                        if self.vec[k].node.is_some() {
+                            let off = self.vec[k].node_offset;
+                            self.map.insert(&off.as_value(), k);
+                        }
                     }
                 }
                 let k = self.vec.len();
-- 
2.43.0


From e08c71550f86aae648c51eee308e654c99a71ee5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 16/17] fix: ht_size_and_count reported a count of 0, whatever
 the hash file held

---
 src/filedb/inner/htx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/htx.rs b/src/filedb/inner/htx.rs
index 7a11788..69a856a 100644
--- a/src/filedb/inner/htx.rs
+++ b/src/filedb/inner/htx.rs
@@ -162,7 +162,9 @@ impl HtxFile {
     pub fn ht_size_and_count(&self) -> Result<(u64, u64)> {
         let mut locked = RefCell::borrow_mut(&self.0);
         let ht_size = locked.0.read_hash_table_size()?;
-        let count = locked.0.read_item_count()?;
+        drop(locked);
+        // the header does not keep the count
+        let (count, _) = self.htx_filling_rate_per_mill()?;
         Ok((ht_size, count))
     }
     pub fn htx_filling_rate_per_mill(&self) -> Result<(u64, u32)> {
@@ -249,7 +251,7 @@ impl VarFile {
         self.seek_from_start(NodePieceOffset::new(HTX_HT_SIZE_OFFSET))?;
         self.write_u64_le(val)
     }
-    fn read_item_count(&mut self) -> Result<u64> {
+    fn _read_item_count(&mut self) -> Result<u64> {
         self.seek_from_start(NodePieceOffset::new(HTX_ITEM_COUNT_OFFSET))?;
         self.read_u64_le()
     }
-- 
2.43.0


From d8dd14d67893aa769ad8a23427917e399f168baa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 17/17] fix: the memory map of strings took different keys for
 the same

Keys that are no valid UTF-8 were stored under their lossy text, so that
b"\xff" and b"\xfe" were one key, other than in a file map.
---
 src/memdb.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/memdb.rs b/src/memdb.rs
index 8cc85dd..087dfe3 100644
--- a/src/memdb.rs
+++ b/src/memdb.rs
@@ -246,7 +246,7 @@ impl<'a> MemoryDbInner<'a> {
 #[derive(Debug)]
 pub(crate) struct MemoryDbMapDbStringInner<'a> {
     parent: Option<MemoryDbNode<'a>>,
-    mem: BTreeMap<String, Vec<u8>>,
+    mem: BTreeMap<DbString, Vec<u8>>,
 }
 
 impl MemoryDbMapDbStringInner<'_> {
@@ -287,18 +287,15 @@ impl DbXxxBase for MemoryDbMapDbStringInner<'_> {
 
 impl DbXxxObjectSafe<DbString> for MemoryDbMapDbStringInner<'_> {
     fn get_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.get(&key_s).map(|val| val.to_vec());
+        let r = self.mem.get(key).map(|val| val.to_vec());
         Ok(r)
     }
     fn put_kt(&mut self, key: &DbString, value: &[u8]) -> Result<()> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let _ = self.mem.insert(key_s, value.to_vec());
+        let _ = self.mem.insert(key.clone(), value.to_vec());
         Ok(())
     }
     fn del_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.remove(&key_s);
+        let r = self.mem.remove(key);
         Ok(r)
     }
 }
-- 
2.43.0

