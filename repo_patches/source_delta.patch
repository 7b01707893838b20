From 2e57c9aa478f2354afcf7b0856efc343c58c1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 01/13] fix: shrinking a file to a multiple of the chunk size
 loses data or leaves a stray chunk

---
 stable-fs/src/storage/stable.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f9ad4bf..03eb005 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -644,9 +644,14 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        // (only if the new size is inside of a chunk, and that chunk exists)
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk_v1(
                 node,
                 first_deletable_index - 1,
@@ -677,8 +682,15 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        // (only if the new size is inside of a chunk, and that chunk exists)
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && self
+                .v2_filechunk
+                .v2_chunk_ptr
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_chunks_v2(node, new_size, &ZEROES[0..(chunk_size - offset as usize)])?;
         }
 
-- 
2.43.0


From 2e5f3335ff6ed8b77a2474e0b40c4309224417e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 02/13] fix: renumbering could make a new descriptor replace an
 open one, or the root descriptor

---
 stable-fs/src/runtime/fd.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index 98762ec..e6cf040 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -82,12 +82,19 @@ impl FdTable {
 
     // Open a new file descriptor.
     pub fn open(&mut self, entry: FdEntry) -> Fd {
-        let fd = match self.free_fds.pop() {
-            Some(fd) => fd,
-            None => {
-                let fd = self.next_fd;
-                self.next_fd += 1;
-                fd
+        let fd = loop {
+            let fd = match self.free_fds.pop() {
+                Some(fd) => fd,
+                None => {
+                    let fd = self.next_fd;
+                    self.next_fd += 1;
+                    fd
+                }
+            };
+
+            // renumbering could have occupied the descriptor
+            if !self.table.contains_key(&fd) {
+                break fd;
             }
         };
 
@@ -99,6 +106,11 @@ impl FdTable {
     // Copy a file descriptor to a new number, the source descriptor is closed in the process.
     // If the destination descriptor is busy, it is closed in the process.
     pub fn renumber(&mut self, src: Fd, dst: Fd) -> Result<(), Error> {
+        // the root descriptor is always open, it cannot be closed or replaced
+        if src == ROOT_FD || dst == ROOT_FD {
+            return Err(Error::BadFileDescriptor);
+        }
+
         if src == dst {
             return Ok(());
         }
-- 
2.43.0


From 8b08cbe9c3755a8c4e9679053123edc32668f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 03/13] fix: writes and sizes near the largest file size abort
 instead of being refused

---
 stable-fs/src/storage/chunk_iterator.rs |  2 +-
 stable-fs/src/storage/ptr_cache.rs      |  4 ++--
 stable-fs/src/storage/stable.rs         | 23 +++++++++++++++--------
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/stable-fs/src/storage/chunk_iterator.rs b/stable-fs/src/storage/chunk_iterator.rs
index fb97569..3756125 100644
--- a/stable-fs/src/storage/chunk_iterator.rs
+++ b/stable-fs/src/storage/chunk_iterator.rs
@@ -28,7 +28,7 @@ impl<'a, M: Memory> ChunkV2Iterator<'a, M> {
         v2_chunk_ptr: &'a mut BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) -> Self {
         let cur_index = (offset / chunk_size) as FileChunkIndex;
-        let last_index_excluded = (last_address / chunk_size + 1) as FileChunkIndex;
+        let last_index_excluded = last_address.div_ceil(chunk_size) as FileChunkIndex;
 
         Self {
             node,
diff --git a/stable-fs/src/storage/ptr_cache.rs b/stable-fs/src/storage/ptr_cache.rs
index 87660d8..f768e72 100644
--- a/stable-fs/src/storage/ptr_cache.rs
+++ b/stable-fs/src/storage/ptr_cache.rs
@@ -48,8 +48,8 @@ impl PtrCache {
         to_index: FileChunkIndex,
         v2_chunk_ptr: &BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) {
-        let to_index = to_index.min(from_index + MAX_CACHE_CHUNKS);
-        let to_index = to_index.max(from_index + MIN_CACHE_CHUNKS);
+        let to_index = to_index.min(from_index.saturating_add(MAX_CACHE_CHUNKS));
+        let to_index = to_index.max(from_index.saturating_add(MIN_CACHE_CHUNKS));
         let to_index = to_index.min(MAX_FILE_CHUNK_COUNT);
 
         if from_index >= to_index {
diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 03eb005..8799f8b 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -608,9 +608,12 @@ impl<M: Memory> StableStorage<M> {
             }
         }
 
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        let max_size = new_meta
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
+
+        if new_meta.size > max_size {
             return Err(Error::FileTooLarge);
         }
 
@@ -919,9 +922,16 @@ impl<M: Memory> Storage for StableStorage<M> {
             return Ok(0);
         }
 
-        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
 
-        if offset + buf.len() as FileSize > max_size {
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
+
+        if end > max_size {
             return Err(Error::FileTooLarge);
         }
 
@@ -930,8 +940,6 @@ impl<M: Memory> Storage for StableStorage<M> {
 
             buf.len() as FileSize
         } else {
-            let end = offset + buf.len() as FileSize;
-
             let use_v2 = self.use_v2(&metadata, node);
 
             if use_v2 {
@@ -956,7 +964,6 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         };
 
-        let end = offset + buf.len() as FileSize;
         if end > metadata.size {
             metadata.size = end;
             self.put_metadata(node, &metadata)?;
-- 
2.43.0


From a1bf8240734ec04ead89939924f30d604c0ee68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 04/13] fix: linking over an existing file leaked it, linking a
 node to itself or linking a directory damaged the tree

---
 stable-fs/src/runtime/structure_helpers.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 61c0fdd..7ff01fb 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -122,9 +122,19 @@ pub fn create_hard_link(
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
+    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
+    if !is_renaming && metadata.file_type == FileType::Directory {
+        return Err(Error::OperationNotPermitted);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
+            // both names already lead to the same node, there is nothing to do
+            if dst_node == src_node {
+                return Ok(());
+            }
+
             let dst_meta = storage.get_metadata(dst_node)?;
 
             if dst_meta.file_type != metadata.file_type {
@@ -143,7 +153,7 @@ pub fn create_hard_link(
             }
 
             // if the operation is allowed so far, try to delete the existing destination entry
-            rm_dir_entry(
+            let (removed_node, removed_meta) = rm_dir_entry(
                 parent_dir_node,
                 new_path,
                 None,
@@ -152,6 +162,11 @@ pub fn create_hard_link(
                 names_cache,
                 storage,
             )?;
+
+            // it was the last name of the node, release its storage
+            if removed_meta.link_count == 0 {
+                storage.rm_file(removed_node)?;
+            }
         }
         Err(err) => return Err(err),
     }
@@ -161,11 +176,6 @@ pub fn create_hard_link(
     //
     let (dir_node, leaf_name) = create_path(parent_dir_node, new_path, None, ctime, storage)?;
 
-    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
-    if !is_renaming && metadata.file_type == FileType::Directory {
-        return Err(Error::OperationNotPermitted);
-    }
-
     metadata.link_count += 1;
     storage.put_metadata(src_node, &metadata)?;
 
-- 
2.43.0


From c07908735fe695ab0ea1b3d8977aa1f04fa8dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 05/13] fix: renaming a node to itself, a directory into
 itself, or a mounted file damaged the directory tree

---
 stable-fs/src/fs.rs                        | 35 ++++++++++++++++-
 stable-fs/src/runtime/structure_helpers.rs | 45 ++++++++++++++++++++++
 2 files changed, 79 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index dcd8d5c..3b24251 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -7,7 +7,7 @@ use crate::{
         dir::Dir,
         fd::{FdEntry, FdTable, STDERR_FD},
         file::File,
-        structure_helpers::{create_hard_link, find_node, rm_dir_entry},
+        structure_helpers::{create_hard_link, find_node, is_path_inside, rm_dir_entry},
         types::{RIGHTS_FD_READ, RIGHTS_FD_WRITE},
     },
     storage::{
@@ -871,6 +871,39 @@ impl FileSystem {
         let src_dir = self.get_dir(old_fd)?;
         let dst_dir = self.get_dir(new_fd)?;
 
+        let src_node = find_node(
+            src_dir.node,
+            old_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        )?;
+
+        match find_node(
+            dst_dir.node,
+            new_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        ) {
+            Ok(dst_node) if dst_node == src_node => {
+                // both names lead to the same node already, nothing to rename
+                return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
+            }
+            Ok(_) | Err(Error::NoSuchFileOrDirectory) => {}
+            Err(err) => return Err(err),
+        }
+
+        // the files hosting mounted memories cannot be moved
+        if self.storage.is_mounted(src_node) {
+            return Err(Error::TextFileBusy);
+        }
+
+        // a directory cannot be moved into itself
+        if self.storage.get_metadata(src_node)?.file_type == FileType::Directory
+            && is_path_inside(src_node, dst_dir.node, new_path, self.storage.as_ref())?
+        {
+            return Err(Error::InvalidArgument);
+        }
+
         // create a new link
         create_hard_link(
             dst_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 7ff01fb..f5b2a96 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -106,6 +106,46 @@ pub fn find_node(
     }
 }
 
+// Check if the path (starting from the given directory) leads into the directory `node`, or anywhere below it.
+pub fn is_path_inside(
+    node: Node,
+    start_dir: Node,
+    path: &str,
+    storage: &dyn Storage,
+) -> Result<bool, Error> {
+    let (parts, _must_be_dir) = get_path_parts(path)?;
+
+    // find the last existing node on the path
+    let mut target = start_dir;
+
+    for part in parts {
+        match find_entry_index(target, part.as_bytes(), storage) {
+            Ok(index) => target = storage.get_direntry(target, index)?.node,
+            Err(Error::NoSuchFileOrDirectory) => break,
+            Err(err) => return Err(err),
+        }
+    }
+
+    // check if the target belongs to the directory tree of the node
+    let mut pending = vec![node];
+
+    while let Some(cur_node) = pending.pop() {
+        if cur_node == target {
+            return Ok(true);
+        }
+
+        storage.with_direntries(cur_node, Some(0), &mut |_index, entry| {
+            if entry.entry_type != Some(FileType::RegularFile) {
+                pending.push(entry.node);
+            }
+
+            true
+        });
+    }
+
+    Ok(false)
+}
+
 // Create a hard link to an existing node
 #[allow(clippy::too_many_arguments)]
 pub fn create_hard_link(
@@ -400,6 +440,11 @@ pub fn rm_dir_entry(
     names_cache: &mut FilenameCache,
     storage: &mut dyn Storage,
 ) -> Result<(Node, Metadata), Error> {
+    // the path must lead to an entry, the starting directory itself cannot be removed
+    if get_path_parts(path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
     let find_result = find_node_with_index(parent_dir_node, path, storage)?;
 
     let removed_dir_entry_node = find_result.node;
-- 
2.43.0


From 515849ce03ef4c2fdcb6b846799b22aaef68f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 06/13] fix: refuse too long names and unusable source paths
 before changing the directory tree

---
 stable-fs/src/runtime/structure_helpers.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index f5b2a96..bc4d957 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -8,7 +8,7 @@ use crate::{
         Storage,
         types::{
             ChunkHandle, DirEntry, DirEntryIndex, FileChunkIndex, FileName, FileSize, FileType,
-            Metadata, Node, Times,
+            MAX_FILE_NAME, Metadata, Node, Times,
         },
     },
 };
@@ -47,6 +47,11 @@ fn get_path_parts(path: &str) -> Result<(Vec<String>, bool), Error> {
             continue;
         }
 
+        // refuse long names before anything is looked up or created
+        if part.len() > MAX_FILE_NAME {
+            return Err(Error::FilenameTooLong);
+        }
+
         parts.push(part.to_string());
         must_be_dir = false;
     }
@@ -158,6 +163,11 @@ pub fn create_hard_link(
     names_cache: &mut FilenameCache,
     storage: &mut dyn Storage,
 ) -> Result<(), Error> {
+    // the source must be an entry of some folder, it cannot be the starting folder itself
+    if get_path_parts(src_path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
     // Get the node and metadata, the node must exist in the source folder.
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
-- 
2.43.0


From 1fed97a2fcf329cfb1d0a8a1b15c044c95452e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 07/13] fix: seeking by the extreme distances aborts

---
 stable-fs/src/runtime/file.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/stable-fs/src/runtime/file.rs b/stable-fs/src/runtime/file.rs
index d979d91..d3efee9 100644
--- a/stable-fs/src/runtime/file.rs
+++ b/stable-fs/src/runtime/file.rs
@@ -50,21 +50,17 @@ impl File {
                 delta as FileSize
             }
             Whence::CUR => {
-                let back = if delta < 0 {
-                    (-delta).try_into().map_err(|_| Error::InvalidArgument)?
-                } else {
-                    0
-                };
-                let fwd = if delta >= 0 { delta as FileSize } else { 0 };
-
-                if self.cursor < back {
-                    // seeking before zero position
-                    return Err(Error::InvalidArgument);
-                }
-                self.cursor + fwd - back
+                // seeking before zero position, or beyond the largest position, is an error
+                self.cursor
+                    .checked_add_signed(delta)
+                    .ok_or(Error::InvalidArgument)?
             }
             Whence::END => {
-                let back: FileSize = (-delta).try_into().map_err(|_| Error::InvalidSeek)?;
+                if delta > 0 {
+                    return Err(Error::InvalidSeek);
+                }
+
+                let back: FileSize = delta.unsigned_abs();
                 if back > size {
                     return Err(Error::InvalidSeek);
                 }
-- 
2.43.0


From bc04dea559dd4e4f764ac78cfae6c115b99a136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 08/13] fix: listing a directory from the index of '.' or '..'
 skips its entries or aborts

---
 stable-fs/src/storage/stable.rs    | 11 ++++++++++-
 stable-fs/src/storage/transient.rs | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 8799f8b..fdf812a 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -825,7 +825,7 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         }
 
-        let initial_index = initial_index.unwrap_or(0);
+        let mut initial_index = initial_index.unwrap_or(0);
 
         if initial_index == DUMMY_DOT_ENTRY_INDEX {
             let mut dot_entry = DUMMY_DOT_ENTRY;
@@ -846,8 +846,17 @@ impl<M: Memory> Storage for StableStorage<M> {
             return;
         }
 
+        // all the real entries follow the special ones
+        if initial_index == DUMMY_DOT_ENTRY_INDEX || initial_index == DUMMY_DOT_DOT_ENTRY_INDEX {
+            initial_index = 0;
+        }
+
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        if initial_index >= max_index {
+            return;
+        }
+
         for en in self
             .direntry
             .range((node, initial_index)..(node, max_index))
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 313dbe0..02241f9 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -543,7 +543,7 @@ impl Storage for TransientStorage {
             }
         }
 
-        let initial_index = initial_index.unwrap_or(0);
+        let mut initial_index = initial_index.unwrap_or(0);
 
         if initial_index == DUMMY_DOT_ENTRY_INDEX {
             let mut dot_entry = DUMMY_DOT_ENTRY;
@@ -564,8 +564,17 @@ impl Storage for TransientStorage {
             return;
         }
 
+        // all the real entries follow the special ones
+        if initial_index == DUMMY_DOT_ENTRY_INDEX || initial_index == DUMMY_DOT_DOT_ENTRY_INDEX {
+            initial_index = 0;
+        }
+
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        if initial_index >= max_index {
+            return;
+        }
+
         for ((_node, index), entry) in self
             .direntry
             .range((node, initial_index)..(node, max_index))
-- 
2.43.0


From ad6d62cea829becf47cca33e6e7d0361528153f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 09/13] fix: names added or removed while a memory is mounted
 are not counted for the host file

---
 stable-fs/src/storage/stable.rs    | 26 ++++++++++++++++++++++++++
 stable-fs/src/storage/transient.rs |  9 +++++++++
 2 files changed, 35 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index fdf812a..aad18e1 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -772,6 +772,30 @@ impl<M: Memory> Storage for StableStorage<M> {
             &mut self.v2_filechunk,
         );
 
+        // the mounted and the host file share their names, the host has to know the actual count too
+        if is_mounted {
+            let host_rec = self.meta_provider.get_metadata(
+                node,
+                false,
+                &self.v2_filechunk.v2_chunk_ptr,
+                &self.v2_filechunk.v2_chunks,
+            );
+
+            if let Some((mut host_meta, host_ptr)) = host_rec
+                && host_meta.link_count != metadata.link_count
+            {
+                host_meta.link_count = metadata.link_count;
+
+                self.meta_provider.put_metadata(
+                    node,
+                    false,
+                    &host_meta,
+                    host_ptr,
+                    &mut self.v2_filechunk,
+                );
+            }
+        }
+
         Ok(())
     }
 
@@ -1029,7 +1053,9 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         let old_size = if let Ok(old_mounted_meta) = self.get_metadata(node) {
             let size = old_mounted_meta.size;
+            let link_count = file_meta.link_count;
             file_meta = old_mounted_meta;
+            file_meta.link_count = link_count;
             Some(size)
         } else {
             None
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 02241f9..029398e 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -170,6 +170,13 @@ impl Storage for TransientStorage {
 
         meta_storage.insert(node, metadata.clone());
 
+        // the mounted and the host file share their names, the host has to know the actual count too
+        if self.is_mounted(node)
+            && let Some(host_meta) = self.metadata.get_mut(&node)
+        {
+            host_meta.link_count = metadata.link_count;
+        }
+
         Ok(())
     }
 
@@ -347,7 +354,9 @@ impl Storage for TransientStorage {
 
         let old_size = if let Ok(old_mounted_meta) = self.get_metadata(node) {
             let size = old_mounted_meta.size;
+            let link_count = file_meta.link_count;
             file_meta = old_mounted_meta;
+            file_meta.link_count = link_count;
             Some(size)
         } else {
             None
-- 
2.43.0


From c0ce1928c10d32c919b1c31aa7efd5e59e4fc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 10/13] fix: a refused mount stays active, and storing too much
 content loses the mounted memory

---
 stable-fs/src/storage/stable.rs    | 20 ++++++++++++++++++--
 stable-fs/src/storage/transient.rs | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index aad18e1..19daf98 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1066,9 +1066,14 @@ impl<M: Memory> Storage for StableStorage<M> {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        // do not leave the memory mounted, if the mount has failed
+        if result.is_err() {
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
@@ -1129,6 +1134,17 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        let host_limit = self.get_metadata(node)?.maximum_size_allowed;
+
+        // nothing can be stored, if the content does not fit, keep the memory mounted
+        if let Some(max_size) = host_limit
+            && file_size > max_size
+        {
+            self.mount_node(node, memory, MountedFileSizePolicy::Explicit(file_size))?;
+
+            return Err(Error::FileTooLarge);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 029398e..26950a9 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -367,9 +367,14 @@ impl Storage for TransientStorage {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        // do not leave the memory mounted, if the mount has failed
+        if result.is_err() {
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
@@ -430,6 +435,17 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        let host_limit = self.get_metadata(node)?.maximum_size_allowed;
+
+        // nothing can be stored, if the content does not fit, keep the memory mounted
+        if let Some(max_size) = host_limit
+            && file_size > max_size
+        {
+            self.mount_node(node, memory, MountedFileSizePolicy::Explicit(file_size))?;
+
+            return Err(Error::FileTooLarge);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
-- 
2.43.0


From 228076248af2b20087934b795958bbc3e05daace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 11/13] fix: the transient storage keeps cut data, loses kept
 data, and accepts what the stable storage refuses

---
 stable-fs/src/storage/transient.rs | 109 ++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 41 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 26950a9..7eb421c 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -18,7 +18,7 @@ use crate::{
 
 use super::types::{
     DUMMY_DOT_DOT_ENTRY, DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY, DUMMY_DOT_ENTRY_INDEX,
-    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX,
+    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX, MAX_FILE_SIZE,
 };
 
 // The root node ID.
@@ -105,20 +105,57 @@ impl TransientStorage {
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        let max_size = new_meta
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
+
+        if new_meta.size > max_size {
             return Err(Error::FileTooLarge);
         }
 
-        if let Some(old_meta) = old_meta
-            && old_meta.node != new_meta.node
-        {
-            return Err(Error::InvalidArgument);
+        if let Some(old_meta) = old_meta {
+            if old_meta.node != new_meta.node {
+                return Err(Error::InvalidArgument);
+            }
+
+            // do not allow changing file type
+            if old_meta.file_type != new_meta.file_type {
+                return Err(Error::FunctionNotSupported);
+            }
         }
 
         Ok(())
     }
+
+    // Delete the file chunks above the new file size, clear the rest of the last chunk.
+    fn truncate_chunks(&mut self, node: Node, new_size: FileSize) {
+        let chunk_size = FILE_CHUNK_SIZE_V1;
+
+        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
+
+        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
+
+        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
+        for (k, _v) in self.filechunk.range(range) {
+            chunks.push((k.0, k.1));
+        }
+
+        for (nd, idx) in chunks.into_iter() {
+            assert!(nd == node);
+            self.filechunk.remove(&(node, idx));
+        }
+
+        // fill with zeros the last chunk memory above the file size
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && let Some(chunk) = self.filechunk.get_mut(&(node, first_deletable_index - 1))
+        {
+            chunk.bytes[offset as usize..]
+                .copy_from_slice(&ZEROES[0..chunk_size - offset as usize]);
+        }
+    }
 }
 
 impl Storage for TransientStorage {
@@ -156,20 +193,30 @@ impl Storage for TransientStorage {
 
     // Update the metadata associated with the node.
     fn put_metadata(&mut self, node: Node, metadata: &Metadata) -> Result<(), Error> {
-        let meta_storage = if self.is_mounted(node) {
+        let is_mounted = self.is_mounted(node);
+
+        let meta_storage = if is_mounted {
             &mut self.mounted_meta
         } else {
             &mut self.metadata
         };
 
+        let mut is_reduced = false;
+
         if let Some(existing) = meta_storage.get(&node) {
             Self::validate_metadata_update(Some(existing), metadata)?;
+            is_reduced = metadata.size < existing.size;
         } else {
             Self::validate_metadata_update(None, metadata)?;
         }
 
         meta_storage.insert(node, metadata.clone());
 
+        // if the size was reduced, we need to delete the file chunks above the file size
+        if is_reduced && !is_mounted {
+            self.truncate_chunks(node, metadata.size);
+        }
+
         // the mounted and the host file share their names, the host has to know the actual count too
         if self.is_mounted(node)
             && let Some(host_meta) = self.metadata.get_mut(&node)
@@ -287,36 +334,11 @@ impl Storage for TransientStorage {
     }
 
     fn resize_file(&mut self, node: Node, new_size: FileSize) -> Result<(), Error> {
-        let chunk_size = FILE_CHUNK_SIZE_V1;
-
-        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
+        let mut meta = self.get_metadata(node)?;
 
-        let range = (node, 0)..(node, MAX_FILE_CHUNK_COUNT);
+        meta.size = new_size;
 
-        // delete v1 chunks
-        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
-        for (k, _v) in self.filechunk.range(range) {
-            chunks.push((k.0, k.1));
-        }
-
-        for (nd, idx) in chunks.into_iter() {
-            assert!(nd == node);
-            self.filechunk.remove(&(node, idx));
-        }
-
-        // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
-
-            self.write_filechunk(
-                node,
-                first_deletable_index - 1,
-                offset,
-                &ZEROES[0..(chunk_size - offset as usize)],
-            );
-        }
-
-        Ok(())
+        self.put_metadata(node, &meta)
     }
 
     fn rm_file(&mut self, node: Node) -> Result<(), Error> {
@@ -481,11 +503,16 @@ impl Storage for TransientStorage {
             return Ok(0);
         }
 
-        let end = offset + buf.len() as FileSize;
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
 
-        if let Some(max_size) = metadata.maximum_size_allowed
-            && end > max_size
-        {
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
+
+        if end > max_size {
             return Err(Error::FileTooLarge);
         }
 
-- 
2.43.0


From 67cb3985d1826f0a1349b9fe4baa61a5c90a8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 12/13] fix: the metadata of a descriptor renumbered to a
 standard channel is not that of its file

---
 stable-fs/src/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 3b24251..32e0a07 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -466,7 +466,7 @@ impl FileSystem {
     // Get the metadata for a given file descriptor
     pub fn metadata(&self, fd: Fd) -> Result<Metadata, Error> {
         // return fake metadata for the std channels, it is read-only
-        if fd <= STDERR_FD {
+        if fd <= STDERR_FD && self.fd_table.get(fd).is_none() {
             return Ok(Metadata {
                 node: u64::MAX, // return fake, unusable node here
                 file_type: FileType::RegularFile,
-- 
2.43.0


From 12772703bf1628475bbe974ab71106aff8ea423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 13/13] fix: reading up to the end of a file of nearly the
 largest size returns nothing when the buffer is longer

---
 stable-fs/src/storage/stable.rs    | 5 +++--
 stable-fs/src/storage/transient.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 19daf98..5b8abd2 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -436,8 +436,9 @@ impl<M: Memory> StableStorage<M> {
         buf: &mut [u8],
     ) -> Result<FileSize, Error> {
         let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
-        let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-            as FileChunkIndex;
+        let end_index = ((offset + buf.len() as FileSize).min(file_size)
+            / FILE_CHUNK_SIZE_V1 as FileSize
+            + 1) as FileChunkIndex;
 
         let mut chunk_offset = offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 7eb421c..d59c0d0 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -270,8 +270,9 @@ impl Storage for TransientStorage {
         } else {
             let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
 
-            let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-                as FileChunkIndex;
+            let end_index = ((offset + buf.len() as FileSize).min(file_size)
+                / FILE_CHUNK_SIZE_V1 as FileSize
+                + 1) as FileChunkIndex;
 
             let mut chunk_offset =
                 offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
-- 
2.43.0

