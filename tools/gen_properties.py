#!/usr/bin/env python3
# one-off generator for /verif/properties.jsonl (kept so the file is easy to edit)
import json, os
S="stable-fs/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
                   mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Reads return exactly the bytes last written",
 "For every regular file without mounted memory, a read at any offset transfers exactly min(buffer length, file size - offset) bytes, and each of them is the byte most recently written at that position, or zero if that position below the file size was never written. A successful write of n>0 bytes at offset o reports n, makes exactly those n bytes visible and leaves the size at max(old size, o+n); a write of zero bytes changes nothing. This holds for both chunk layouts and every chunk size, for any alignment of offsets and lengths.",
 ["inputs","histories","configurations"],"all histories of writes, truncations and size changes, all offsets and lengths, all chunk types and chunk sizes",
 "Tests write a few fixed buffers at a few offsets; the claim covers every offset/length/chunk-size combination and every prior history of holes and caches.",
 ["storage/stable.rs","storage/chunk_iterator.rs","storage/ptr_cache.rs","runtime/structure_helpers.rs","runtime/file.rs","fs.rs"],
 [("StableStorage::write / write_chunks_v2 / write_filechunk_v1","storage/stable.rs"),("StableStorage::read / read_chunks_v1 / read_chunks_v2","storage/stable.rs"),("ChunkV2Iterator::next + PtrCache::add_range","storage/chunk_iterator.rs"),("get_chunk_infos","runtime/structure_helpers.rs")],
 [("v2_chunk_ptr","(node, chunk index) -> address of the chunk","storage/stable.rs"),("filechunk","V1 chunks","storage/stable.rs"),("ptr_cache","cached chunk addresses","storage/ptr_cache.rs")],
 ["FileSystem::read / read_vec / read_vec_with_offset after FileSystem::write*"])

p("C02","Operations on one file never change another file",
 "Writing, resizing, truncating, deleting, mounting or storing one file leaves the content, size and other metadata of every other file and the entries of every other directory unchanged. No storage block is ever in use by two files (or by a file and the file system's own metadata) at the same time, and no block in use is also available for allocation.",
 ["histories","inputs"],"all interleavings of operations on any set of files, including block reuse after deletion and truncation",
 "Block sharing only shows after particular allocate/free histories; tests exercise a handful of short ones and compare a single file.",
 ["storage/stable.rs","storage/allocator.rs","storage/metadata_provider.rs"],
 [("ChunkPtrAllocator::allocate / free","storage/allocator.rs"),("write_chunks_v2 registers a fresh chunk","storage/stable.rs"),("resize_file_internal frees chunks","storage/stable.rs"),("remove_metadata","storage/metadata_provider.rs")],
 [("free list","available chunk addresses","storage/allocator.rs"),("max ptr","first never-allocated address","storage/allocator.rs")],
 ["FileSystem::read and metadata of all other files"])

p("C03","Shrinking keeps the prefix; growing shows only zeros",
 "After the size of a file (without mounted memory) is changed by any means (truncating open, set size, write past the end), bytes below the smaller of the old and new size are unchanged and every byte between the old and the new size that was not written reads as zero. Data that was cut off, or that belonged to a deleted file whose blocks were reused, is never readable again.",
 ["inputs","histories"],"all pairs of old and new sizes (including exact block multiples), all chunk layouts, all reuse histories",
 "Tests try one or two sizes; the failing cases are at exact chunk boundaries and after block reuse.",
 ["storage/stable.rs","storage/transient.rs","runtime/file.rs","fs.rs"],
 [("resize_file_internal","storage/stable.rs"),("put_metadata size check","storage/stable.rs"),("write_chunks_v2 zero fill of new chunks","storage/stable.rs"),("File::truncate, FileSystem::set_file_size","fs.rs")],
 [("bytes above file size in allocated chunks","always zero","storage/stable.rs")],
 ["FileSystem::read after set_file_size / OpenFlags::TRUNCATE"])

p("C04","File size limits are enforced and rejected changes have no effect",
 "A write or size change that would take a file beyond its configured size limit, or beyond the largest representable file size, is refused with FileTooLarge and leaves content and size as they were (a vectored write is the sequence of the writes of its buffers); one that stays within the limit is not refused for its size. No offset or length, however large, makes an operation wrap around, corrupt data or abort.",
 ["inputs","configurations"],"all limits, offsets and lengths over the whole 64-bit range",
 "Tests use small limits and offsets; overflow and truncation need values near 2^32 chunks or 2^64 bytes.",
 ["storage/stable.rs","storage/transient.rs","fs.rs"],
 [("StableStorage::write limit check","storage/stable.rs"),("validate_metadata_update","storage/stable.rs"),("FileSystem::set_file_size / set_file_size_limit","fs.rs")],
 [("maximum_size_allowed","per-file limit","storage/types.rs")],["Error::FileTooLarge, then metadata and read"])

p("C05","Deleting data reclaims its storage exactly once",
 "When a file loses its last name, or is truncated, every block it no longer needs becomes available again and is reused before new storage is taken, so repeating a create/fill/delete cycle does not grow storage. No block becomes available twice, and the identity of a deleted file is never given to a new one.",
 ["histories"],"all histories of create, write, truncate, hard link, rename over, delete, recursive delete",
 "A leak or double free needs a specific history (sparse files, rename over a file, sizes at chunk boundaries); tests check one simple delete.",
 ["storage/stable.rs","storage/allocator.rs","storage/metadata_provider.rs","runtime/dir.rs","fs.rs"],
 [("StableStorage::rm_file","storage/stable.rs"),("MetadataProvider::remove_metadata","storage/metadata_provider.rs"),("ChunkPtrAllocator::push_ptr/pop_ptr","storage/allocator.rs"),("new_node","storage/stable.rs")],
 [("free list length, max ptr","allocation state","storage/allocator.rs")],["stable memory size and allocator state after cycles"])

p("C06","Each directory holds unique names; lookup, listing and count agree",
 "At any time a directory holds at most one entry with a given name. Every listed entry can be opened by its name and leads to the file or directory it lists, every name that can be opened is listed, and the directory's size equals the number of its entries.",
 ["histories"],"all histories of create, mkdir, hard link, rename, delete in any directories",
 "The name index, the entry list and the counter are three structures updated separately; tests sample few histories and rarely compare all three.",
 ["runtime/structure_helpers.rs","storage/stable.rs","storage/transient.rs","runtime/dir.rs"],
 [("add_dir_entry / rm_dir_entry","runtime/structure_helpers.rs"),("put_direntry / rm_direntry","storage/stable.rs"),("find_entry_index","runtime/structure_helpers.rs")],
 [("direntry","(dir, index) -> entry","storage/stable.rs"),("direntry_lookup","(dir, name) -> index","storage/stable.rs")],["with_direntries, open, metadata.size"])

p("C07","Paths resolve component by component and never escape the start",
 "A relative path resolves to the same file as following its components one at a time from the start directory, with empty and '.' components ignored and '..' cancelling the previous component. Absolute paths and paths whose '..' would leave the start directory are refused. The answer never depends on which paths were looked up earlier.",
 ["inputs","histories"],"all path strings and all histories of lookups and namespace changes",
 "Unbounded set of strings; a stale name-cache answer needs lookup, change, lookup in a particular order.",
 ["runtime/structure_helpers.rs","filename_cache.rs","fs.rs"],
 [("get_path_parts","runtime/structure_helpers.rs"),("find_node / find_node_with_index","runtime/structure_helpers.rs"),("FilenameCache add/clear","filename_cache.rs")],
 [("names_cache","(dir, path) -> node","filename_cache.rs")],["open, open_metadata"])

p("C08","Hard links and renames keep the file and count its names",
 "A hard link gives the same file a further name; a rename moves exactly one name, to the new place, keeping the file's identity, content and metadata, and replaces an existing destination of the same kind; when both names already lead to the same file, nothing happens. The link count of every file equals its number of names, and a file exists as long as it has one.",
 ["histories","inputs"],"all source and destination paths (same file, other link of the file, existing destination, missing parents) and all histories",
 "Tests rename to fresh names; the claim covers every aliasing of source, destination and existing links.",
 ["runtime/structure_helpers.rs","fs.rs"],
 [("create_hard_link","runtime/structure_helpers.rs"),("rm_dir_entry","runtime/structure_helpers.rs"),("FileSystem::rename / create_hard_link","fs.rs")],
 [("link_count","number of names","storage/types.rs")],["metadata.link_count, listing, content by each name"])

p("C09","A descriptor denotes its open file until it is closed",
 "Opening returns a descriptor that is not in use, and that descriptor denotes the opened file or directory until it is closed or replaced by renumbering; operations on one descriptor never change what another denotes. After renumbering a to b, b denotes what a denoted and a is closed. A closed or never-opened descriptor is refused with BadFileDescriptor, and the root descriptor cannot be closed or replaced.",
 ["histories","inputs"],"all histories of open, close and renumber with arbitrary descriptor numbers",
 "Descriptor reuse bugs need particular open/close/renumber orders; tests have a few.",
 ["runtime/fd.rs","fs.rs"],
 [("FdTable::open / close / renumber / insert","runtime/fd.rs")],
 [("table","descriptor -> open file","runtime/fd.rs"),("free_fds, next_fd","numbers to hand out","runtime/fd.rs")],["descriptor numbers and what they read"])

p("C10","Cursors move by the bytes transferred; append writes at the end",
 "Sequential reads and writes start at the descriptor's cursor and advance it by the number of bytes transferred; positioned reads and writes leave it alone; seek sets it to the requested position or fails without moving it. Vectored transfers equal the transfer of the concatenated buffers. A write through an append descriptor always lands at the current end of the file.",
 ["inputs","histories"],"all sequences of read, write, seek, tell, positioned and vectored transfers through any number of descriptors; all seek arguments",
 "Unbounded sequences and the whole i64 range of seek deltas.",
 ["runtime/file.rs","fs.rs"],
 [("File::seek / read_with_cursor / read_with_offset","runtime/file.rs"),("FileSystem::write_vec / read_vec / *_with_offset","fs.rs")],
 [("cursor","position of the descriptor","runtime/file.rs")],["tell, read, write results"])

p("C11","Descriptors without the right cannot read or modify a file",
 "A descriptor opened without the read right cannot read the file, and one opened without the write right cannot write it or change its size, through any of the transfer operations; the refusal changes neither the file nor the cursor. With the right present the operation is not refused for lack of rights.",
 ["inputs","histories"],"all right masks, all transfer operations, arguments of any value, all histories of stat changes",
 "Tests check one or two operations with one mask.",
 ["fs.rs"],[("rights checks in read*, write*, set_file_size","fs.rs")],[("stat.rights_base","rights of the descriptor","runtime/types.rs")],["OperationNotPermitted / InvalidArgument results"])

p("C12","Files in use and non-empty directories cannot be removed",
 "Removing, or replacing by a rename or link, the last name of a file that some descriptor has open is refused, as is removing any name of a file with memory mounted on it, removing a non-empty directory, and removing a file as a directory or the reverse; a refused removal changes nothing. Once the obstacle is gone the removal succeeds.",
 ["histories"],"all histories of opens (several per file), closes, renumbers, mounts and removals",
 "Reference counts drift only after particular open/close/renumber orders; tests use one descriptor.",
 ["runtime/structure_helpers.rs","runtime/fd.rs","runtime/dir.rs","storage/stable.rs"],
 [("rm_dir_entry checks","runtime/structure_helpers.rs"),("node_refcount","runtime/fd.rs"),("rm_file mounted check","storage/stable.rs")],
 [("node_refcount","open descriptors per file","runtime/fd.rs")],["remove_file / remove_dir / rename results"])

p("C13","Mounted memory and host file stay separate; init and store copy",
 "While memory is mounted on a file, reads and writes of the file go to that memory at the same offsets and the file's own stored content is untouched; after unmounting the file shows its stored content again. Initialising copies the whole stored content into the memory, storing copies the whole mounted content into the file, each with the size. The size seen after mounting is the one the chosen policy prescribes.",
 ["histories","inputs"],"all histories of mount, write, init, store, unmount, any sizes relative to pages and chunks, any policy",
 "Tests use small fixed contents; the claim covers all sizes, remounts and reopen in between.",
 ["storage/stable.rs","storage/transient.rs","storage/types.rs","fs.rs"],
 [("mount_node / unmount_node / init_mounted_memory / store_mounted_memory","storage/stable.rs"),("get_mounted_file_size","storage/types.rs")],
 [("active_mounts","node -> memory","storage/stable.rs"),("mounted metadata","size of mounted content","storage/metadata_provider.rs")],["read/metadata before, during, after mounting; bytes of the memory"])

p("C14","Everything survives reopening at any point",
 "Opening the file system anew on the same stable memory after any completed operation shows the same directories, names, contents, sizes, link counts, times, limits and chunk size, and every later operation behaves as it would have without reopening. In particular no result ever depends on what the in-memory caches hold.",
 ["crash_points","histories"],"reopening after every operation of every history",
 "Tests reopen at one point of a few histories; stale caches and unwritten state show only for particular points.",
 ["storage/stable.rs","storage/metadata_provider.rs","storage/ptr_cache.rs","storage/allocator.rs"],
 [("MetadataProvider::put_metadata writes through","storage/metadata_provider.rs"),("PtrCache cleared on shrink","storage/stable.rs"),("ChunkPtrAllocator::new restores state","storage/allocator.rs")],
 [("meta_cache, ptr_cache","caches over stable state","storage/metadata_provider.rs")],["all API results after StableStorage::new on the same memory"])

p("C15","The chunk size is one of the supported ones and fixed once used",
 "The chunk size can be set only to 4K, 8K, 16K, 32K or 64K, and only while no chunk has ever been allocated; afterwards setting a different size fails and changes nothing, and setting the same size succeeds. The chosen size survives reopening, and every allocated block starts at a distinct multiple of it.",
 ["configurations","histories"],"all sizes, all points in the life of a file system",
 "Tests try one change before and one after allocation.",
 ["storage/allocator.rs","storage/stable.rs"],
 [("ChunkPtrAllocator::set_chunk_size / new / get_next_max_ptr","storage/allocator.rs")],[("chunk size word, max ptr word","persistent configuration","storage/allocator.rs")],["set_chunk_size result, chunk_size()"])

p("C16","Directory iteration is complete, ordered, duplicate-free, resumable",
 "Iterating a directory yields '.' and '..' first when started without an index, then every entry exactly once in increasing index order, and stops as soon as the visitor asks. Started from an index, it yields exactly the entries from that index on. A new entry's index is greater than that of every entry present, and an entry keeps its index while it exists.",
 ["histories","inputs"],"all directory contents, all start indices, all stop points, all histories of additions and removals",
 "Tests list a few entries from the start.",
 ["storage/stable.rs","storage/transient.rs","fs.rs"],
 [("with_direntries","storage/stable.rs"),("new_direntry_index","storage/stable.rs")],[("direntry","(dir, index) -> entry","storage/stable.rs")],["FileSystem::with_direntries"])

p("C17","Names up to 255 bytes are kept exactly; longer ones are refused",
 "A file or directory can have any name of 1 to 255 bytes without '/', distinct names denote distinct entries, and a name is listed with exactly the bytes it was created with. A path with a longer component is refused with FilenameTooLong and nothing is created. Name comparison is a total order that agrees with equality of the bytes.",
 ["inputs"],"all byte strings as names",
 "Tests use a few short names and one too long one.",
 ["storage/types.rs","runtime/structure_helpers.rs"],
 [("FileName::new / cmp / eq / to_bytes / from_bytes","storage/types.rs"),("create_path","runtime/structure_helpers.rs")],[],["open with CREATE, with_direntries"])

p("C18","The transient backend behaves like the stable one",
 "The in-memory transient storage gives the same results as the stable storage for the same sequence of file and directory operations: same contents, sizes, directory listings, link counts and the same success or refusal of each operation.",
 ["histories","inputs"],"all operation sequences",
 "Tests run some scenarios on both backends but compare few of the results.",
 ["storage/transient.rs"],
 [("TransientStorage read/write/put_metadata/resize_file","storage/transient.rs")],[("filechunk, metadata","in-memory state","storage/transient.rs")],["differential run of both backends"])

p("C19","Metadata updates change exactly the requested fields",
 "Setting times, size, size limit or whole metadata of a file changes exactly those fields and they are returned unchanged by every later query through any name or descriptor; a new file starts with size 0, one link, the given creation time and the configured chunk type. A metadata update that would change a file's identity or kind is refused.",
 ["inputs","histories"],"all field values, all orders of updates, all files",
 "Tests set one field once.",
 ["fs.rs","storage/stable.rs","storage/metadata_provider.rs","runtime/structure_helpers.rs"],
 [("set_accessed_time / set_modified_time / set_metadata","fs.rs"),("validate_metadata_update","storage/stable.rs"),("create_dir_entry","runtime/structure_helpers.rs")],[],["metadata, metadata_from_node, open_metadata"])

p("C20","A refused namespace operation changes nothing and nothing aborts",
 "When creating, opening, linking, renaming or removing (other than recursively) a file or directory returns an error, the directory tree, all link counts, contents, descriptors and storage use are as before. No combination of arguments to the public operations makes them abort instead of returning.",
 ["inputs","fault_sequences"],"all arguments (empty, '.', over-long, missing parents, wrong kinds) in all states",
 "Tests check the returned error but not that the state is untouched.",
 ["runtime/structure_helpers.rs","runtime/dir.rs","fs.rs"],
 [("create_path / create_hard_link / rm_dir_entry check order","runtime/structure_helpers.rs")],[],["full state comparison around each failing call"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
