@@ prelude
use crate::storage::ptr_cache::*;

@@ fn ChunkV2Iterator::new [C01]
    requires 0 < chunk_size, offset / chunk_size <= u32::MAX, div_up(last_address as int, chunk_size as int) <= u32::MAX,
    ensures
        r.node == node, r.cur_index == offset / chunk_size, // [C01]
        r.last_index_excluded == div_up(last_address as int, chunk_size as int), // [C01]
        *r.ptr_cache == *old(ptr_cache), *r.v2_chunk_ptr == *old(v2_chunk_ptr),
        *final(r.ptr_cache) == *final(ptr_cache), *final(r.v2_chunk_ptr) == *final(v2_chunk_ptr),
@@ extra head Iterator@ChunkV2Iterator
impl<'a, M: Memory> ChunkV2Iterator<'a, M>
@@ sig Iterator@ChunkV2Iterator::next
Option<Self::Item>
=>
Option<((Node, FileChunkIndex), CachedChunkPtr)>
@@ sig Iterator@ChunkV2Iterator::next
fn next
=>
pub fn next
@@ drop Iterator@ChunkV2Iterator::Item -- associated type
@@ extra Iterator@ChunkV2Iterator
    pub open spec fn wf(&self) -> bool {
        consistent(self.ptr_cache.pointers@, self.v2_chunk_ptr@) && self.last_index_excluded <= MAX_FILE_CHUNK_COUNT
    }
@@ fn Iterator@ChunkV2Iterator::next [C01,C02]
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).node == old(self).node, final(self).last_index_excluded == old(self).last_index_excluded,
        *final(self).v2_chunk_ptr == *old(self).v2_chunk_ptr, // [C02]
        *final(final(self).ptr_cache) == *final(old(self).ptr_cache),
        *final(final(self).v2_chunk_ptr) == *final(old(self).v2_chunk_ptr),
        old(self).cur_index >= old(self).last_index_excluded ==> r is None && final(self).cur_index == old(self).cur_index, // [C01]
        old(self).cur_index < old(self).last_index_excluded ==> {
            &&& r is Some && final(self).cur_index == old(self).cur_index + 1
            &&& (r->0).0 == (old(self).node, old(self).cur_index)
            &&& right((r->0).0, (r->0).1, old(self).v2_chunk_ptr@)
        }, // [C01]
