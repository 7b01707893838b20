@@ prelude
/// what the cache says is what the map says
pub open spec fn consistent(c: Map<(u64, u32), CachedChunkPtr>, p: Map<(u64, u32), u64>) -> bool {
    forall|k: (u64, u32)| #[trigger] c.dom().contains(k) ==> k.1 < 4294967285 && right(k, c[k], p)
}
pub open spec fn right(k: (u64, u32), v: CachedChunkPtr, p: Map<(u64, u32), u64>) -> bool {
    match v {
        CachedChunkPtr::ChunkExists(x) => p.dom().contains(k) && p[k] == x,
        CachedChunkPtr::ChunkMissing => !p.dom().contains(k),
    }
}
@@ fn PtrCache::new [C14]
    ensures r.pointers@ == Map::<(u64, u32), CachedChunkPtr>::empty(), // [C14]
@@ rewrite PtrCache::add
for (key, value) in cache_pairs $b:tt
=>
let mut pair_iter = vec_iter(cache_pairs); while let Some((key, value)) = pair_iter.next() $b
@@ fn PtrCache::add [C01,C02,C14]
    requires cache_pairs@.len() <= 0x10_0000,
    ensures
        forall|k: (u64, u32)| #[trigger] final(self).pointers@.dom().contains(k) ==>
            (old(self).pointers@.dom().contains(k) && final(self).pointers@[k] == old(self).pointers@[k]
                && forall|i: int| 0 <= i < cache_pairs@.len() ==> (#[trigger] cache_pairs@[i]).0 != k)
            || exists|i: int| 0 <= i < cache_pairs@.len() && #[trigger] cache_pairs@[i] == (k, final(self).pointers@[k]), // [C01,C02]
        forall|i: int| 0 <= i < cache_pairs@.len() ==> final(self).pointers@.dom().contains((#[trigger] cache_pairs@[i]).0), // [C20]
@@ loop PtrCache::add 1
    invariant
        0 <= pair_iter.pos() <= pair_iter.seq().len(), pair_iter.seq() == cache_pairs@,
        forall|k: (u64, u32)| #[trigger] self.pointers@.dom().contains(k) ==>
            (old(self).pointers@.dom().contains(k) && self.pointers@[k] == old(self).pointers@[k]
                && forall|i: int| 0 <= i < pair_iter.pos() ==> (#[trigger] cache_pairs@[i]).0 != k)
            || exists|i: int| 0 <= i < cache_pairs@.len() && #[trigger] cache_pairs@[i] == (k, self.pointers@[k]),
        forall|i: int| 0 <= i < pair_iter.pos() ==> self.pointers@.dom().contains((#[trigger] cache_pairs@[i]).0),
    ensures pair_iter.pos() == cache_pairs@.len(),
    decreases pair_iter.seq().len() - pair_iter.pos(),
@@ rewrite PtrCache::add_range
let mut new_cache =
=>
let mut new_cache: Vec<((Node, FileChunkIndex), CachedChunkPtr)> =
@@ rewrite PtrCache::add_range
for en in items $b:tt
=>
let mut items = items; while let Some(en) = items.next() $b
@@ rewrite PtrCache::add_range
let (n, index) = *en.key();
=>
let key_ = *en.key(); let n = key_.0; let index = key_.1;
@@ fn PtrCache::add_range [C01,C02,C14]
    requires consistent(old(self).pointers@, v2_chunk_ptr@),
    ensures consistent(final(self).pointers@, v2_chunk_ptr@), // [C01,C02,C14]
        from_index < MAX_FILE_CHUNK_COUNT ==> final(self).pointers@.dom().contains((node, from_index)), // [C20]
@@ hint PtrCache::add_range before "let mut cur_index = from_index;"
    let ghost pm = v2_chunk_ptr@;
    let ghost all = items.seq();
@@ loop PtrCache::add_range 1
    invariant
        items.seq() == all, 0 <= items.pos() <= all.len(), pm == v2_chunk_ptr@,
        is_range(all, pm, (node, from_index), (node, to_index)),
        from_index < to_index <= MAX_FILE_CHUNK_COUNT, to_index - from_index <= 1025,
        iterator_empty <==> items.pos() == 0,
        cur_index == (if items.pos() == 0 { from_index as int } else { all[items.pos() - 1].0.1 + 1 }),
        from_index <= cur_index <= to_index,
        new_cache@.len() == cur_index - from_index,
        forall|i: int| 0 <= i < new_cache@.len() ==> (#[trigger] new_cache@[i]).0 == (node, (from_index + i) as u32) && right(new_cache@[i].0, new_cache@[i].1, pm),
    ensures items.pos() == all.len(),
    decreases all.len() - items.pos(),
@@ loop PtrCache::add_range 2
    invariant
        is_range(all, pm, (node, from_index), (node, to_index)),
        0 <= p < all.len(), all[p].0 == (node, index),
        p == 0 ==> from_index <= cur_index, p > 0 ==> all[p - 1].0.1 < cur_index,
        from_index <= cur_index <= index < to_index <= MAX_FILE_CHUNK_COUNT,
        new_cache@.len() == cur_index - from_index,
        forall|i: int| 0 <= i < new_cache@.len() ==> (#[trigger] new_cache@[i]).0 == (node, (from_index + i) as u32) && right(new_cache@[i].0, new_cache@[i].1, pm),
    decreases index - cur_index,
@@ hint PtrCache::add_range loop1:start
    let ghost p = items.pos() - 1;
    proof {
        assert(key_lt(all[p].0, (node, to_index)) && !key_lt(all[p].0, (node, from_index)));
        if p > 0 { assert(key_lt(all[p - 1].0, all[p].0)); assert(!key_lt(all[p - 1].0, (node, from_index)) && key_lt(all[p - 1].0, (node, to_index))); }
    }
@@ hint PtrCache::add_range loop2:start
    proof {
        if pm.dom().contains((node, cur_index)) {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == (node, cur_index);
            if j < p { if j < p - 1 { assert(key_lt(all[j].0, all[p - 1].0)); } } else if j > p { assert(key_lt(all[p].0, all[j].0)); }
            assert(false);
        }
    }
@@ loop PtrCache::add_range 3
    invariant
        is_range(all, pm, (node, from_index), (node, to_index)), all.len() == 0,
        from_index <= cur_index <= to_index <= MAX_FILE_CHUNK_COUNT,
        new_cache@.len() == cur_index - from_index,
        forall|i: int| 0 <= i < new_cache@.len() ==> (#[trigger] new_cache@[i]).0 == (node, (from_index + i) as u32) && right(new_cache@[i].0, new_cache@[i].1, pm),
    decreases to_index - cur_index,
@@ hint PtrCache::add_range loop3:start
    proof {
        if pm.dom().contains((node, cur_index)) {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == (node, cur_index);
            assert(false);
        }
    }
@@ hint PtrCache::add_range before "self.add(new_cache);"
    proof { assert(new_cache@.len() > 0); assert(new_cache@[0].0 == (node, from_index)); }
@@ fn PtrCache::clear [C01,C02,C14]
    ensures final(self).pointers@ == Map::<(u64, u32), CachedChunkPtr>::empty(), // [C02,C03,C14]
@@ fn PtrCache::get [C01,C14]
    ensures r == (if self.pointers@.dom().contains(key) { Some(self.pointers@[key]) } else { None::<CachedChunkPtr> }), // [C01]
