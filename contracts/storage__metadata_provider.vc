@@ prelude
use crate::storage::allocator::*;
use crate::storage::ptr_cache::*;
use crate::ic_stable_structures::stored_map;
use crate::ic_stable_structures::memory_manager::axiom_memory_bound;

/// the record of a node fits into the space reserved for it (checked by the harness against the real layout)
pub broadcast axiom fn axiom_metadata_size()
    ensures #[trigger] type_size::<Metadata>() <= 1024,
;
pub open spec fn meta_size() -> int { type_size::<Metadata>() as int }
pub open spec fn MI() -> u32 { 4294967294u32 }
pub open spec fn MMI() -> u32 { 4294967293u32 }

/// the record stored at an address
pub open spec fn meta_at(mem: Seq<u8>, ptr: u64) -> Metadata { raw_decode::<Metadata>(mem.subrange(ptr as int, ptr + meta_size())) }

pub open spec fn root_meta() -> Metadata {
    Metadata { node: 0, file_type: FileType::Directory, link_count: 1, size: 0, times: Times { accessed: 0, modified: 0, created: 0 },
        chunk_type: None, maximum_size_allowed: None, first_dir_entry: None, last_dir_entry: None }
}
/// the record of a node: in its own chunk, in the older table, or, for the root, implied
pub open spec fn meta_view(p: Map<(u64, u32), u64>, mem: Seq<u8>, leg: Map<u64, Metadata>, idx: u32, n: u64) -> Option<Metadata> {
    if p.dom().contains((n, idx)) { Some(meta_at(mem, p[(n, idx)])) }
    else if leg.dom().contains(n) { Some(leg[n]) }
    else if n == 0 { Some(root_meta()) }
    else { None }
}
pub open spec fn ptr_of(p: Map<(u64, u32), u64>, k: (u64, u32)) -> Option<u64> { if p.dom().contains(k) { Some(p[k]) } else { None } }

pub open spec fn cache_ok(c: Map<u64, (Metadata, Option<u64>)>, p: Map<(u64, u32), u64>, mem: Seq<u8>, leg: Map<u64, Metadata>, idx: u32) -> bool {
    forall|n: u64| #[trigger] c.dom().contains(n) ==> meta_view(p, mem, leg, idx, n) == Some(c[n].0) && c[n].1 == ptr_of(p, (n, idx))
}

/// the blocks in use and the blocks available: aligned, within the space handed out, each in one place only, none lost
pub open spec fn blocks_ok(p: Map<(u64, u32), u64>, avail: Seq<u64>, max: int, cs: int) -> bool {
    &&& valid_chunk_size(cs)
    &&& max % cs == 0
    &&& forall|k: (u64, u32)| #[trigger] p.dom().contains(k) ==> p[k] as int % cs == 0 && p[k] + cs <= max
    &&& forall|k: (u64, u32), l: (u64, u32)| #[trigger] p.dom().contains(k) && #[trigger] p.dom().contains(l) && k != l ==> p[k] != p[l]
    &&& forall|i: int| 0 <= i < avail.len() ==> (#[trigger] avail[i]) as int % cs == 0 && avail[i] + cs <= max
    &&& forall|i: int, j: int| 0 <= i < j < avail.len() ==> #[trigger] avail[i] != #[trigger] avail[j]
    &&& forall|k: (u64, u32), i: int| #[trigger] p.dom().contains(k) && 0 <= i < avail.len() ==> p[k] != #[trigger] avail[i]
    &&& forall|a: u64| #[trigger] block_start(a, max, cs) ==> avail.contains(a) || exists|k: (u64, u32)| #[trigger] p.dom().contains(k) && p[k] == a
}
pub open spec fn block_start(a: u64, max: int, cs: int) -> bool { a < max && a as int % cs == 0 }
/// the memory behind the blocks is there
pub open spec fn room_ok(p: Map<(u64, u32), u64>, max: int, cs: int, len: int) -> bool {
    &&& max <= len + 65536
    &&& forall|k: (u64, u32)| #[trigger] p.dom().contains(k) ==> p[k] + 1024 <= len
    &&& forall|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.1 < 4294967285 ==> p[k] + cs <= len
}
/// only the chunks of the content and the two records have keys
pub open spec fn keys_ok(p: Map<(u64, u32), u64>) -> bool {
    forall|k: (u64, u32)| #[trigger] p.dom().contains(k) ==> k.1 < 4294967285 || k.1 == MI() || k.1 == MMI()
}

pub open spec fn mi(mounted: bool) -> u32 { if mounted { MMI() } else { MI() } }
pub open spec fn v2_ok<M: Memory>(v: V2FileChunks<M>) -> bool {
    &&& v.v2_allocator.wf()
    &&& blocks_ok(v.v2_chunk_ptr@, v.v2_allocator.avail(), v.v2_allocator.max(), v.v2_allocator.cs())
    &&& room_ok(v.v2_chunk_ptr@, v.v2_allocator.max(), v.v2_allocator.cs(), v.v2_chunks.mem().len() as int)
    &&& keys_ok(v.v2_chunk_ptr@)
}
/// byte `x` of the block at `ptr`
pub open spec fn blk(b: Seq<u8>, ptr: u64, x: int) -> u8 { b[ptr + x] }
/// all blocks but that of `key` are in place, with the same content
pub open spec fn kept(p: Map<(u64, u32), u64>, b: Seq<u8>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, cs: int, key: (u64, u32)) -> bool {
    &&& b2.len() >= b.len()
    &&& forall|k: (u64, u32)| #[trigger] p.dom().contains(k) ==> p2.dom().contains(k) && p2[k] == p[k]
    &&& forall|k: (u64, u32), x: int| p.dom().contains(k) && k != key && 0 <= x < cs && p[k] + x < b.len() ==> #[trigger] blk(b2, p[k], x) == blk(b, p[k], x)
}
pub proof fn lemma_kept_meta(p: Map<(u64, u32), u64>, b: Seq<u8>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, cs: int, key: (u64, u32), k: (u64, u32))
    requires kept(p, b, p2, b2, cs, key), p.dom().contains(k), k != key, cs >= 4096, p[k] + 1024 <= b.len(),
    ensures meta_at(b2, p2[k]) == meta_at(b, p[k]),
{
    broadcast use axiom_metadata_size;
    let n = meta_size();
    assert forall|x: int| 0 <= x < n implies #[trigger] b2.subrange(p[k] as int, p[k] + n)[x] == b.subrange(p[k] as int, p[k] + n)[x] by {
        assert(blk(b2, p[k], x) == blk(b, p[k], x));
    }
    assert(b2.subrange(p[k] as int, p[k] + n) =~= b.subrange(p[k] as int, p[k] + n));
}

/// `q` is `p` without the keys of a node
pub open spec fn without<V>(p: Map<(u64, u32), V>, q: Map<(u64, u32), V>, node: u64) -> bool {
    &&& forall|k: (u64, u32)| #[trigger] q.dom().contains(k) <==> p.dom().contains(k) && k.0 != node
    &&& forall|k: (u64, u32)| #[trigger] q.dom().contains(k) ==> q[k] == p[k]
}
/// `s` lists the keys of a node
pub open spec fn keys_of<V>(s: Seq<(u64, u32)>, p: Map<(u64, u32), V>, node: u64) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == node && p.dom().contains(s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
    &&& forall|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.0 == node ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k
}
pub proof fn lemma_keys_of<V>(r: Seq<((u64, u32), V)>, p: Map<(u64, u32), V>, node: u64, s: Seq<(u64, u32)>)
    requires node < u64::MAX, is_range(r, p, (node, 0u32), ((node + 1) as u64, 0u32)), s.len() == r.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == r[i].0,
    ensures keys_of(s, p, node),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] != #[trigger] s[j] by { assert(key_lt(r[i].0, r[j].0)); }
    assert forall|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.0 == node implies exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k by {
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k;
        assert(s[i] == k);
    }
}

pub proof fn lemma_disjoint(a: int, b: int, cs: int)
    requires a % cs == 0, b % cs == 0, a != b, cs > 0, a >= 0, b >= 0,
    ensures a + cs <= b || b + cs <= a,
{
    let i = a / cs; let j = b / cs;
    assert(a == i * cs && b == j * cs) by (nonlinear_arith) requires a % cs == 0, b % cs == 0, cs > 0, i == a / cs, j == b / cs;
    assert(i < j ==> i * cs + cs <= j * cs) by (nonlinear_arith) requires cs > 0;
    assert(i > j ==> j * cs + cs <= i * cs) by (nonlinear_arith) requires cs > 0;
}
pub proof fn lemma_next_block(a: int, cs: int)
    requires a % cs == 0, cs > 0, a >= 0,
    ensures (a + cs) % cs == 0,
{
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a, cs);
}
/// a block is handed out and put to use
pub proof fn lemma_alloc(p: Map<(u64, u32), u64>, avail: Seq<u64>, max: int, cs: int, avail2: Seq<u64>, max2: int, key: (u64, u32), ptr: u64)
    requires blocks_ok(p, avail, max, cs), !p.dom().contains(key),
        avail.len() > 0 ==> ptr == avail.last() && avail2 == avail.drop_last() && max2 == max,
        avail.len() == 0 ==> ptr == max && avail2 == avail && max2 == max + cs,
    ensures blocks_ok(p.insert(key, ptr), avail2, max2, cs),
        ptr as int % cs == 0, ptr + cs <= max2, max <= max2,
        forall|k: (u64, u32)| #[trigger] p.dom().contains(k) ==> p[k] != ptr && (p[k] + cs <= ptr || ptr + cs <= p[k]),
        max2 <= max || max2 == ptr + cs,
{
    let q = p.insert(key, ptr);
    lemma_next_block(max, cs);
    assert forall|k: (u64, u32)| #[trigger] p.dom().contains(k) implies p[k] != ptr && (p[k] + cs <= ptr || ptr + cs <= p[k]) by {
        if avail.len() > 0 { assert(avail[avail.len() - 1] == ptr); }
        lemma_disjoint(p[k] as int, ptr as int, cs);
    }
    if avail.len() > 0 { assert(avail[avail.len() - 1] == ptr); }
    assert forall|a: u64| #[trigger] block_start(a, max2, cs) implies avail2.contains(a) || exists|k: (u64, u32)| #[trigger] q.dom().contains(k) && q[k] == a by {
        if a == ptr {
            assert(q.dom().contains(key) && q[key] == a);
        } else if avail.len() > 0 {
            assert(block_start(a, max, cs));
            if avail.contains(a) {
                let i = choose|i: int| 0 <= i < avail.len() && avail[i] == a;
                assert(avail2[i] == a);
            } else {
                let k = choose|k: (u64, u32)| #[trigger] p.dom().contains(k) && p[k] == a;
                assert(q.dom().contains(k) && q[k] == a);
            }
        } else {
            if a >= max { lemma_disjoint(a as int, max, cs); assert(false); }
            assert(block_start(a, max, cs));
            let k = choose|k: (u64, u32)| #[trigger] p.dom().contains(k) && p[k] == a;
            assert(q.dom().contains(k) && q[k] == a);
        }
    }
}
/// a block is taken out of use and becomes available
pub proof fn lemma_free(p: Map<(u64, u32), u64>, avail: Seq<u64>, max: int, cs: int, key: (u64, u32))
    requires blocks_ok(p, avail, max, cs), p.dom().contains(key),
    ensures blocks_ok(p.remove(key), avail.push(p[key]), max, cs),
{
    let q = p.remove(key);
    let av = avail.push(p[key]);
    assert forall|a: u64| #[trigger] block_start(a, max, cs) implies av.contains(a) || exists|k: (u64, u32)| #[trigger] q.dom().contains(k) && q[k] == a by {
        if a == p[key] {
            assert(av[avail.len() as int] == a);
        } else if avail.contains(a) {
            let i = choose|i: int| 0 <= i < avail.len() && avail[i] == a;
            assert(av[i] == a);
        } else {
            let k = choose|k: (u64, u32)| #[trigger] p.dom().contains(k) && p[k] == a;
            assert(q.dom().contains(k) && q[k] == a);
        }
    }
}
@@ rewrite MetadataCache
Rc<RefCell<MetadataCacheMap>>
=>
MetadataCacheMap
@@ rewrite MetadataCache::new
Rc<RefCell<MetadataCacheMap>>
=>
MetadataCacheMap
@@ rewrite MetadataCache::new
Rc::new(RefCell::new($x:any))
=>
$x
@@ fn MetadataCache::new [C14]
    ensures r.meta@ == Map::<u64, (Metadata, Option<u64>)>::empty(),
@@ sig MetadataCache::update
update(&self,
=>
update(&mut self,
@@ rewrite MetadataCache::update
let mut meta = (*self.meta).borrow_mut();
=>
let meta = &mut self.meta;
@@ fn MetadataCache::update [C08,C14,C19]
    ensures
        final(self).meta@.dom().contains(node) && final(self).meta@[node] == (*new_meta, new_ptr), // [C14,C19]
        forall|n: u64| n != node && #[trigger] final(self).meta@.dom().contains(n) ==> old(self).meta@.dom().contains(n) && final(self).meta@[n] == old(self).meta@[n], // [C14]
@@ sig MetadataCache::remove
remove(&self,
=>
remove(&mut self,
@@ rewrite MetadataCache::remove
let mut meta = (*self.meta).borrow_mut();
=>
let meta = &mut self.meta;
@@ fn MetadataCache::remove [C05,C14]
    ensures final(self).meta@ == old(self).meta@.remove(node), // [C14]
@@ rewrite MetadataCache::get
let meta = (*self.meta).borrow();
=>
let meta = &self.meta;
@@ rewrite MetadataCache::get
$e:post.cloned()
=>
opt_cloned($e)
@@ fn MetadataCache::get [C14,C19]
    ensures r == (if self.meta@.dom().contains(node) { Some(self.meta@[node]) } else { None::<(Metadata, Option<u64>)> }), // [C14]
@@ extra MetadataProvider
    pub open spec fn leg(&self, mounted: bool) -> Map<u64, Metadata> { if mounted { self.mounted_meta@ } else { self.metadata@ } }
    pub open spec fn caches_ok(&self, p: Map<(u64, u32), u64>, mem: Seq<u8>) -> bool {
        &&& cache_ok(self.meta_cache.meta@, p, mem, self.metadata@, MI())
        &&& cache_ok(self.mounted_meta_cache.meta@, p, mem, self.mounted_meta@, MMI())
    }
    /// the record of a node
    pub open spec fn rec(&self, p: Map<(u64, u32), u64>, mem: Seq<u8>, mounted: bool, n: u64) -> Option<Metadata> {
        meta_view(p, mem, self.leg(mounted), if mounted { MMI() } else { MI() }, n)
    }
@@ fn MetadataProvider::new [C14]
    ensures
        r.metadata@ == stored_map::<u64, Metadata, M>(meta_mem), r.mounted_meta@ == stored_map::<u64, Metadata, M>(mounted_meta_mem), // [C14]
        forall|p: Map<(u64, u32), u64>, mem: Seq<u8>| #[trigger] r.caches_ok(p, mem),
@@ sig MetadataProvider::load_chunk_meta
&self, v2_chunks
=>
v2_chunks
@@ rewrite MetadataProvider::get_metadata_mut
self.load_chunk_meta(
=>
Self::load_chunk_meta(
@@ fn MetadataProvider::load_chunk_meta [C14,C19]
    requires ptr + 1024 <= v2_chunks.mem().len(),
    ensures r == meta_at(v2_chunks.mem(), ptr), // [C14,C19]
@@ hint MetadataProvider::load_chunk_meta entry
    broadcast use axiom_metadata_size;
@@ sig MetadataProvider::store_chunk_meta
&self, v2_chunks: &VirtualMemory<M>
=>
v2_chunks: &mut VirtualMemory<M>
@@ fn MetadataProvider::store_chunk_meta [C14,C19]
    requires ptr + 1024 <= old(v2_chunks).mem().len(), ptr + 1024 <= u64::MAX,
    ensures final(v2_chunks).mem().len() == old(v2_chunks).mem().len(),
        meta_at(final(v2_chunks).mem(), ptr) == *meta, // [C14,C19]
        forall|i: int| 0 <= i < old(v2_chunks).mem().len() && !(ptr <= i < ptr + 1024) ==> #[trigger] final(v2_chunks).mem()[i] == old(v2_chunks).mem()[i], // [C02]
@@ hint MetadataProvider::store_chunk_meta entry
    broadcast use {axiom_metadata_size, axiom_obj_roundtrip};
@@ trusted MetadataProvider::get_metadata [C14,C19] -- interior mutability of the cache; the body is verified as get_metadata_mut, with exclusive access to the cache
    requires self.caches_ok(v2_chunk_ptr@, v2_chunks.mem()),
    ensures
        r is Some <==> self.rec(v2_chunk_ptr@, v2_chunks.mem(), is_mounted, node) is Some,
        r is Some ==> (r->0).0 == self.rec(v2_chunk_ptr@, v2_chunks.mem(), is_mounted, node)->0
            && (r->0).1 == ptr_of(v2_chunk_ptr@, (node, if is_mounted { MMI() } else { MI() })),
@@ copy MetadataProvider::get_metadata_mut MetadataProvider::get_metadata
@@ sig MetadataProvider::get_metadata_mut
&self,
=>
&mut self,
@@ rewrite MetadataProvider::get_metadata_mut
&self.mounted_meta_cache
=>
&mut self.mounted_meta_cache
@@ rewrite MetadataProvider::get_metadata_mut
&self.meta_cache
=>
&mut self.meta_cache
@@ fn MetadataProvider::get_metadata_mut [C02,C14,C19]
    requires old(self).caches_ok(v2_chunk_ptr@, v2_chunks.mem()),
        forall|k: (u64, u32)| #[trigger] v2_chunk_ptr@.dom().contains(k) ==> v2_chunk_ptr@[k] + 1024 <= v2_chunks.mem().len(),
    ensures
        final(self).caches_ok(v2_chunk_ptr@, v2_chunks.mem()), // [C14]
        final(self).metadata@ == old(self).metadata@, final(self).mounted_meta@ == old(self).mounted_meta@,
        r is Some <==> old(self).rec(v2_chunk_ptr@, v2_chunks.mem(), is_mounted, node) is Some, // [C14,C19]
        r is Some ==> (r->0).0 == old(self).rec(v2_chunk_ptr@, v2_chunks.mem(), is_mounted, node)->0
            && (r->0).1 == ptr_of(v2_chunk_ptr@, (node, if is_mounted { MMI() } else { MI() })), // [C14,C19,C13]
@@ rewrite MetadataProvider::put_metadata
&self.mounted_meta_cache
=>
&mut self.mounted_meta_cache
@@ rewrite MetadataProvider::put_metadata
&self.meta_cache
=>
&mut self.meta_cache
@@ rewrite MetadataProvider::put_metadata
grow_memory(&v2.v2_chunks,
=>
grow_memory(&mut v2.v2_chunks,
@@ rewrite MetadataProvider::put_metadata
self.store_chunk_meta(&v2.v2_chunks,
=>
Self::store_chunk_meta(&mut v2.v2_chunks,
@@ fn MetadataProvider::put_metadata [C02,C05,C08,C13,C14,C19]
    requires v2_ok(*old(v2)), node == metadata.node,
        old(self).caches_ok(old(v2).v2_chunk_ptr@, old(v2).v2_chunks.mem()),
        meta_ptr == ptr_of(old(v2).v2_chunk_ptr@, (node, mi(is_mounted))),
    ensures
        v2_ok(*final(v2)), // [C02,C05]
        final(v2).v2_allocator.cs() == old(v2).v2_allocator.cs(),
        final(v2).v2_allocator.max() > old(v2).v2_allocator.max() ==> final(v2).v2_allocator.avail().len() == 0, // [C05]
        final(v2).v2_allocator.avail().len() <= old(v2).v2_allocator.avail().len(), // [C05]
        final(self).caches_ok(final(v2).v2_chunk_ptr@, final(v2).v2_chunks.mem()), // [C14]
        final(self).metadata@ == old(self).metadata@, final(self).mounted_meta@ == old(self).mounted_meta@,
        final(v2).v2_chunk_ptr@.dom() =~= old(v2).v2_chunk_ptr@.dom().insert((node, mi(is_mounted))), // [C02,C05]
        kept(old(v2).v2_chunk_ptr@, old(v2).v2_chunks.mem(), final(v2).v2_chunk_ptr@, final(v2).v2_chunks.mem(), old(v2).v2_allocator.cs(), (node, mi(is_mounted))), // [C02,C13]
        meta_ptr is Some ==> final(v2).v2_chunk_ptr@ == old(v2).v2_chunk_ptr@,
        meta_ptr is Some ==> final(v2).v2_allocator.max() == old(v2).v2_allocator.max(), // [C05]
        final(self).rec(final(v2).v2_chunk_ptr@, final(v2).v2_chunks.mem(), is_mounted, node) == Some(*metadata), // [C19,C14]
        forall|n: u64, m: bool| n != node || m != is_mounted ==>
            #[trigger] final(self).rec(final(v2).v2_chunk_ptr@, final(v2).v2_chunks.mem(), m, n) == old(self).rec(old(v2).v2_chunk_ptr@, old(v2).v2_chunks.mem(), m, n), // [C02,C13,C19]
@@ hint MetadataProvider::put_metadata entry
    broadcast use {axiom_memory_bound, axiom_metadata_size};
    let ghost p0 = v2.v2_chunk_ptr@; let ghost b0 = v2.v2_chunks.mem(); let ghost cs = v2.v2_allocator.cs();
    let ghost av0 = v2.v2_allocator.avail(); let ghost max0 = v2.v2_allocator.max(); let ghost key = (node, mi(is_mounted));
@@ hint MetadataProvider::put_metadata after "v2.v2_chunk_ptr.insert($x:any);"
    proof { lemma_alloc(p0, av0, max0, cs, v2.v2_allocator.avail(), v2.v2_allocator.max(), key, meta_ptr); }
@@ hint MetadataProvider::put_metadata bodyend
    proof {
        let p = v2.v2_chunk_ptr@; let b = v2.v2_chunks.mem();
        assert forall|k: (u64, u32), x: int| p0.dom().contains(k) && k != key && 0 <= x < cs && p0[k] + x < b0.len() implies #[trigger] blk(b, p0[k], x) == blk(b0, p0[k], x) by {
            lemma_disjoint(p0[k] as int, p[key] as int, cs);
        }
        assert(kept(p0, b0, p, b, cs, key));
        assert forall|k: (u64, u32)| p0.dom().contains(k) && k != key implies #[trigger] meta_at(b, p0[k]) == meta_at(b0, p0[k]) by {
            lemma_kept_meta(p0, b0, p, b, cs, key, k);
        }
    }
@@ rewrite MetadataProvider::remove_metadata
for en in filechunk.range($r:any) $b:tt
=>
let mut it1_ = filechunk.range($r); while let Some(en) = it1_.next() $b
@@ rewrite MetadataProvider::remove_metadata
for en in v2_chunk_ptr.range($r:any) $b:tt
=>
let mut it2_ = v2_chunk_ptr.range($r); while let Some(en) = it2_.next() $b
@@ rewrite MetadataProvider::remove_metadata #1
for ($x:id, $y:id) in chunks.into_iter() $b:tt
=>
let mut rm_ = vec_iter(chunks); while let Some(($x, $y)) = rm_.next() $b
@@ fn MetadataProvider::remove_metadata [C02,C03,C05,C13,C14]
    requires
        node < u64::MAX,
        old(v2_allocator).wf(), blocks_ok(old(v2_chunk_ptr)@, old(v2_allocator).avail(), old(v2_allocator).max(), old(v2_allocator).cs()),
    ensures
        final(v2_allocator).wf(), blocks_ok(final(v2_chunk_ptr)@, final(v2_allocator).avail(), final(v2_allocator).max(), final(v2_allocator).cs()), // [C05,C02]
        final(v2_allocator).cs() == old(v2_allocator).cs(), final(v2_allocator).max() == old(v2_allocator).max(), // [C05]
        without(old(v2_chunk_ptr)@, final(v2_chunk_ptr)@, node), // [C02,C05]
        without(old(filechunk)@, final(filechunk)@, node), // [C02,C03,C05]
        final(ptr_cache).pointers@ == Map::<(u64, u32), CachedChunkPtr>::empty(), // [C14,C03]
        final(self).metadata@ == old(self).metadata@.remove(node), // [C05]
        final(self).mounted_meta@ == old(self).mounted_meta@.remove(node), // [C13]
        final(self).meta_cache.meta@ == old(self).meta_cache.meta@.remove(node), // [C14]
        final(self).mounted_meta_cache.meta@ == old(self).mounted_meta_cache.meta@.remove(node), // [C14]
@@ hint MetadataProvider::remove_metadata entry
    let ghost f0 = filechunk@; let ghost p0 = v2_chunk_ptr@;
    let ghost cs = v2_allocator.cs(); let ghost max = v2_allocator.max();
@@ loop MetadataProvider::remove_metadata 1
    invariant
        0 <= it1_.pos() <= it1_.seq().len(), is_range(it1_.seq(), f0, (node, 0u32), ((node + 1) as u64, 0u32)),
        chunks@.len() == it1_.pos(),
        forall|i: int| 0 <= i < chunks@.len() ==> #[trigger] chunks@[i] == it1_.seq()[i].0,
    ensures it1_.pos() == it1_.seq().len(),
    decreases it1_.seq().len() - it1_.pos(),
@@ loop MetadataProvider::remove_metadata 2
    invariant
        0 <= rm_.pos() <= rm_.seq().len(), keys_of(rm_.seq(), f0, node),
        forall|k: (u64, u32)| #[trigger] filechunk@.dom().contains(k) ==> f0.dom().contains(k) && filechunk@[k] == f0[k],
        forall|k: (u64, u32)| #[trigger] f0.dom().contains(k) && k.0 != node ==> filechunk@.dom().contains(k),
        forall|i: int| 0 <= i < rm_.pos() ==> !filechunk@.dom().contains(#[trigger] rm_.seq()[i]),
    ensures rm_.pos() == rm_.seq().len(),
    decreases rm_.seq().len() - rm_.pos(),
@@ loop MetadataProvider::remove_metadata 3
    invariant
        0 <= it2_.pos() <= it2_.seq().len(), is_range(it2_.seq(), p0, (node, 0u32), ((node + 1) as u64, 0u32)),
        chunks@.len() == it2_.pos(),
        forall|i: int| 0 <= i < chunks@.len() ==> #[trigger] chunks@[i] == it2_.seq()[i].0,
    ensures it2_.pos() == it2_.seq().len(),
    decreases it2_.seq().len() - it2_.pos(),
@@ loop MetadataProvider::remove_metadata 4
    invariant
        0 <= rm_.pos() <= rm_.seq().len(), keys_of(rm_.seq(), p0, node),
        v2_allocator.wf(), v2_allocator.cs() == cs, v2_allocator.max() == max,
        blocks_ok(v2_chunk_ptr@, v2_allocator.avail(), max, cs),
        forall|k: (u64, u32)| #[trigger] v2_chunk_ptr@.dom().contains(k) ==> p0.dom().contains(k) && v2_chunk_ptr@[k] == p0[k],
        forall|k: (u64, u32)| #[trigger] p0.dom().contains(k) && k.0 != node ==> v2_chunk_ptr@.dom().contains(k),
        forall|i: int| 0 <= i < rm_.pos() ==> !v2_chunk_ptr@.dom().contains(#[trigger] rm_.seq()[i]),
    ensures rm_.pos() == rm_.seq().len(),
    decreases rm_.seq().len() - rm_.pos(),
@@ hint MetadataProvider::remove_metadata loop2:before
    proof { lemma_keys_of(it1_.seq(), f0, node, chunks@); }
@@ hint MetadataProvider::remove_metadata loop4:before
    proof { lemma_keys_of(it2_.seq(), p0, node, chunks@); }
@@ hint MetadataProvider::remove_metadata loop4:start
    let ghost p1 = v2_chunk_ptr@; let ghost av1 = v2_allocator.avail();
@@ hint MetadataProvider::remove_metadata loop4:end
    proof {
        if p1.dom().contains((node, idx)) { lemma_free(p1, av1, max, cs, (node, idx)); assert(v2_allocator.avail() == av1.push(p1[(node, idx)])); assert(v2_chunk_ptr@ =~= p1.remove((node, idx))); }
        else { assert(v2_chunk_ptr@ =~= p1); }
    }
@@ hint MetadataProvider::remove_metadata bodyend
    proof {
        assert forall|k: (u64, u32)| #[trigger] v2_chunk_ptr@.dom().contains(k) implies k.0 != node by {
            if k.0 == node { let i = choose|i: int| 0 <= i < rm_.seq().len() && #[trigger] rm_.seq()[i] == k; }
        }
    }
