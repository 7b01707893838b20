@@ prelude
use crate::ic_stable_structures::memory_manager::axiom_memory_bound;

/// the i-th 64-bit word of a memory
pub open spec fn word(m: Seq<u8>, i: int) -> u64 { raw_decode::<u64>(m.subrange(i * 8, i * 8 + 8)) }

pub open spec fn valid_chunk_size(n: int) -> bool { n == 4096 || n == 8192 || n == 16384 || n == 32768 || n == 65536 }

pub open spec fn size_at(i: int) -> int { if i <= 0 { 4096 } else if i == 1 { 8192 } else if i == 2 { 16384 } else if i == 3 { 32768 } else { 65536 } }

pub open spec fn list_len(m: Seq<u8>) -> int { word(m, 2) as int }

pub open spec fn header_ok(m: Seq<u8>) -> bool {
    &&& m.len() >= 128
    &&& (16 + list_len(m)) * 8 <= m.len()
    &&& m.take(4) == seq![65u8, 76u8, 79u8, 49u8] || m.take(4) == seq![70u8, 83u8, 65u8, 49u8]
}

/// what a memory of an allocator looks like when it is opened
pub open spec fn openable(m: Seq<u8>) -> bool {
    ||| m.len() == 0
    ||| {
        &&& header_ok(m)
        &&& valid_chunk_size(word(m, 1) as int) || (word(m, 1) == 0 && (word(m, 3) == 0))
    }
}

pub proof fn lemma_word_write(a: Seq<u8>, b: Seq<u8>, j: int, v: u64)
    requires 0 <= j, b.len() >= a.len(), b.len() >= j * 8 + 8,
        b.subrange(j * 8, j * 8 + 8) == raw_bytes(v),
        forall|i: int| 0 <= i < a.len() && !(j * 8 <= i < j * 8 + 8) ==> b[i] == a[i],
    ensures word(b, j) == v,
        forall|k: int| 0 <= k && k != j && k * 8 + 8 <= a.len() ==> #[trigger] word(b, k) == word(a, k),
        (j > 0 && a.len() >= 4) ==> b.take(4) == a.take(4),
{
    axiom_obj_roundtrip::<u64>(v);
    assert forall|k: int| 0 <= k && k != j && k * 8 + 8 <= a.len() implies #[trigger] word(b, k) == word(a, k) by {
        assert(b.subrange(k * 8, k * 8 + 8) =~= a.subrange(k * 8, k * 8 + 8));
    }
    if j > 0 && a.len() >= 4 { assert(b.take(4) =~= a.take(4)); }
}
@@ extra ChunkPtrAllocator
    pub open spec fn m(&self) -> Seq<u8> { self.v2_available_chunks.mem() }
    /// the chunk size stored
    pub open spec fn stored(&self) -> int { word(self.m(), 1) as int }
    /// the chunk size in use
    pub open spec fn cs(&self) -> int { self.v2_chunk_size as int }
    /// the first address that was never handed out
    pub open spec fn max(&self) -> int { word(self.m(), 3) as int }
    /// the addresses to hand out again
    pub open spec fn avail(&self) -> Seq<u64> { Seq::new(list_len(self.m()) as nat, |i: int| word(self.m(), 16 + i)) }
    pub open spec fn base_wf(&self) -> bool { header_ok(self.m()) }
    pub open spec fn wf(&self) -> bool {
        &&& self.base_wf()
        &&& valid_chunk_size(self.cs())
        &&& self.stored() == self.cs()
    }
@@ sig ChunkPtrAllocator::new
new(v2_available_chunks: VirtualMemory<M>)
=>
new(mut v2_available_chunks: VirtualMemory<M>)
@@ rewrite ChunkPtrAllocator::new
b != *b"ALO1"
=>
!bytes_eq(&b, &[65u8, 76u8, 79u8, 49u8])
@@ rewrite ChunkPtrAllocator::new
b != *b"FSA1"
=>
!bytes_eq(&b, &[70u8, 83u8, 65u8, 49u8])
@@ rewrite ChunkPtrAllocator::new
b == *b"ALO1"
=>
bytes_eq(&b, &[65u8, 76u8, 79u8, 49u8])
@@ rewrite ChunkPtrAllocator::new
&0u64.to_le_bytes()
=>
&u64_le_bytes(0u64)
@@ fn ChunkPtrAllocator::new [C02,C05,C14,C15]
    requires openable(v2_available_chunks.mem()),
    ensures
        r is Ok,
        r->Ok_0.wf(), // [C14,C15]
        v2_available_chunks.mem().len() > 0 && word(v2_available_chunks.mem(), 1) != 0 ==> r->Ok_0.cs() == word(v2_available_chunks.mem(), 1), // [C14,C15]
        v2_available_chunks.mem().len() > 0 ==> {
            &&& r->Ok_0.max() == word(v2_available_chunks.mem(), 3)
            &&& r->Ok_0.avail() == Seq::new(list_len(v2_available_chunks.mem()) as nat, |i: int| word(v2_available_chunks.mem(), 16 + i))
        }, // [C14,C05]
        v2_available_chunks.mem().len() == 0 ==> r->Ok_0.max() == 0 && r->Ok_0.avail() == Seq::<u64>::empty(), // [C05]
@@ hint ChunkPtrAllocator::new entry
    broadcast use {axiom_memory_bound, axiom_obj_size_u64};
    let ghost m0 = v2_available_chunks.mem();
    proof { axiom_obj_roundtrip::<u64>(0); }
@@ hint ChunkPtrAllocator::new after "v2_available_chunks.write(24, $x:any);"
    proof {
        let m = v2_available_chunks.mem();
        assert(m.subrange(8, 16) =~= raw_bytes(0u64));
        assert(m.subrange(16, 24) =~= raw_bytes(0u64));
        assert(m.subrange(24, 32) =~= raw_bytes(0u64));
    }
@@ hint ChunkPtrAllocator::new after "v2_available_chunks.read(0, &mut b);"
    proof { assert(v2_available_chunks.mem().take(4) =~= v2_available_chunks.mem().subrange(0, 4)); }
@@ hint ChunkPtrAllocator::new before "let mut allocator = $x:any"
    proof {
        let m = v2_available_chunks.mem();
        assert(m.take(4) =~= seq![70u8, 83u8, 65u8, 49u8] || m.take(4) == m0.take(4));
        if m0.len() > 0 {
            assert forall|k: int| 1 <= k && k * 8 + 8 <= m0.len() implies #[trigger] word(m, k) == word(m0, k) by {
                assert(m.subrange(k * 8, k * 8 + 8) =~= m0.subrange(k * 8, k * 8 + 8));
            }
        }
    }
@@ hint ChunkPtrAllocator::new end
    proof {
        if m0.len() > 0 {
            assert(allocator.avail() =~= Seq::new(list_len(m0) as nat, |i: int| word(m0, 16 + i)));
        } else {
            assert(allocator.avail() =~= Seq::<u64>::empty());
        }
    }
@@ fn ChunkPtrAllocator::read_u64 [C02,C05,C15]
    requires (index + 1) * 8 <= self.m().len(),
    ensures r == word(self.m(), index as int),
@@ hint ChunkPtrAllocator::read_u64 entry
    broadcast use {axiom_memory_bound, axiom_obj_size_u64};
@@ sig ChunkPtrAllocator::write_u64
write_u64(&self,
=>
write_u64(&mut self,
@@ rewrite ChunkPtrAllocator::write_u64
write_obj(&$m:post,
=>
write_obj(&mut $m,
@@ fn ChunkPtrAllocator::write_u64 [C02,C05,C15]
    requires index <= 0x1000_0000_0000_0000,
    ensures final(self).v2_chunk_size == old(self).v2_chunk_size,
        final(self).m().len() >= old(self).m().len(), final(self).m().len() >= index * 8 + 8,
        word(final(self).m(), index as int) == value,
        forall|k: int| 0 <= k && k != index && k * 8 + 8 <= old(self).m().len() ==> #[trigger] word(final(self).m(), k) == word(old(self).m(), k), // [C02]
        index > 0 && old(self).m().len() >= 4 ==> final(self).m().take(4) == old(self).m().take(4), // [C14]
@@ hint ChunkPtrAllocator::write_u64 entry
    broadcast use {axiom_memory_bound, axiom_obj_size_u64};
@@ hint ChunkPtrAllocator::write_u64 bodyend
    proof { lemma_word_write(old(self).m(), self.m(), index as int, value); }
@@ fn ChunkPtrAllocator::get_len [C02,C05]
    requires self.base_wf(),
    ensures r == list_len(self.m()),
@@ sig ChunkPtrAllocator::set_len
set_len(&self,
=>
set_len(&mut self,
@@ fn ChunkPtrAllocator::set_len [C02,C05]
    ensures final(self).v2_chunk_size == old(self).v2_chunk_size, list_len(final(self).m()) == new_len,
        final(self).m().len() >= old(self).m().len(), final(self).m().len() >= 24,
        forall|k: int| 0 <= k && k != 2 && k * 8 + 8 <= old(self).m().len() ==> #[trigger] word(final(self).m(), k) == word(old(self).m(), k), // [C02]
        old(self).m().len() >= 4 ==> final(self).m().take(4) == old(self).m().take(4), // [C14]
@@ sig ChunkPtrAllocator::get_next_max_ptr
get_next_max_ptr(&self)
=>
get_next_max_ptr(&mut self)
@@ fn ChunkPtrAllocator::get_next_max_ptr [C02,C05,C15]
    requires old(self).wf(), old(self).max() + 65536 <= u64::MAX,
    ensures final(self).wf(), r == old(self).max(), // [C15,C02]
        final(self).max() == old(self).max() + old(self).cs(), // [C15,C02]
        final(self).avail() == old(self).avail(), final(self).cs() == old(self).cs(), // [C05]
@@ hint ChunkPtrAllocator::get_next_max_ptr end
    proof { broadcast use axiom_memory_bound; assert(self.avail() =~= old(self).avail()); }
@@ fn ChunkPtrAllocator::get_ptr [C02,C05]
    requires (FIRST_PTR_IDX + index + 1) * 8 <= self.m().len(),
    ensures r == word(self.m(), 16 + index),
@@ hint ChunkPtrAllocator::get_ptr entry
    broadcast use axiom_memory_bound;
@@ sig ChunkPtrAllocator::set_ptr
set_ptr(&self,
=>
set_ptr(&mut self,
@@ fn ChunkPtrAllocator::set_ptr [C02,C05]
    requires index <= 0x800_0000_0000_0000,
    ensures final(self).v2_chunk_size == old(self).v2_chunk_size,
        final(self).m().len() >= old(self).m().len(), final(self).m().len() >= (16 + index) * 8 + 8,
        word(final(self).m(), 16 + index) == value,
        forall|k: int| 0 <= k && k != 16 + index && k * 8 + 8 <= old(self).m().len() ==> #[trigger] word(final(self).m(), k) == word(old(self).m(), k), // [C02]
        old(self).m().len() >= 4 ==> final(self).m().take(4) == old(self).m().take(4), // [C14]
@@ sig ChunkPtrAllocator::push_ptr
push_ptr(&self,
=>
push_ptr(&mut self,
@@ fn ChunkPtrAllocator::push_ptr [C02,C05]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).max() == old(self).max(), final(self).cs() == old(self).cs(),
        final(self).avail() == old(self).avail().push(chunk_ptr), // [C05,C02]
@@ hint ChunkPtrAllocator::push_ptr entry
    broadcast use axiom_memory_bound;
@@ hint ChunkPtrAllocator::push_ptr bodyend
    proof { assert(self.avail() =~= old(self).avail().push(chunk_ptr)); }
@@ sig ChunkPtrAllocator::pop_ptr
pop_ptr(&self)
=>
pop_ptr(&mut self)
@@ fn ChunkPtrAllocator::pop_ptr [C02,C05]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).max() == old(self).max(), final(self).cs() == old(self).cs(),
        old(self).avail().len() == 0 ==> r is None && final(self).avail() == old(self).avail(), // [C05]
        old(self).avail().len() > 0 ==> r == Some(old(self).avail().last()) && final(self).avail() == old(self).avail().drop_last(), // [C05,C02]
@@ hint ChunkPtrAllocator::pop_ptr entry
    broadcast use axiom_memory_bound;
@@ hint ChunkPtrAllocator::pop_ptr end
    proof { assert(self.avail() =~= old(self).avail().drop_last()); }
@@ rewrite ChunkPtrAllocator::set_chunk_size
!$a:post.iter().any(|$x:id| $e:any)
=>
!{ let mut found_ = false; let mut at_ = 0usize; while at_ < $a.len() { let $x = &$a[at_]; if $e { found_ = true; } at_ = at_ + 1; } found_ }
@@ loop ChunkPtrAllocator::set_chunk_size 1
    invariant
        0 <= at_ <= 5, *self == *old(self),
        size_at(0) == 4096 && size_at(1) == 8192 && size_at(2) == 16384 && size_at(3) == 32768 && size_at(4) == 65536,
        found_ <==> exists|j: int| 0 <= j < at_ && new_size == #[trigger] size_at(j),
    ensures found_ == valid_chunk_size(new_size as int),
    decreases 5 - at_,
@@ hint ChunkPtrAllocator::set_chunk_size loop1:end
    proof { assert(new_size == size_at(at_ - 1) <==> new_size == *size as usize); }
@@ hint ChunkPtrAllocator::set_chunk_size loop1:after
    proof { assert(size_at(0) == 4096 && size_at(1) == 8192 && size_at(2) == 16384 && size_at(3) == 32768 && size_at(4) == 65536); }
@@ hint ChunkPtrAllocator::set_chunk_size entry
    broadcast use axiom_memory_bound;
    proof { assert(size_at(0) == 4096 && size_at(1) == 8192 && size_at(2) == 16384 && size_at(3) == 32768 && size_at(4) == 65536); }
@@ fn ChunkPtrAllocator::set_chunk_size [C14,C15]
    requires old(self).base_wf(),
    ensures
        final(self).base_wf(),
        r is Ok <==> valid_chunk_size(new_size as int) && (old(self).stored() == new_size || old(self).max() == 0), // [C15]
        r is Ok ==> final(self).cs() == new_size && final(self).stored() == new_size && final(self).wf(), // [C15,C14]
        r is Err ==> *final(self) == *old(self), // [C15]
        final(self).max() == old(self).max() && final(self).avail() == old(self).avail(), // [C15,C05]
@@ hint ChunkPtrAllocator::set_chunk_size after "self.write_u64(CHUNK_SIZE_IDX, $a);"
    proof { assert(self.avail() =~= old(self).avail()); }
@@ fn ChunkPtrAllocator::chunk_size [C15]
    ensures r == self.v2_chunk_size, // [C15]
@@ fn ChunkPtrAllocator::allocate [C02,C05,C15]
    requires old(self).wf(), old(self).max() + 65536 <= u64::MAX,
    ensures final(self).wf(), final(self).cs() == old(self).cs(), // [C15]
        old(self).avail().len() > 0 ==> r == old(self).avail().last() && final(self).avail() == old(self).avail().drop_last()
            && final(self).max() == old(self).max(), // [C05,C02]
        old(self).avail().len() == 0 ==> r == old(self).max() && final(self).avail() == old(self).avail()
            && final(self).max() == old(self).max() + old(self).cs(), // [C05,C02,C15]
@@ fn ChunkPtrAllocator::free [C02,C05]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).max() == old(self).max(), final(self).cs() == old(self).cs(),
        final(self).avail() == old(self).avail().push(ptr), // [C05,C02]
