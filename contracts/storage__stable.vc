@@ prelude
use crate::storage::allocator::*;
use crate::storage::ptr_cache::*;
use crate::storage::chunk_iterator::*;
use crate::storage::metadata_provider::*;
use crate::ic_stable_structures::memory_manager::{axiom_memory_bound, managed};
use crate::runtime::structure_helpers::*;
use crate::ic_stable_structures::{stored_map, stored_cell, axiom_fresh_map};

pub open spec fn maxc() -> int { 4294967285 } // MAX_FILE_CHUNK_COUNT

/// byte `i` of node `n` in the chunks of the second kind
pub open spec fn byte2(p: Map<(u64, u32), u64>, b: Seq<u8>, cs: int, n: u64, i: int) -> u8 {
    if p.dom().contains((n, (i / cs) as u32)) { blk(b, p[(n, (i / cs) as u32)], i % cs) } else { 0 }
}
/// byte `i` of node `n` in the chunks of the first kind
pub open spec fn byte1(f: Map<(u64, u32), FileChunk>, n: u64, i: int) -> u8 {
    if f.dom().contains((n, (i / 4096) as u32)) { f[(n, (i / 4096) as u32)].bytes@[i % 4096] } else { 0 }
}
pub open spec fn byte(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, cs: int, n: u64, i: int) -> u8 {
    if p.dom().contains((n, (i / cs) as u32)) { byte2(p, b, cs, n, i) } else { byte1(f, n, i) }
}
/// every chunk belongs to a file that has a place for it, no file has chunks of both kinds, and what is beyond the size is zero
pub open spec fn chunks_ok(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, cs: int, meta: IMap<u64, Metadata>) -> bool {
    &&& forall|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.1 < maxc() ==> meta.dom().contains(k.0) && k.1 * cs < meta[k.0].size
            && meta[k.0].chunk_type != Some(ChunkType::V1)
    &&& forall|k: (u64, u32)| #[trigger] f.dom().contains(k) ==> k.1 < maxc() && meta.dom().contains(k.0) && k.1 * 4096 < meta[k.0].size
            && meta[k.0].chunk_type != Some(ChunkType::V2)
    &&& forall|k: (u64, u32), l: (u64, u32)| #[trigger] p.dom().contains(k) && k.1 < maxc() && #[trigger] f.dom().contains(l) ==> k.0 != l.0
    &&& forall|k: (u64, u32), x: int| p.dom().contains(k) && k.1 < maxc() && 0 <= x < cs && k.1 * cs + x >= meta[k.0].size ==> #[trigger] blk(b, p[k], x) == 0
    &&& forall|k: (u64, u32), x: int| f.dom().contains(k) && 0 <= x < 4096 && k.1 * 4096 + x >= meta[k.0].size ==> #[trigger] f[k].bytes@[x] == 0
}
/// the entries and the table of the names agree
pub open spec fn dir_ok(d: Map<(u64, u32), DirEntry>, l: Map<(u64, Seq<u8>), u32>) -> bool {
    &&& forall|k: (u64, u32)| #[trigger] d.dom().contains(k) ==> l.dom().contains((k.0, d[k].name.kv())) && l[(k.0, d[k].name.kv())] == k.1
    &&& forall|k: (u64, Seq<u8>)| #[trigger] l.dom().contains(k) ==> d.dom().contains((k.0, l[k])) && d[(k.0, l[k])].name.kv() == k.1
}
pub proof fn lemma_ix(i: int, cs: int)
    requires i >= 0, cs > 0,
    ensures i / cs >= 0, 0 <= i % cs < cs, i == (i / cs) * cs + i % cs,
{
    assert(i / cs >= 0 && 0 <= i % cs < cs && i == (i / cs) * cs + i % cs) by (nonlinear_arith) requires i >= 0, cs > 0;
}
pub proof fn lemma_ix_of(k: int, x: int, cs: int)
    requires k >= 0, cs > 0, 0 <= x < cs,
    ensures (k * cs + x) / cs == k, (k * cs + x) % cs == x,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k * cs + x, cs, k, x);
}
pub proof fn lemma_mono(a: int, b: int, cs: int)
    requires cs > 0,
    ensures a <= b ==> a * cs <= b * cs, a < b ==> a * cs + cs <= b * cs,
{
    assert(a <= b ==> a * cs <= b * cs) by (nonlinear_arith) requires cs > 0;
    assert(a < b ==> a * cs + cs <= b * cs) by (nonlinear_arith) requires cs > 0;
}
pub proof fn lemma_div_up(e: int, cs: int)
    requires e >= 0, cs > 0,
    ensures div_up(e, cs) >= 0, div_up(e, cs) * cs >= e, div_up(e, cs) * cs < e + cs,
{
    let m = e + cs - 1;
    lemma_ix(m, cs);
}
/// the chunks start..nxt of node `n` exist and the part of `buf` that goes to off..upto was written to them
#[verifier::opaque]
pub open spec fn v2_wrote(p: Map<(u64, u32), u64>, b: Seq<u8>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, cs: int, n: u64, nxt: int, off: int, upto: int, buf: Seq<u8>) -> bool {
    &&& b2.len() >= b.len()
    &&& forall|k: (u64, u32)| #[trigger] p.dom().contains(k) ==> p2.dom().contains(k) && p2[k] == p[k]
    &&& forall|k: (u64, u32)| #[trigger] p2.dom().contains(k) && !p.dom().contains(k) ==> k.0 == n && off / cs <= k.1 < nxt
    &&& forall|k: (u64, u32)| k.0 == n && off / cs <= k.1 < nxt ==> #[trigger] p2.dom().contains(k)
    &&& forall|k: (u64, u32), x: int| p2.dom().contains(k) && k.0 == n && k.1 < maxc() && 0 <= x < cs ==> #[trigger] blk(b2, p2[k], x) ==
            (if off <= k.1 * cs + x < upto { buf[k.1 * cs + x - off] } else if p.dom().contains(k) { blk(b, p[k], x) } else { 0 })
    &&& forall|k: (u64, u32), x: int| p.dom().contains(k) && (k.0 != n || k.1 >= maxc()) && 0 <= x < cs && p[k] + x < b.len() ==> #[trigger] blk(b2, p[k], x) == blk(b, p[k], x)
}
/// the first chunk after off..off+len
pub open spec fn nxt_of(off: int, len: int, cs: int) -> int { if len == 0 { off / cs } else { div_up(off + len, cs) } }
pub proof fn lemma_start(off: int, end: int, cs: int)
    requires 0 <= off <= end, cs > 0,
    ensures off / cs <= div_up(end, cs), off < end ==> off / cs < div_up(end, cs), end > 0 ==> end > (div_up(end, cs) - 1) * cs,
{
    lemma_ix(off, cs); lemma_div_up(end, cs);
    let s = off / cs; let l = div_up(end, cs);
    if l <= s { lemma_mono(l, s, cs); if l < s { assert(l * cs >= end); assert(l * cs + cs <= s * cs); assert(false); } }
    assert((l - 1) * cs == l * cs - cs) by (nonlinear_arith);
}
pub proof fn lemma_wrote_none(p: Map<(u64, u32), u64>, b: Seq<u8>, cs: int, n: u64, off: int, buf: Seq<u8>)
    ensures v2_wrote(p, b, p, b, cs, n, off / cs, off, off, buf),
{
    reveal(v2_wrote);
}
pub proof fn lemma_wrote_at(p: Map<(u64, u32), u64>, b: Seq<u8>, p1: Map<(u64, u32), u64>, b1: Seq<u8>, cs: int, n: u64, nxt: int, off: int, upto: int, buf: Seq<u8>, key: (u64, u32))
    requires v2_wrote(p, b, p1, b1, cs, n, nxt, off, upto, buf), key.1 >= nxt,
    ensures p1.dom().contains(key) <==> p.dom().contains(key), p.dom().contains(key) ==> p1[key] == p[key], b1.len() >= b.len(),
{
    reveal(v2_wrote);
}
pub proof fn lemma_div_up_max(e: int, cs: int)
    requires 0 <= e <= max_file_size(), valid_chunk_size(cs),
    ensures div_up(e, cs) <= maxc(),
{
    if cs == 4096 {} else if cs == 8192 {} else if cs == 16384 {} else if cs == 32768 {} else {}
}
/// one more chunk
pub proof fn lemma_wrote_step(p: Map<(u64, u32), u64>, b: Seq<u8>, p1: Map<(u64, u32), u64>, b1: Seq<u8>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, cs: int, n: u64, nxt: int, off: int, upto: int, upto2: int, buf: Seq<u8>, key: (u64, u32), co: int)
    requires
        cs > 0, off >= 0, off / cs <= nxt < maxc(), key == (n, nxt as u32), 0 <= co < cs, nxt * cs + co == upto, upto <= upto2, off <= upto,
        upto2 <= nxt * cs + cs, upto2 <= off + buf.len(), upto == off || nxt * cs == upto,
        nxt == off / cs || nxt * cs == upto, nxt == off / cs ==> upto == off,
        v2_wrote(p, b, p1, b1, cs, n, nxt, off, upto, buf), b2.len() >= b1.len(),
        p1.dom().contains(key) <==> p.dom().contains(key),
        p1.dom().contains(key) ==> p2 == p1, !p1.dom().contains(key) ==> p2 == p1.insert(key, p2[key]),
        forall|k: (u64, u32)| #[trigger] p1.dom().contains(k) ==> p1[k] < b1.len() && (k.1 < maxc() ==> p1[k] + cs <= b1.len()),
        kept(p1, b1, p2, b2, cs, key),
        forall|x: int| 0 <= x < cs ==> #[trigger] blk(b2, p2[key], x) ==
            (if co <= x < co + (upto2 - upto) { buf[nxt * cs + x - off] } else if p1.dom().contains(key) { blk(b1, p1[key], x) } else { 0 }),
    ensures v2_wrote(p, b, p2, b2, cs, n, nxt + 1, off, upto2, buf),
{
    reveal(v2_wrote);
    assert forall|k: (u64, u32), x: int| p2.dom().contains(k) && k.0 == n && k.1 < maxc() && 0 <= x < cs implies #[trigger] blk(b2, p2[k], x) ==
            (if off <= k.1 * cs + x < upto2 { buf[k.1 * cs + x - off] } else if p.dom().contains(k) { blk(b, p[k], x) } else { 0 }) by {
        lemma_mono(k.1 as int, nxt, cs);
        lemma_mono(nxt, k.1 as int, cs);
        if k == key {
            if p1.dom().contains(key) { assert(blk(b1, p1[key], x) == blk(b1, p1[key], x)); assert(p1[key] == p[key]); }
        } else {
            assert(p1.dom().contains(k) && p2[k] == p1[k]);
            assert(blk(b2, p1[k], x) == blk(b1, p1[k], x));
        }
    }
    assert forall|k: (u64, u32), x: int| p.dom().contains(k) && (k.0 != n || k.1 >= maxc()) && 0 <= x < cs && p[k] + x < b.len() implies #[trigger] blk(b2, p[k], x) == blk(b, p[k], x) by {
        assert(blk(b1, p[k], x) == blk(b, p[k], x));
        assert(p1.dom().contains(k) && k != key);
        assert(blk(b2, p1[k], x) == blk(b1, p1[k], x));
    }
    assert forall|k: (u64, u32)| k.0 == n && off / cs <= k.1 < nxt + 1 implies #[trigger] p2.dom().contains(k) by {
        if k.1 < nxt { assert(p1.dom().contains(k)); }
    }
}
pub proof fn lemma_no_blocks<M: Memory>(s: StableStorage<M>)
    requires s.wf(), s.v2_filechunk.v2_allocator.max() == 0,
    ensures s.p() =~= Map::<(u64, u32), u64>::empty(), s.v2_filechunk.v2_allocator.avail().len() == 0,
{
    let cs = s.cs();
    assert forall|k: (u64, u32)| !(#[trigger] s.p().dom().contains(k)) by { }
    let av = s.v2_filechunk.v2_allocator.avail();
    if av.len() > 0 { assert(av[0] + cs <= 0); }
}
/// the size of the blocks may change as long as there are none
pub proof fn lemma_resize_empty<M: Memory>(s: StableStorage<M>, t: StableStorage<M>)
    requires s.wf(), t.same_rest(&s), t.filechunk == s.filechunk, t.ptr_cache == s.ptr_cache,
        t.v2_filechunk.v2_chunk_ptr == s.v2_filechunk.v2_chunk_ptr, t.v2_filechunk.v2_chunks == s.v2_filechunk.v2_chunks,
        t.v2_filechunk.v2_allocator.wf(), t.v2_filechunk.v2_allocator.max() == s.v2_filechunk.v2_allocator.max(),
        t.v2_filechunk.v2_allocator.avail() == s.v2_filechunk.v2_allocator.avail(),
        t.cs() == s.cs() || s.v2_filechunk.v2_allocator.max() == 0,
    ensures t.wf(), t.fsv() == (FsView { chunk_size: t.cs(), ..s.fsv() }),
{
    let v = s.fsv(); let w = t.fsv();
    assert(w.meta =~= v.meta && w.mmeta =~= v.mmeta && w.mounts =~= v.mounts);
    if t.cs() != s.cs() {
        lemma_no_blocks(s);
        assert(t.p() =~= Map::<(u64, u32), u64>::empty());
        assert forall|n: u64| #[trigger] w.data.dom().contains(n) implies w.data[n] =~= v.data[n] by {}
    }
    assert(w.data =~= v.data);
}
/// the chunks of the first kind of node `n` are cut at `new`, and the rest of the last one is cleared
#[verifier::opaque]
pub open spec fn cut1(f: Map<(u64, u32), FileChunk>, f2: Map<(u64, u32), FileChunk>, n: u64, new: int) -> bool {
    &&& forall|k: (u64, u32)| #[trigger] f2.dom().contains(k) <==> f.dom().contains(k) && (k.0 != n || k.1 * 4096 < new)
    &&& forall|k: (u64, u32)| #[trigger] f2.dom().contains(k) && k.0 != n ==> f2[k] == f[k]
    &&& forall|k: (u64, u32), x: int| f2.dom().contains(k) && k.0 == n && 0 <= x < 4096 ==> #[trigger] f2[k].bytes@[x] == (if k.1 * 4096 + x < new { f[k].bytes@[x] } else { 0 })
}
/// the same for the chunks of the second kind
#[verifier::opaque]
pub open spec fn cut2(p: Map<(u64, u32), u64>, b: Seq<u8>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, cs: int, n: u64, new: int) -> bool {
    &&& forall|k: (u64, u32)| k.1 < maxc() ==> (#[trigger] p2.dom().contains(k) <==> p.dom().contains(k) && (k.0 != n || k.1 * cs < new))
    &&& forall|k: (u64, u32)| #[trigger] p2.dom().contains(k) && k.1 < maxc() ==> p2[k] == p[k]
    &&& forall|k: (u64, u32), x: int| p2.dom().contains(k) && k.1 < maxc() && 0 <= x < cs ==> #[trigger] blk(b2, p2[k], x) == (if k.0 != n || k.1 * cs + x < new { blk(b, p[k], x) } else { 0 })
}
/// the blocks that do not belong to the content stay as they are
#[verifier::opaque]
pub open spec fn meta_kept(p: Map<(u64, u32), u64>, b: Seq<u8>, p2: Map<(u64, u32), u64>, b2: Seq<u8>) -> bool {
    &&& forall|k: (u64, u32)| k.1 >= maxc() ==> (#[trigger] p2.dom().contains(k) <==> p.dom().contains(k))
    &&& forall|k: (u64, u32)| k.1 >= maxc() && #[trigger] p.dom().contains(k) ==> p2[k] == p[k] && meta_at(b2, p2[k]) == meta_at(b, p[k])
}
pub proof fn lemma_cut1(f: Map<(u64, u32), FileChunk>, f1: Map<(u64, u32), FileChunk>, f2: Map<(u64, u32), FileChunk>, n: u64, new: int)
    requires
        new >= 0,
        forall|k: (u64, u32)| #[trigger] f1.dom().contains(k) <==> f.dom().contains(k) && (k.0 != n || k.1 < div_up(new, 4096)),
        forall|k: (u64, u32)| #[trigger] f1.dom().contains(k) ==> f1[k] == f[k],
        ({
            let key = (n, (div_up(new, 4096) - 1) as u32);
            if new % 4096 > 0 && f1.dom().contains(key) { f2 == f1.insert(key, f2[key]) && f2[key].bytes@ == splice(f1[key].bytes@, new % 4096, zeros(4096 - new % 4096)) } else { f2 == f1 }
        }),
        div_up(new, 4096) <= maxc(),
    ensures cut1(f, f2, n, new),
{
    reveal(cut1);
    let d = div_up(new, 4096);
    lemma_div_up(new, 4096); lemma_ix(new, 4096);
    assert forall|k: (u64, u32), x: int| f2.dom().contains(k) && k.0 == n && 0 <= x < 4096 implies #[trigger] f2[k].bytes@[x] == (if k.1 * 4096 + x < new { f[k].bytes@[x] } else { 0 }) by {
        let key = (n, (d - 1) as u32);
        if k == key { } else { assert(k.1 < d - 1); }
    }
}
pub proof fn lemma_div_rem(new: int, cs: int)
    requires new >= 0, cs > 0,
    ensures
        new % cs == 0 ==> div_up(new, cs) == new / cs && div_up(new, cs) * cs == new,
        new % cs > 0 ==> div_up(new, cs) == new / cs + 1 && (div_up(new, cs) - 1) * cs == new - new % cs && div_up(new, cs) * cs == new - new % cs + cs,
        div_up(div_up(new, cs) * cs, cs) == div_up(new, cs),
{
    lemma_ix(new, cs); lemma_div_up(new, cs);
    let q = new / cs; let m = new % cs; let d = div_up(new, cs);
    lemma_mul_next(q, cs);
    if m == 0 { lemma_ix_of(q, cs - 1, cs); }
    else { lemma_ix_of(q + 1, m - 1, cs); }
    lemma_ix_of(d, cs - 1, cs);
}
pub proof fn lemma_cut2(p: Map<(u64, u32), u64>, b: Seq<u8>, p1: Map<(u64, u32), u64>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, cs: int, n: u64, new: int)
    requires
        new >= 0, cs >= 4096, div_up(new, cs) <= maxc(),
        forall|k: (u64, u32)| #[trigger] p1.dom().contains(k) <==> p.dom().contains(k) && (k.0 != n || k.1 >= maxc() || k.1 < div_up(new, cs)),
        forall|k: (u64, u32)| #[trigger] p1.dom().contains(k) ==> p1[k] == p[k],
        forall|k: (u64, u32)| #[trigger] p.dom().contains(k) ==> p[k] + 1024 <= b.len() && (k.1 < maxc() ==> p[k] + cs <= b.len()),
        ({
            let d = div_up(new, cs);
            let key = (n, (d - 1) as u32);
            if new % cs > 0 && p1.dom().contains(key) { v2_wrote(p1, b, p2, b2, cs, n, d, new, d * cs, zeros(d * cs - new)) } else { p2 == p1 && b2 == b }
        }),
    ensures cut2(p, b, p2, b2, cs, n, new), meta_kept(p, b, p2, b2),
{
    broadcast use axiom_metadata_size;
    reveal(cut2); reveal(meta_kept); reveal(v2_wrote);
    let d = div_up(new, cs);
    lemma_div_up(new, cs); lemma_ix(new, cs);
    let key = (n, (d - 1) as u32);
    lemma_div_rem(new, cs);
    if new % cs > 0 && p1.dom().contains(key) { assert(p2.dom() =~= p1.dom()); }
    assert forall|k: (u64, u32)| k.1 < maxc() implies (#[trigger] p2.dom().contains(k) <==> p.dom().contains(k) && (k.0 != n || k.1 * cs < new)) by {
        assert(p2.dom().contains(k) <==> p1.dom().contains(k));
        lemma_mono(k.1 as int, d - 1, cs); lemma_mono(k.1 as int, d, cs); lemma_mono(d, k.1 as int, cs);
    }
    assert forall|k: (u64, u32), x: int| p2.dom().contains(k) && k.1 < maxc() && 0 <= x < cs implies #[trigger] blk(b2, p2[k], x) == (if k.0 != n || k.1 * cs + x < new { blk(b, p[k], x) } else { 0 }) by {
        assert(p1.dom().contains(k));
        lemma_mono(k.1 as int + 1, d - 1, cs); lemma_mono(k.1 as int + 1, d, cs); lemma_mul_next(k.1 as int, cs);
        if k.0 == n {
            if new % cs > 0 && p1.dom().contains(key) { if k.1 < d - 1 { assert(k.1 * cs + x < new); } }
            else { assert(k != key || new % cs == 0); assert(k.1 * cs + x < new); }
        }
    }
    assert forall|k: (u64, u32)| k.1 >= maxc() && #[trigger] p.dom().contains(k) implies p2[k] == p[k] && meta_at(b2, p2[k]) == meta_at(b, p[k]) by {
        assert(p1.dom().contains(k));
        let m = meta_size();
        assert forall|x: int| 0 <= x < m implies #[trigger] b2.subrange(p[k] as int, p[k] + m)[x] == b.subrange(p[k] as int, p[k] + m)[x] by {
            if new % cs > 0 && p1.dom().contains(key) { assert(blk(b2, p1[k], x) == blk(b, p1[k], x)); }
        }
        assert(b2.subrange(p[k] as int, p[k] + m) =~= b.subrange(p[k] as int, p[k] + m));
    }
    assert forall|k: (u64, u32)| k.1 >= maxc() implies (#[trigger] p2.dom().contains(k) <==> p.dom().contains(k)) by {
        assert(p2.dom().contains(k) <==> p1.dom().contains(k));
    }
}
/// a position beyond every chunk
pub open spec fn no_limit() -> int { 4294967285int * 65536 + 65536 }
pub proof fn lemma_within(k: u32, x: int, cs: int)
    requires k < maxc(), 0 <= x < cs, valid_chunk_size(cs),
    ensures k * cs + x < no_limit(), k * cs < no_limit(),
{
    lemma_mono(k as int + 1, maxc(), cs); lemma_mul_next(k as int, cs);
    assert(maxc() * cs <= maxc() * 65536);
}
pub proof fn lemma_cut_none(f: Map<(u64, u32), FileChunk>, n: u64)
    requires keys1_ok(f),
    ensures cut1(f, f, n, no_limit()),
{
    reveal(cut1);
}
/// a record is written after the chunks were cut
pub proof fn lemma_cut_put(p0: Map<(u64, u32), u64>, b0: Seq<u8>, p: Map<(u64, u32), u64>, b: Seq<u8>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, cs: int, n: u64, lim: int, key: (u64, u32))
    requires cut2(p0, b0, p, b, cs, n, lim), kept(p, b, p2, b2, cs, key), key.1 >= maxc(), p2.dom() =~= p.dom().insert(key),
        forall|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.1 < maxc() ==> p[k] + cs <= b.len(),
    ensures cut2(p0, b0, p2, b2, cs, n, lim),
{
    reveal(cut2);
    assert forall|k: (u64, u32), x: int| p2.dom().contains(k) && k.1 < maxc() && 0 <= x < cs implies #[trigger] blk(b2, p2[k], x) == (if k.0 != n || k.1 * cs + x < lim { blk(b0, p0[k], x) } else { 0 }) by {
        assert(p.dom().contains(k) && k != key);
        assert(blk(b2, p[k], x) == blk(b, p[k], x));
        assert(p2[k] == p[k]);
    }
}
pub proof fn lemma_cut2_none(p: Map<(u64, u32), u64>, b: Seq<u8>, cs: int, n: u64)
    requires valid_chunk_size(cs),
    ensures cut2(p, b, p, b, cs, n, no_limit()), meta_kept(p, b, p, b),
{
    reveal(cut2); reveal(meta_kept);
    assert forall|k: (u64, u32)| k.1 < maxc() implies (#[trigger] p.dom().contains(k) <==> p.dom().contains(k) && (k.0 != n || k.1 * cs < no_limit())) by { lemma_within(k.1, 0, cs); }
    assert forall|k: (u64, u32), x: int| p.dom().contains(k) && k.1 < maxc() && 0 <= x < cs implies #[trigger] blk(b, p[k], x) == (if k.0 != n || k.1 * cs + x < no_limit() { blk(b, p[k], x) } else { 0 }) by { lemma_within(k.1, x, cs); }
}
/// the records are where they were
pub proof fn lemma_meta_kept<M: Memory>(mp: MetadataProvider<M>, p: Map<(u64, u32), u64>, b: Seq<u8>, p2: Map<(u64, u32), u64>, b2: Seq<u8>)
    requires meta_kept(p, b, p2, b2), mp.caches_ok(p, b),
    ensures mp.caches_ok(p2, b2),
        forall|m: bool, n: u64| #[trigger] mp.rec(p2, b2, m, n) == mp.rec(p, b, m, n),
{
    reveal(meta_kept);
    assert forall|m: bool, n: u64| #[trigger] mp.rec(p2, b2, m, n) == mp.rec(p, b, m, n) by {
        assert(p2.dom().contains((n, mi(m))) <==> p.dom().contains((n, mi(m))));
    }
    assert forall|n: u64| #[trigger] mp.meta_cache.meta@.dom().contains(n) implies meta_view(p2, b2, mp.metadata@, MI(), n) == Some(mp.meta_cache.meta@[n].0) && mp.meta_cache.meta@[n].1 == ptr_of(p2, (n, MI())) by {
        assert(mp.rec(p2, b2, false, n) == mp.rec(p, b, false, n));
        assert(p2.dom().contains((n, MI())) <==> p.dom().contains((n, MI())));
    }
    assert forall|n: u64| #[trigger] mp.mounted_meta_cache.meta@.dom().contains(n) implies meta_view(p2, b2, mp.mounted_meta@, MMI(), n) == Some(mp.mounted_meta_cache.meta@[n].0) && mp.mounted_meta_cache.meta@[n].1 == ptr_of(p2, (n, MMI())) by {
        assert(mp.rec(p2, b2, true, n) == mp.rec(p, b, true, n));
        assert(p2.dom().contains((n, MMI())) <==> p.dom().contains((n, MMI())));
    }
}
/// the record of node `n` becomes `m`: what happens to the parts of the store
pub open spec fn put_done<M: Memory>(s: StableStorage<M>, t: StableStorage<M>, n: u64, m: Metadata) -> bool {
    let old = s.metas(false);
    let lim = if old.dom().contains(n) && m.size < old[n].size { m.size as int } else { no_limit() };
    &&& t.header == s.header && t.direntry == s.direntry && t.direntry_lookup == s.direntry_lookup
    &&& t.active_mounts == s.active_mounts && t.chunk_type == s.chunk_type && t.cs() == s.cs()
    &&& if s.active_mounts@.dom().contains(n) {
        &&& t.f() == s.f()
        &&& cut2(s.p(), s.b(), t.p(), t.b(), s.cs(), n, no_limit())
        &&& t.metas(true) == s.metas(true).insert(n, m)
        &&& t.metas(false) == (if old.dom().contains(n) { old.insert(n, Metadata { link_count: m.link_count, ..old[n] }) } else { old })
    } else {
        &&& cut1(s.f(), t.f(), n, lim)
        &&& cut2(s.p(), s.b(), t.p(), t.b(), s.cs(), n, lim)
        &&& t.metas(true) == s.metas(true)
        &&& t.metas(false) == old.insert(n, m)
    }
}
pub open spec fn recs_ok<M: Memory>(s: StableStorage<M>) -> bool {
    forall|m: bool, n: u64| #[trigger] s.metas(m).dom().contains(n) ==> s.metas(m)[n].node == n
}
pub proof fn lemma_put<M: Memory>(s: StableStorage<M>, t: StableStorage<M>, n: u64, m: Metadata)
    requires s.wf(), t.base_wf(), put_done(s, t, n, m), !refused(s.fsv(), n, m), same_chunks(s.fsv(), n, m), n < s.fsv().next_node,
        active(s.fsv()).dom().contains(n) || m.node == n,
    ensures t.wf(), t.fsv() == with_meta(s.fsv(), n, m),
{
    let v = s.fsv(); let w = t.fsv(); let cs = s.cs();
    let x = with_meta(v, n, m);
    let mt = s.active_mounts@.dom().contains(n);
    let lim = if !mt && s.metas(false).dom().contains(n) && m.size < s.metas(false)[n].size { m.size as int } else { no_limit() };
    lemma_cut_none(s.f(), n);
    assert(w.mounts =~= v.mounts);
    assert(w.meta =~= x.meta); assert(w.mmeta =~= x.mmeta);
    lemma_cut_ok(s.p(), s.b(), s.f(), t.p(), t.b(), t.f(), cs, s.metas(false), t.metas(false), n, lim);
    assert(w.data =~= x.data) by {
        assert(w.data.dom() =~= x.data.dom());
        assert forall|q: u64| #[trigger] w.data.dom().contains(q) implies w.data[q] =~= x.data[q] by {
            assert forall|i: int| 0 <= i < w.data[q].len() implies w.data[q][i] == x.data[q][i] by {
                lemma_cut_byte(s.p(), s.b(), s.f(), t.p(), t.b(), t.f(), cs, n, lim, q, i);
                if q == n && !mt && !v.data.dom().contains(n) { lemma_no_byte(s.p(), s.b(), s.f(), cs, s.metas(false), n, i); }
                else if q == n && !mt && i >= v.meta[n].size { lemma_zero_byte(s.p(), s.b(), s.f(), cs, s.metas(false), n, i); }
            }
        }
    }
}
pub proof fn lemma_index(i: int, cs: int)
    requires 0 <= i < max_file_size(), valid_chunk_size(cs),
    ensures 0 <= i / cs < maxc(), 0 <= i / 4096 < maxc(), 0 <= i % cs < cs, 0 <= i % 4096 < 4096,
        (i / cs) * cs + i % cs == i, (i / 4096) * 4096 + i % 4096 == i,
{
    lemma_ix(i, cs); lemma_ix(i, 4096);
    if cs == 4096 {} else if cs == 8192 {} else if cs == 16384 {} else if cs == 32768 {} else {}
}
pub proof fn lemma_no_byte(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, cs: int, meta: IMap<u64, Metadata>, n: u64, i: int)
    requires chunks_ok(p, b, f, cs, meta), !meta.dom().contains(n), 0 <= i < max_file_size(), valid_chunk_size(cs),
    ensures byte(p, b, f, cs, n, i) == 0,
{
    lemma_index(i, cs);
    assert(!p.dom().contains((n, (i / cs) as u32)));
    assert(!f.dom().contains((n, (i / 4096) as u32)));
}
pub proof fn lemma_zero_byte(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, cs: int, meta: IMap<u64, Metadata>, n: u64, i: int)
    requires chunks_ok(p, b, f, cs, meta), meta.dom().contains(n), meta[n].size <= i < max_file_size(), valid_chunk_size(cs),
    ensures byte(p, b, f, cs, n, i) == 0,
{
    lemma_index(i, cs);
    let k = (n, (i / cs) as u32);
    let k1 = (n, (i / 4096) as u32);
    if p.dom().contains(k) { assert(blk(b, p[k], i % cs) == 0); }
    else if f.dom().contains(k1) { assert(f[k1].bytes@[i % 4096] == 0); }
}
pub proof fn lemma_cut_byte(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, f2: Map<(u64, u32), FileChunk>, cs: int, n: u64, lim: int, q: u64, i: int)
    requires cut1(f, f2, n, lim), cut2(p, b, p2, b2, cs, n, lim), 0 <= i < max_file_size(), valid_chunk_size(cs),
    ensures byte(p2, b2, f2, cs, q, i) == (if q == n && i >= lim { 0 } else { byte(p, b, f, cs, q, i) }),
{
    reveal(cut1); reveal(cut2);
    lemma_index(i, cs);
    let k = (q, (i / cs) as u32);
    let k1 = (q, (i / 4096) as u32);
    assert(p2.dom().contains(k) <==> p.dom().contains(k) && (q != n || k.1 * cs < lim));
    assert(f2.dom().contains(k1) <==> f.dom().contains(k1) && (q != n || k1.1 * 4096 < lim));
    if p2.dom().contains(k) { assert(blk(b2, p2[k], i % cs) == (if q != n || k.1 * cs + i % cs < lim { blk(b, p[k], i % cs) } else { 0 })); }
    if f2.dom().contains(k1) { assert(f2[k1].bytes@[i % 4096] == f2[k1].bytes@[i % 4096]); }
}
pub proof fn lemma_cut_ok(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, f2: Map<(u64, u32), FileChunk>, cs: int, meta: IMap<u64, Metadata>, meta2: IMap<u64, Metadata>, n: u64, lim: int)
    requires chunks_ok(p, b, f, cs, meta), cut1(f, f2, n, lim), cut2(p, b, p2, b2, cs, n, lim), valid_chunk_size(cs),
        forall|q: u64| #[trigger] meta.dom().contains(q) ==> meta2.dom().contains(q) && meta2[q].chunk_type == meta[q].chunk_type
            && (meta2[q].size >= meta[q].size || (q == n && lim <= meta2[q].size)),
    ensures chunks_ok(p2, b2, f2, cs, meta2),
{
    reveal(cut1); reveal(cut2);
    assert forall|k: (u64, u32)| #[trigger] p2.dom().contains(k) && k.1 < maxc() implies meta2.dom().contains(k.0) && k.1 * cs < meta2[k.0].size && meta2[k.0].chunk_type != Some(ChunkType::V1) by {
        assert(p.dom().contains(k) && meta.dom().contains(k.0));
    }
    assert forall|k: (u64, u32)| #[trigger] f2.dom().contains(k) implies k.1 < maxc() && meta2.dom().contains(k.0) && k.1 * 4096 < meta2[k.0].size && meta2[k.0].chunk_type != Some(ChunkType::V2) by {
        assert(f.dom().contains(k) && meta.dom().contains(k.0));
    }
    assert forall|k: (u64, u32), l: (u64, u32)| #[trigger] p2.dom().contains(k) && k.1 < maxc() && #[trigger] f2.dom().contains(l) implies k.0 != l.0 by {
        assert(p.dom().contains(k) && f.dom().contains(l));
    }
    assert forall|k: (u64, u32), x: int| p2.dom().contains(k) && k.1 < maxc() && 0 <= x < cs && k.1 * cs + x >= meta2[k.0].size implies #[trigger] blk(b2, p2[k], x) == 0 by {
        assert(p.dom().contains(k) && meta.dom().contains(k.0));
        assert(blk(b, p[k], x) == blk(b, p[k], x));
    }
    assert forall|k: (u64, u32), x: int| f2.dom().contains(k) && 0 <= x < 4096 && k.1 * 4096 + x >= meta2[k.0].size implies #[trigger] f2[k].bytes@[x] == 0 by {
        assert(f.dom().contains(k) && meta.dom().contains(k.0));
        assert(f[k].bytes@[x] == f[k].bytes@[x]);
    }
}
/// the state after the memory mounted on `n` was written to
pub open spec fn remounted<M: Memory>(s: StableStorage<M>, t: StableStorage<M>, n: u64) -> bool {
    &&& t.header == s.header && t.direntry == s.direntry && t.direntry_lookup == s.direntry_lookup && t.filechunk == s.filechunk
    &&& t.v2_filechunk == s.v2_filechunk && t.meta_provider == s.meta_provider && t.ptr_cache == s.ptr_cache && t.chunk_type == s.chunk_type
    &&& s.active_mounts@.dom().contains(n)
    &&& t.active_mounts@ == s.active_mounts@.insert(n, t.active_mounts@[n])
}
pub proof fn lemma_remounted<M: Memory>(s: StableStorage<M>, t: StableStorage<M>, n: u64)
    requires remounted(s, t, n),
    ensures s.wf() ==> t.wf(), s.base_wf() ==> t.base_wf(), t.fsv() == (FsView { mounts: s.fsv().mounts.insert(n, t.active_mounts@[n].mem()), ..s.fsv() }),
{
    assert(t.fsv().mounts =~= s.fsv().mounts.insert(n, t.active_mounts@[n].mem()));
    assert(t.fsv().meta =~= s.fsv().meta && t.fsv().mmeta =~= s.fsv().mmeta && t.fsv().data =~= s.fsv().data);
    assert(t.metas(false) =~= s.metas(false));
    if s.wf() { assert(s.fsv().mounts.dom().contains(n)); assert(sane(t.fsv())); assert(t.wf()); }
}
/// the mounts differ only in their representation
pub proof fn lemma_unmounted<M: Memory>(s: StableStorage<M>, t: StableStorage<M>)
    requires s.wf(), t.header == s.header, t.direntry == s.direntry, t.direntry_lookup == s.direntry_lookup, t.filechunk == s.filechunk,
        t.v2_filechunk == s.v2_filechunk, t.meta_provider == s.meta_provider, t.ptr_cache == s.ptr_cache, t.chunk_type == s.chunk_type,
        t.active_mounts@ == s.active_mounts@,
    ensures t.wf(), t.fsv() == s.fsv(),
{
    assert(t.metas(false) =~= s.metas(false)); assert(t.metas(true) =~= s.metas(true));
    assert(t.fsv().mounts =~= s.fsv().mounts); assert(t.fsv().data =~= s.fsv().data);
}
/// a memory is mounted: it was put in place, then the record was written
pub proof fn lemma_mounted<M: Memory>(s: StableStorage<M>, s1: StableStorage<M>, t: StableStorage<M>, n: u64, m: Metadata)
    requires s.wf(), !s.active_mounts@.dom().contains(n), s.metas(false).dom().contains(n),
        s1.header == s.header, s1.direntry == s.direntry, s1.direntry_lookup == s.direntry_lookup, s1.filechunk == s.filechunk,
        s1.v2_filechunk == s.v2_filechunk, s1.meta_provider == s.meta_provider, s1.ptr_cache == s.ptr_cache, s1.chunk_type == s.chunk_type,
        s1.active_mounts@ == s.active_mounts@.insert(n, s1.active_mounts@[n]),
        t.base_wf(), put_done(s1, t, n, m), m.node == n, m.size <= max_size_of(m), m.chunk_type == s.metas(false)[n].chunk_type,
        m.file_type == s.metas(false)[n].file_type, m.link_count == s.metas(false)[n].link_count,
    ensures t.wf(), t.fsv() == (FsView { mounts: s.fsv().mounts.insert(n, s1.active_mounts@[n].mem()), mmeta: s.fsv().mmeta.insert(n, m), ..s.fsv() }),
{
    let v = s.fsv(); let w = t.fsv(); let cs = s.cs();
    assert(s1.metas(false) =~= s.metas(false)); assert(s1.metas(true) =~= s.metas(true));
    lemma_cut_none(s.f(), n);
    assert(t.metas(false) =~= s.metas(false));
    assert(w.mounts =~= v.mounts.insert(n, s1.active_mounts@[n].mem()));
    lemma_cut_ok(s.p(), s.b(), s.f(), t.p(), t.b(), t.f(), cs, s.metas(false), t.metas(false), n, no_limit());
    assert(w.data =~= v.data) by {
        assert forall|q: u64| #[trigger] w.data.dom().contains(q) implies w.data[q] =~= v.data[q] by {
            assert forall|i: int| 0 <= i < w.data[q].len() implies w.data[q][i] == v.data[q][i] by {
                lemma_cut_byte(s.p(), s.b(), s.f(), t.p(), t.b(), t.f(), cs, n, no_limit(), q, i);
            }
        }
    }
}
/// the first `k` bytes of `mem` were written to node `n`
pub open spec fn stored_part(v: FsView, n: u64, k: int, mem: Seq<u8>) -> FsView {
    FsView {
        meta: v.meta.insert(n, wrote_meta(v.meta[n], 0, k)),
        data: v.data.insert(n, written(v.data[n], 0, mem.subrange(0, k))),
        ..v }
}
pub open spec fn entries_of(all: Seq<((u64, u32), DirEntry)>, pos: int) -> Seq<(u32, DirEntry)> { Seq::new(pos as nat, |i: int| (all[i].0.1, all[i].1)) }
pub open spec fn from_of(initial: Option<u32>) -> u32 { if initial is None || initial->0 == 4294967290 || initial->0 == 4294967291 { 0 } else { initial->0 } }
pub open spec fn is_specials(pre: Seq<(u32, DirEntry)>, node: u64, initial: Option<u32>) -> bool {
    let dot = initial is None || initial->0 == 4294967290;
    let dotdot = dot || initial->0 == 4294967291;
    let k: int = if dot { 2 } else if dotdot { 1 } else { 0 };
    &&& pre.len() == k
    &&& dot ==> is_dot(pre[0], node)
    &&& dotdot ==> is_dot_dot(pre[k - 1])
}
pub proof fn lemma_listing(pre: Seq<(u32, DirEntry)>, all: Seq<((u64, u32), DirEntry)>, pos: int, es: Map<(u64, u32), DirEntry>, node: u64, initial: Option<u32>, from: u32, max: u32)
    requires is_specials(pre, node, initial), is_range(all, es, (node, from), (node, max)), 0 <= pos <= all.len(), from == from_of(initial), max == 4294967285,
    ensures is_listing_prefix(pre + entries_of(all, pos), es, node, initial),
        pos == all.len() ==> is_listing(pre + entries_of(all, pos), es, node, initial),
{
    let s = pre + entries_of(all, pos); let t = entries_of(all, pos);
    assert(s.skip(pre.len() as int) =~= t);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 < (#[trigger] t[j]).0 by {
        assert(key_lt(all[i].0, all[j].0)); assert(all[i].0.0 == node && all[j].0.0 == node);
    }
    assert forall|k: u32, j: int| #[trigger] es.dom().contains((node, k)) && k >= from && 0 <= j < t.len() && k <= (#[trigger] t[j]).0 implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k by {
        let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == (node, k);
        if i >= pos { assert(key_lt(all[j].0, all[i].0)); assert(all[j].0.0 == node); }
        assert(t[i].0 == k);
    }
    if pos == all.len() {
        assert forall|k: u32| #[trigger] es.dom().contains((node, k)) && k >= from && k < 4294967285 implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k by {
            let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == (node, k);
            assert(t[i].0 == k);
        }
    }
}
/// the memories hold the parts of the store `s`
pub open spec fn holds_store<M: Memory>(ms: StorageMemories<M>, s: StableStorage<M>) -> bool {
    &&& ms.header_memory.mem().len() > 0 && stored_cell::<Header, M>(ms.header_memory) == s.header@
    &&& stored_map::<u64, Metadata, M>(ms.metadata_memory) == s.meta_provider.metadata@
    &&& stored_map::<u64, Metadata, M>(ms.mounted_meta_memory) == s.meta_provider.mounted_meta@
    &&& stored_map::<(u64, u32), DirEntry, M>(ms.direntry_memory) == s.direntry@
    &&& stored_map::<(u64, FileName), u32, M>(ms.direntry_lookup_memory) == s.direntry_lookup@
    &&& stored_map::<(u64, u32), FileChunk, M>(ms.filechunk_memory) == s.filechunk@
    &&& stored_map::<(u64, u32), u64, M>(ms.v2_chunk_ptr_memory) == s.v2_filechunk.v2_chunk_ptr@
    &&& ms.v2_chunks_memory.mem() == s.v2_filechunk.v2_chunks.mem()
    &&& ms.v2_allocator_memory.mem() == s.v2_filechunk.v2_allocator.m()
}
/// nothing was ever stored
pub open spec fn fresh<M: Memory>(ms: StorageMemories<M>) -> bool {
    &&& ms.header_memory.mem().len() == 0 && ms.metadata_memory.mem().len() == 0 && ms.mounted_meta_memory.mem().len() == 0
    &&& ms.direntry_memory.mem().len() == 0 && ms.direntry_lookup_memory.mem().len() == 0 && ms.filechunk_memory.mem().len() == 0
    &&& ms.v2_chunk_ptr_memory.mem().len() == 0 && ms.v2_chunks_memory.mem().len() == 0 && ms.v2_allocator_memory.mem().len() == 0
}
/// the memories at the indices `first`.. of the memory manager: the place of each part in the stable memory
pub open spec fn memories_at<M: Memory>(mm: MemoryManager<M>, first: int) -> StorageMemories<M> {
    StorageMemories {
        header_memory: mm.nth((first + 0) as u8), metadata_memory: mm.nth((first + 1) as u8), direntry_memory: mm.nth((first + 2) as u8),
        filechunk_memory: mm.nth((first + 3) as u8), mounted_meta_memory: mm.nth((first + 4) as u8), v2_chunk_ptr_memory: mm.nth((first + 5) as u8),
        v2_allocator_memory: mm.nth((first + 6) as u8), v2_chunks_memory: mm.nth((first + 7) as u8), cache_journal: mm.nth((first + 8) as u8),
        direntry_lookup_memory: mm.nth((first + 9) as u8),
    }
}
/// nothing was ever stored, or a store was (by a version that has no use for the journal)
pub open spec fn can_open<M: Memory>(ms: StorageMemories<M>) -> bool {
    ms.cache_journal.mem().len() == 0 && (fresh(ms) || exists|s: StableStorage<M>| s.wf() && #[trigger] holds_store(ms, s))
}
/// `r` is what the memories hold
pub open spec fn opens<M: Memory>(ms: StorageMemories<M>, r: StableStorage<M>) -> bool {
    &&& r.wf()
    &&& forall|s: StableStorage<M>| s.wf() && #[trigger] holds_store(ms, s) ==> r.fsv() == (FsView { mounts: IMap::empty(), chunk_type: r.fsv().chunk_type, ..s.fsv() })
    &&& fresh(ms) ==> r.fsv().next_node == 1 && empty_view(r.fsv())
}
/// a store that only has its (empty) root
pub open spec fn empty_view(v: FsView) -> bool {
    &&& v.meta == IMap::<u64, Metadata>::empty().insert(0, root_meta())
    &&& v.mmeta == IMap::<u64, Metadata>::empty().insert(0, root_meta())
    &&& v.data == IMap::<u64, Seq<u8>>::empty().insert(0, Seq::empty())
    &&& v.entries == Map::<(u64, u32), DirEntry>::empty()
    &&& v.mounts == IMap::<u64, Seq<u8>>::empty()
}
pub proof fn lemma_openable<M: Memory>(ms: StorageMemories<M>)
    requires fresh(ms) || exists|s: StableStorage<M>| s.wf() && #[trigger] holds_store(ms, s),
    ensures openable(ms.v2_allocator_memory.mem()),
{
    if !fresh(ms) { let s = choose|s: StableStorage<M>| s.wf() && #[trigger] holds_store(ms, s); }
}
/// `r` was just opened on the memories
pub open spec fn just_opened<M: Memory>(ms: StorageMemories<M>, r: StableStorage<M>) -> bool {
    let a = r.v2_filechunk.v2_allocator; let am = ms.v2_allocator_memory.mem();
    &&& r.header@ == (if ms.header_memory.mem().len() == 0 { Header { version: 1, next_node: 1 } } else { stored_cell::<Header, M>(ms.header_memory) })
    &&& stored_map::<u64, Metadata, M>(ms.metadata_memory) == r.meta_provider.metadata@
    &&& stored_map::<u64, Metadata, M>(ms.mounted_meta_memory) == r.meta_provider.mounted_meta@
    &&& stored_map::<(u64, u32), DirEntry, M>(ms.direntry_memory) == r.direntry@
    &&& stored_map::<(u64, FileName), u32, M>(ms.direntry_lookup_memory) == r.direntry_lookup@
    &&& stored_map::<(u64, u32), FileChunk, M>(ms.filechunk_memory) == r.filechunk@
    &&& stored_map::<(u64, u32), u64, M>(ms.v2_chunk_ptr_memory) == r.v2_filechunk.v2_chunk_ptr@
    &&& ms.v2_chunks_memory == r.v2_filechunk.v2_chunks
    &&& a.wf()
    &&& am.len() > 0 && word(am, 1) != 0 ==> a.cs() == word(am, 1)
    &&& am.len() > 0 ==> a.max() == word(am, 3) && a.avail() == Seq::new(list_len(am) as nat, |i: int| word(am, 16 + i))
    &&& am.len() == 0 ==> a.max() == 0 && a.avail() == Seq::<u64>::empty()
    &&& r.active_mounts@ == Map::<u64, Box<dyn Memory>>::empty()
    &&& r.ptr_cache.pointers@ == Map::<(u64, u32), CachedChunkPtr>::empty()
    &&& forall|p: Map<(u64, u32), u64>, mem: Seq<u8>| #[trigger] r.meta_provider.caches_ok(p, mem)
}
pub proof fn lemma_opened<M: Memory>(ms: StorageMemories<M>, r: StableStorage<M>)
    requires fresh(ms) || exists|s: StableStorage<M>| s.wf() && #[trigger] holds_store(ms, s), just_opened(ms, r),
    ensures r.wf(),
        forall|s: StableStorage<M>| s.wf() && #[trigger] holds_store(ms, s) ==> r.fsv() == (FsView { mounts: IMap::empty(), chunk_type: r.fsv().chunk_type, ..s.fsv() }),
        fresh(ms) ==> r.fsv().next_node == 1 && empty_view(r.fsv()),
{
    broadcast use axiom_fresh_map;
    let w = r.fsv();
    assert(w.mounts =~= IMap::<u64, Seq<u8>>::empty());
    assert forall|s: StableStorage<M>| s.wf() && #[trigger] holds_store(ms, s) implies r.fsv() == (FsView { mounts: IMap::empty(), chunk_type: r.fsv().chunk_type, ..s.fsv() }) && r.wf() by {
        let v = s.fsv();
        assert(r.v2_filechunk.v2_allocator.avail() =~= s.v2_filechunk.v2_allocator.avail());
        assert(r.cs() == s.cs());
        assert(w.meta =~= v.meta); assert(w.mmeta =~= v.mmeta); assert(r.metas(false) =~= s.metas(false)); assert(w.data =~= v.data);
    }
    if fresh(ms) {
        assert(r.p() =~= Map::<(u64, u32), u64>::empty()); assert(r.f() =~= Map::<(u64, u32), FileChunk>::empty());
        assert(r.meta_provider.metadata@ == Map::<u64, Metadata>::empty()); assert(r.meta_provider.mounted_meta@ == Map::<u64, Metadata>::empty());
        let e = IMap::<u64, Metadata>::empty().insert(0, root_meta());
        assert(w.meta =~= e); assert(w.mmeta =~= e);
        assert(w.data =~= IMap::<u64, Seq<u8>>::empty().insert(0, Seq::empty())) by {
            assert(w.data.dom() =~= IMap::<u64, Seq<u8>>::empty().insert(0, Seq::empty()).dom());
            assert(w.data[0] =~= Seq::<u8>::empty());
        }
        assert(r.wf());
    }
}
/// a node without chunks of the second kind is read from the chunks of the first kind, and the other way round
pub proof fn lemma_kind<M: Memory>(s: StableStorage<M>, n: u64, v2: bool, i: int)
    requires s.wf(), s.metas(false).dom().contains(n), 0 <= i < s.metas(false)[n].size,
        s.metas(false)[n].chunk_type == Some(ChunkType::V2) ==> v2,
        s.metas(false)[n].chunk_type == Some(ChunkType::V1) ==> !v2,
        s.metas(false)[n].chunk_type is None && s.metas(false)[n].size > 0 ==> (v2 <==> has_v2(s.p(), n)),
    ensures s.fsv().data[n][i] == (if v2 { byte2(s.p(), s.b(), s.cs(), n, i) } else { byte1(s.f(), n, i) }),
{
    let cs = s.cs();
    lemma_index(i, cs);
    let k = (n, (i / cs) as u32);
    let k1 = (n, (i / 4096) as u32);
    assert(s.metas(false)[n].size > 0);
    if v2 {
        if s.f().dom().contains(k1) {
            match s.metas(false)[n].chunk_type { Some(ChunkType::V2) => {}, Some(ChunkType::V1) => {}, None => { let l = choose|l: (u64, u32)| #[trigger] s.p().dom().contains(l) && l.0 == n && l.1 < maxc(); assert(l.0 != k1.0); } }
            assert(false);
        }
    } else {
        if s.p().dom().contains(k) {
            match s.metas(false)[n].chunk_type { Some(ChunkType::V2) => {}, Some(ChunkType::V1) => {}, None => { assert(has_v2(s.p(), n)); } }
            assert(false);
        }
    }
}
pub proof fn lemma_removed<M: Memory>(s: StableStorage<M>, t: StableStorage<M>, n: u64)
    requires
        s.wf(), n != 0, s.metas(false).dom().contains(n), !s.active_mounts@.dom().contains(n),
        t.header == s.header && t.direntry == s.direntry && t.direntry_lookup == s.direntry_lookup && t.active_mounts == s.active_mounts && t.chunk_type == s.chunk_type,
        t.v2_filechunk.v2_allocator.wf(), blocks_ok(t.p(), t.v2_filechunk.v2_allocator.avail(), t.v2_filechunk.v2_allocator.max(), t.cs()),
        t.cs() == s.cs(), t.v2_filechunk.v2_allocator.max() == s.v2_filechunk.v2_allocator.max(), t.b() == s.b(),
        without(s.p(), t.p(), n), without(s.f(), t.f(), n),
        t.ptr_cache.pointers@ == Map::<(u64, u32), CachedChunkPtr>::empty(),
        t.meta_provider.metadata@ == s.meta_provider.metadata@.remove(n), t.meta_provider.mounted_meta@ == s.meta_provider.mounted_meta@.remove(n),
        t.meta_provider.meta_cache.meta@ == s.meta_provider.meta_cache.meta@.remove(n),
        t.meta_provider.mounted_meta_cache.meta@ == s.meta_provider.mounted_meta_cache.meta@.remove(n),
    ensures t.wf(),
        t.fsv() == (FsView { meta: s.fsv().meta.remove(n), mmeta: s.fsv().mmeta.remove(n), data: s.fsv().data.remove(n), ..s.fsv() }),
{
    assert forall|q: u64, m: bool| q != n implies #[trigger] t.meta_provider.rec(t.p(), t.b(), m, q) == s.meta_provider.rec(s.p(), s.b(), m, q) by {
        assert(t.p().dom().contains((q, mi(m))) <==> s.p().dom().contains((q, mi(m))));
    }
    assert forall|m: bool| #[trigger] t.meta_provider.rec(t.p(), t.b(), m, n) is None by {
        assert(!t.p().dom().contains((n, mi(m))));
    }
    let v = s.fsv(); let w = t.fsv();
    assert(w.meta =~= v.meta.remove(n));
    assert(w.mmeta =~= v.mmeta.remove(n));
    assert(w.mounts =~= v.mounts);
    assert(w.data =~= v.data.remove(n)) by {
        assert(w.data.dom() =~= v.data.remove(n).dom());
        assert forall|q: u64| #[trigger] w.data.dom().contains(q) implies w.data[q] =~= v.data.remove(n)[q] by {
            assert forall|i: int| 0 <= i < w.data[q].len() implies w.data[q][i] == v.data[q][i] by {
                lemma_index(i, s.cs());
                let k = (q, (i / s.cs()) as u32);
                let k1 = (q, (i / 4096) as u32);
                assert(t.p().dom().contains(k) <==> s.p().dom().contains(k));
                assert(t.f().dom().contains(k1) <==> s.f().dom().contains(k1));
            }
        }
    }
    assert(t.meta_provider.caches_ok(t.p(), t.b())) by {
        let mp = t.meta_provider;
        assert forall|q: u64| #[trigger] mp.meta_cache.meta@.dom().contains(q) implies meta_view(t.p(), t.b(), mp.metadata@, MI(), q) == Some(mp.meta_cache.meta@[q].0) && mp.meta_cache.meta@[q].1 == ptr_of(t.p(), (q, MI())) by {
            assert(mp.rec(t.p(), t.b(), false, q) == s.meta_provider.rec(s.p(), s.b(), false, q));
            assert(t.p().dom().contains((q, MI())) <==> s.p().dom().contains((q, MI())));
        }
        assert forall|q: u64| #[trigger] mp.mounted_meta_cache.meta@.dom().contains(q) implies meta_view(t.p(), t.b(), mp.mounted_meta@, MMI(), q) == Some(mp.mounted_meta_cache.meta@[q].0) && mp.mounted_meta_cache.meta@[q].1 == ptr_of(t.p(), (q, MMI())) by {
            assert(mp.rec(t.p(), t.b(), true, q) == s.meta_provider.rec(s.p(), s.b(), true, q));
            assert(t.p().dom().contains((q, MMI())) <==> s.p().dom().contains((q, MMI())));
        }
    }
    assert(chunks_ok(t.p(), t.b(), t.f(), t.cs(), t.metas(false))) by {
        assert forall|k: (u64, u32), x: int| t.p().dom().contains(k) && k.1 < maxc() && 0 <= x < s.cs() && k.1 * s.cs() + x >= t.metas(false)[k.0].size implies #[trigger] blk(t.b(), t.p()[k], x) == 0 by {
            assert(blk(s.b(), s.p()[k], x) == 0);
        }
    }
}
/// the part of `buf` that goes to off..upto of node `n` is in the chunks of the first kind
#[verifier::opaque]
pub open spec fn v1_wrote(f: Map<(u64, u32), FileChunk>, f2: Map<(u64, u32), FileChunk>, n: u64, off: int, upto: int, buf: Seq<u8>) -> bool {
    &&& forall|k: (u64, u32)| #[trigger] f.dom().contains(k) ==> f2.dom().contains(k)
    &&& forall|k: (u64, u32)| #[trigger] f2.dom().contains(k) && !f.dom().contains(k) ==> k.0 == n && k.1 * 4096 < upto && k.1 < maxc()
    &&& forall|i: int| off <= i < upto ==> f2.dom().contains((n, #[trigger] ix1(i)))
    &&& forall|k: (u64, u32)| #[trigger] f.dom().contains(k) && k.0 != n ==> f2[k] == f[k]
    &&& forall|k: (u64, u32), x: int| f2.dom().contains(k) && k.0 == n && 0 <= x < 4096 ==> #[trigger] f2[k].bytes@[x] ==
            (if off <= k.1 * 4096 + x < upto { buf[k.1 * 4096 + x - off] } else if f.dom().contains(k) { f[k].bytes@[x] } else { 0 })
}
pub open spec fn ix1(i: int) -> u32 { (i / 4096) as u32 }
pub proof fn lemma_v1_none(f: Map<(u64, u32), FileChunk>, n: u64, off: int, buf: Seq<u8>)
    ensures v1_wrote(f, f, n, off, off, buf),
{
    reveal(v1_wrote);
}
pub proof fn lemma_v1_step(f: Map<(u64, u32), FileChunk>, f1: Map<(u64, u32), FileChunk>, f2: Map<(u64, u32), FileChunk>, n: u64, off: int, upto: int, buf: Seq<u8>, index: u32, co: int, len: int)
    requires v1_wrote(f, f1, n, off, upto, buf), 0 <= off <= upto, index < maxc(), 0 <= co, 0 < len, co + len <= 4096, index * 4096 + co == upto, upto + len <= off + buf.len(),
        f2 == f1.insert((n, index), f2[(n, index)]),
        f2[(n, index)].bytes@ == splice(if f1.dom().contains((n, index)) { f1[(n, index)].bytes@ } else { zeros(4096) }, co, buf.subrange(upto - off, upto - off + len)),
    ensures v1_wrote(f, f2, n, off, upto + len, buf),
{
    reveal(v1_wrote);
    let key = (n, index);
    assert forall|k: (u64, u32), x: int| f2.dom().contains(k) && k.0 == n && 0 <= x < 4096 implies #[trigger] f2[k].bytes@[x] ==
            (if off <= k.1 * 4096 + x < upto + len { buf[k.1 * 4096 + x - off] } else if f.dom().contains(k) { f[k].bytes@[x] } else { 0 }) by {
        if k == key {
            if f1.dom().contains(key) { assert(f1[key].bytes@[x] == f1[key].bytes@[x]); }
            else { assert(!f.dom().contains(key)); if off <= k.1 * 4096 + x < upto { assert(ix1(k.1 * 4096 + x) == k.1); assert(f1.dom().contains((n, ix1(k.1 * 4096 + x)))); } }
        } else {
            assert(f1.dom().contains(k));
            assert(f1[k].bytes@[x] == f1[k].bytes@[x]);
            if upto <= k.1 * 4096 + x < upto + len { assert(k.1 == index); }
        }
    }
    assert forall|i: int| off <= i < upto + len implies f2.dom().contains((n, #[trigger] ix1(i))) by {
        if i < upto { assert(f1.dom().contains((n, ix1(i)))); } else { assert(ix1(i) == index); }
    }
    assert forall|k: (u64, u32)| #[trigger] f2.dom().contains(k) && !f.dom().contains(k) implies k.0 == n && k.1 * 4096 < upto + len && k.1 < maxc() by {
        if k != key { assert(f1.dom().contains(k)); }
    }
}
/// node `n` keeps its content in the chunks of the second kind (or: of the first kind)
pub open spec fn kind_is(s_p: Map<(u64, u32), u64>, m: Metadata, n: u64, v2: bool) -> bool {
    &&& m.chunk_type == Some(ChunkType::V2) ==> v2
    &&& m.chunk_type == Some(ChunkType::V1) ==> !v2
    &&& m.chunk_type is None && m.size > 0 ==> (v2 <==> has_v2(s_p, n))
}
pub proof fn lemma_no_kind(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, cs: int, meta: IMap<u64, Metadata>, n: u64, v2: bool)
    requires chunks_ok(p, b, f, cs, meta), cs > 0, meta.dom().contains(n), kind_is(p, meta[n], n, v2),
    ensures v2 ==> forall|l: (u64, u32)| #[trigger] f.dom().contains(l) ==> l.0 != n,
        !v2 ==> forall|l: (u64, u32)| #[trigger] p.dom().contains(l) && l.1 < maxc() ==> l.0 != n,
        v2 ==> meta[n].chunk_type != Some(ChunkType::V1), !v2 ==> meta[n].chunk_type != Some(ChunkType::V2),
{
    if v2 {
        assert forall|l: (u64, u32)| #[trigger] f.dom().contains(l) implies l.0 != n by {
            if l.0 == n { match meta[n].chunk_type { Some(ChunkType::V2) => {}, Some(ChunkType::V1) => {}, None => { let k = choose|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.0 == n && k.1 < maxc(); assert(l.0 != k.0); } } assert(false); }
        }
    } else {
        assert forall|l: (u64, u32)| #[trigger] p.dom().contains(l) && l.1 < maxc() implies l.0 != n by {
            if l.0 == n { match meta[n].chunk_type { Some(ChunkType::V2) => {}, Some(ChunkType::V1) => {}, None => { assert(l.1 * cs >= 0) by (nonlinear_arith) requires cs > 0; assert(has_v2(p, n)); } } assert(false); }
        }
    }
}
pub proof fn lemma_ix_between(off: int, i: int, end: int, cs: int)
    requires 0 <= off <= i < end, cs > 0,
    ensures off / cs <= i / cs < div_up(end, cs),
{
    lemma_ix(off, cs); lemma_ix(i, cs); lemma_div_up(end, cs);
    lemma_mono(i / cs + 1, off / cs, cs); lemma_mul_next(i / cs, cs);
    lemma_mono(div_up(end, cs), i / cs, cs);
}
/// a write into the chunks of the second kind: the chunks fit the new record, and each byte is the one written, or the old one
pub proof fn lemma_v2_bytes(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, p2: Map<(u64, u32), u64>, b2: Seq<u8>, cs: int, meta: IMap<u64, Metadata>, n: u64, off: int, buf: Seq<u8>)
    requires
        chunks_ok(p, b, f, cs, meta), valid_chunk_size(cs), meta.dom().contains(n), kind_is(p, meta[n], n, true),
        off >= 0, buf.len() > 0, off + buf.len() <= max_file_size(),
        v2_wrote(p, b, p2, b2, cs, n, div_up(off + buf.len(), cs), off, off + buf.len(), buf),
        forall|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.1 < maxc() ==> p[k] + cs <= b.len(),
    ensures
        chunks_ok(p2, b2, f, cs, meta.insert(n, wrote_meta(meta[n], off, buf.len() as int))),
        forall|q: u64, i: int| 0 <= i < max_file_size() ==> #[trigger] byte(p2, b2, f, cs, q, i) == (if q == n && off <= i < off + buf.len() { buf[i - off] } else { byte(p, b, f, cs, q, i) }),
{
    reveal(v2_wrote);
    let end = off + buf.len(); let m = wrote_meta(meta[n], off, buf.len() as int); let meta2 = meta.insert(n, m);
    lemma_no_kind(p, b, f, cs, meta, n, true);
    lemma_start(off, end, cs); lemma_div_up(end, cs);
    let nxt = div_up(end, cs);
    assert forall|k: (u64, u32)| #[trigger] p2.dom().contains(k) && k.1 < maxc() implies meta2.dom().contains(k.0) && k.1 * cs < meta2[k.0].size && meta2[k.0].chunk_type != Some(ChunkType::V1) by {
        if p.dom().contains(k) {} else { lemma_mono(k.1 as int, nxt - 1, cs); }
    }
    assert forall|k: (u64, u32), l: (u64, u32)| #[trigger] p2.dom().contains(k) && k.1 < maxc() && #[trigger] f.dom().contains(l) implies k.0 != l.0 by {
        if p.dom().contains(k) {} else { assert(k.0 == n); }
    }
    assert forall|k: (u64, u32), x: int| p2.dom().contains(k) && k.1 < maxc() && 0 <= x < cs && k.1 * cs + x >= meta2[k.0].size implies #[trigger] blk(b2, p2[k], x) == 0 by {
        if p.dom().contains(k) { assert(blk(b, p[k], x) == 0); assert(p[k] + cs <= b.len()); if k.0 != n { assert(blk(b2, p[k], x) == blk(b, p[k], x)); } }
    }
    assert forall|q: u64, i: int| 0 <= i < max_file_size() implies #[trigger] byte(p2, b2, f, cs, q, i) == (if q == n && off <= i < end { buf[i - off] } else { byte(p, b, f, cs, q, i) }) by {
        lemma_index(i, cs);
        let k = (q, (i / cs) as u32); let x = i % cs;
        if q == n && off <= i < end { lemma_ix_between(off, i, end, cs); assert(p2.dom().contains(k)); }
        if p2.dom().contains(k) {
            assert(k.1 * cs + x == i);
            assert(blk(b2, p2[k], x) == blk(b2, p2[k], x));
            if p.dom().contains(k) { assert(p[k] + cs <= b.len()); assert(p2[k] == p[k]); if q != n { assert(blk(b2, p[k], x) == blk(b, p[k], x)); } }
            else { assert(q == n); assert(!f.dom().contains((q, (i / 4096) as u32))); }
        } else { assert(!p.dom().contains(k)); }
    }
}
/// the same for the chunks of the first kind
pub proof fn lemma_v1_bytes(p: Map<(u64, u32), u64>, b: Seq<u8>, f: Map<(u64, u32), FileChunk>, f2: Map<(u64, u32), FileChunk>, cs: int, meta: IMap<u64, Metadata>, n: u64, off: int, buf: Seq<u8>)
    requires
        chunks_ok(p, b, f, cs, meta), valid_chunk_size(cs), meta.dom().contains(n), kind_is(p, meta[n], n, false),
        off >= 0, buf.len() > 0, off + buf.len() <= max_file_size(),
        v1_wrote(f, f2, n, off, off + buf.len(), buf),
    ensures
        chunks_ok(p, b, f2, cs, meta.insert(n, wrote_meta(meta[n], off, buf.len() as int))), keys1_ok(f2),
        forall|q: u64, i: int| 0 <= i < max_file_size() ==> #[trigger] byte(p, b, f2, cs, q, i) == (if q == n && off <= i < off + buf.len() { buf[i - off] } else { byte(p, b, f, cs, q, i) }),
{
    reveal(v1_wrote);
    let end = off + buf.len(); let m = wrote_meta(meta[n], off, buf.len() as int); let meta2 = meta.insert(n, m);
    lemma_no_kind(p, b, f, cs, meta, n, false);
    assert forall|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.1 < maxc() implies meta2.dom().contains(k.0) && k.1 * cs < meta2[k.0].size && meta2[k.0].chunk_type != Some(ChunkType::V1) by { }
    assert forall|k: (u64, u32)| #[trigger] f2.dom().contains(k) implies k.1 < maxc() && meta2.dom().contains(k.0) && k.1 * 4096 < meta2[k.0].size && meta2[k.0].chunk_type != Some(ChunkType::V2) by {
        if f.dom().contains(k) {} else { assert(k.0 == n); }
    }
    assert forall|k: (u64, u32), l: (u64, u32)| #[trigger] p.dom().contains(k) && k.1 < maxc() && #[trigger] f2.dom().contains(l) implies k.0 != l.0 by {
        if f.dom().contains(l) {} else { assert(l.0 == n); }
    }
    assert forall|k: (u64, u32), x: int| f2.dom().contains(k) && 0 <= x < 4096 && k.1 * 4096 + x >= meta2[k.0].size implies #[trigger] f2[k].bytes@[x] == 0 by {
        if f.dom().contains(k) { assert(f[k].bytes@[x] == 0); }
    }
    assert forall|k: (u64, u32), x: int| p.dom().contains(k) && k.1 < maxc() && 0 <= x < cs && k.1 * cs + x >= meta2[k.0].size implies #[trigger] blk(b, p[k], x) == 0 by { }
    assert forall|q: u64, i: int| 0 <= i < max_file_size() implies #[trigger] byte(p, b, f2, cs, q, i) == (if q == n && off <= i < end { buf[i - off] } else { byte(p, b, f, cs, q, i) }) by {
        lemma_index(i, cs);
        let k1 = (q, (i / 4096) as u32); let x = i % 4096;
        if q == n && off <= i < end { assert(ix1(i) == k1.1); assert(f2.dom().contains((n, ix1(i)))); }
        if q == n { assert(!p.dom().contains((q, (i / cs) as u32))); }
        if f2.dom().contains(k1) {
            assert(k1.1 * 4096 + x == i);
            assert(f2[k1].bytes@[x] == f2[k1].bytes@[x]);
        } else { assert(!f.dom().contains(k1)); }
    }
}
/// the chunks of node `n` were written, its record not yet
pub open spec fn chunks_written<M: Memory>(s: StableStorage<M>, t1: StableStorage<M>, n: u64, off: int, buf: Seq<u8>, v2: bool) -> bool {
    &&& kind_is(s.p(), s.metas(false)[n], n, v2)
    &&& t1.base_wf() && t1.same_rest(&s) && t1.cs() == s.cs() && t1.metas(false) == s.metas(false) && t1.metas(true) == s.metas(true)
    &&& v2 ==> t1.f() == s.f() && v2_wrote(s.p(), s.b(), t1.p(), t1.b(), s.cs(), n, div_up(off + buf.len(), s.cs()), off, off + buf.len(), buf)
    &&& !v2 ==> t1.v2_filechunk == s.v2_filechunk && v1_wrote(s.f(), t1.f(), n, off, off + buf.len(), buf)
}
/// the content after a write into the chunks
pub proof fn lemma_wrote<M: Memory>(s: StableStorage<M>, t1: StableStorage<M>, t: StableStorage<M>, n: u64, off: int, buf: Seq<u8>, v2: bool)
    requires
        s.wf(), t.base_wf(), s.metas(false).dom().contains(n), !s.active_mounts@.dom().contains(n),
        off >= 0, buf.len() > 0, off + buf.len() <= max_size_of(s.metas(false)[n]),
        chunks_written(s, t1, n, off, buf, v2),
        off + buf.len() <= s.metas(false)[n].size ==> t == t1,
        off + buf.len() > s.metas(false)[n].size ==> put_done(t1, t, n, wrote_meta(s.metas(false)[n], off, buf.len() as int)),
    ensures t.wf(), wrote(s.fsv(), t.fsv(), n, off, buf),
{
    let v = s.fsv(); let w = t.fsv(); let m = wrote_meta(v.meta[n], off, buf.len() as int); let cs = s.cs(); let end = off + buf.len();
    let meta2 = s.metas(false).insert(n, m);
    if v2 { lemma_v2_bytes(s.p(), s.b(), s.f(), t1.p(), t1.b(), cs, s.metas(false), n, off, buf); }
    else { lemma_v1_bytes(s.p(), s.b(), s.f(), t1.f(), cs, s.metas(false), n, off, buf); }
    assert(chunks_ok(t1.p(), t1.b(), t1.f(), cs, meta2));
    assert(t.metas(false) =~= meta2);
    assert(t.metas(true) == s.metas(true));
    if end > s.metas(false)[n].size {
        lemma_cut_ok(t1.p(), t1.b(), t1.f(), t.p(), t.b(), t.f(), cs, meta2, meta2, n, no_limit());
    }
    assert(t.active_mounts == s.active_mounts);
    let x = FsView { meta: v.meta.insert(n, m), data: v.data.insert(n, written(v.data[n], off, buf)), ..v };
    assert(w.mounts =~= v.mounts);
    assert(w.meta =~= x.meta);
    assert(w.data.dom() =~= x.data.dom());
    assert(w.data =~= x.data) by {
        assert forall|q: u64| #[trigger] w.data.dom().contains(q) implies w.data[q] =~= x.data[q] by {
            assert forall|i: int| 0 <= i < w.data[q].len() implies w.data[q][i] == x.data[q][i] by {
                if end > s.metas(false)[n].size { lemma_cut_byte(t1.p(), t1.b(), t1.f(), t.p(), t.b(), t.f(), cs, n, no_limit(), q, i); }
                assert(byte(t.p(), t.b(), t.f(), cs, q, i) == byte(t1.p(), t1.b(), t1.f(), cs, q, i));
                if q == n && i >= v.meta[n].size { lemma_zero_byte(s.p(), s.b(), s.f(), cs, s.metas(false), n, i); }
            }
        }
    }
}
/// a write into a mounted memory
pub proof fn lemma_wrote_mounted<M: Memory>(s: StableStorage<M>, t1: StableStorage<M>, t: StableStorage<M>, n: u64, off: int, buf: Seq<u8>)
    requires
        s.wf(), remounted(s, t1, n), s.metas(true).dom().contains(n), s.active_mounts@.dom().contains(n),
        off >= 0, buf.len() > 0, off + buf.len() <= max_size_of(s.metas(true)[n]),
        t1.active_mounts@[n].mem().len() >= off + buf.len(),
        t1.active_mounts@[n].mem().len() >= s.active_mounts@[n].mem().len(),
        t1.active_mounts@[n].mem().subrange(off, off + buf.len()) == buf,
        forall|i: int| 0 <= i < s.active_mounts@[n].mem().len() && !(off <= i < off + buf.len()) ==> #[trigger] t1.active_mounts@[n].mem()[i] == s.active_mounts@[n].mem()[i],
        off + buf.len() <= s.metas(true)[n].size ==> t == t1,
        off + buf.len() > s.metas(true)[n].size ==> t.base_wf() && put_done(t1, t, n, wrote_meta(s.metas(true)[n], off, buf.len() as int)),
    ensures t.wf(), wrote(s.fsv(), t.fsv(), n, off, buf),
{
    let v = s.fsv(); let w = t.fsv(); let m = wrote_meta(v.mmeta[n], off, buf.len() as int);
    lemma_remounted(s, t1, n);
    assert(v.mounts.dom().contains(n));
    if off + buf.len() > s.metas(true)[n].size {
        lemma_put(t1, t, n, m);
        assert(w.meta =~= v.meta);
    }
    assert(w.mmeta =~= v.mmeta.insert(n, m));
    assert(w.mounts =~= v.mounts.insert(n, w.mounts[n]));
}
/// the records survive a write into the chunks
pub proof fn lemma_wrote_meta<M: Memory>(s: StableStorage<M>, t: StableStorage<M>, n: u64, nxt: int, off: int, upto: int, buf: Seq<u8>)
    requires s.base_wf(), t.same_rest(&s), t.filechunk == s.filechunk, t.cs() == s.cs(), t.low_wf(), nxt <= maxc(), v2_wrote(s.p(), s.b(), t.p(), t.b(), s.cs(), n, nxt, off, upto, buf),
    ensures t.base_wf(), t.metas(false) == s.metas(false), t.metas(true) == s.metas(true),
{
    broadcast use axiom_metadata_size;
    assert(meta_kept(s.p(), s.b(), t.p(), t.b())) by {
        reveal(meta_kept); reveal(v2_wrote);
        assert forall|k: (u64, u32)| k.1 >= maxc() && #[trigger] s.p().dom().contains(k) implies t.p()[k] == s.p()[k] && meta_at(t.b(), t.p()[k]) == meta_at(s.b(), s.p()[k]) by {
            let x = meta_size(); let a = s.p()[k] as int;
            assert(s.p()[k] + 1024 <= s.b().len());
            assert forall|i: int| 0 <= i < x implies #[trigger] t.b().subrange(a, a + x)[i] == s.b().subrange(a, a + x)[i] by {
                assert(blk(t.b(), s.p()[k], i) == blk(s.b(), s.p()[k], i));
            }
            assert(t.b().subrange(a, a + x) =~= s.b().subrange(a, a + x));
        }
    }
    lemma_meta_kept(s.meta_provider, s.p(), s.b(), t.p(), t.b());
    assert forall|n: u64, m: bool| s.metas(m).dom().contains(n) implies #[trigger] t.metas(m)[n] == s.metas(m)[n] by { assert(t.meta_provider.rec(t.p(), t.b(), m, n) == s.meta_provider.rec(s.p(), s.b(), m, n)); }
    assert(t.metas(false) =~= s.metas(false));
    assert(t.metas(true) =~= s.metas(true));
}
pub proof fn lemma_wrote_meta1<M: Memory>(s: StableStorage<M>, t: StableStorage<M>, n: u64, off: int, buf: Seq<u8>)
    requires s.wf(), t.same_rest(&s), t.v2_filechunk == s.v2_filechunk, t.ptr_cache == s.ptr_cache, v1_wrote(s.f(), t.f(), n, off, off + buf.len(), buf),
    ensures t.base_wf(), t.metas(false) == s.metas(false), t.metas(true) == s.metas(true),
{
    assert(keys1_ok(t.f())) by { reveal(v1_wrote); }
    assert(t.metas(false) =~= s.metas(false));
    assert(t.metas(true) =~= s.metas(true));
}
#[verifier::opaque]
pub open spec fn tiles_o(s: Seq<ChunkHandle>, off: int, end: int) -> bool { tiles(s, off, end, 4096) && off < end }
/// where piece `i` starts
pub open spec fn tile_at(s: Seq<ChunkHandle>, i: int, end: int) -> int { if i < s.len() { s[i].index * 4096 + s[i].offset } else { end } }
pub proof fn lemma_tile(s: Seq<ChunkHandle>, i: int, off: int, end: int)
    requires tiles_o(s, off, end), 0 <= i < s.len(),
    ensures chunk_ok(s[i], off, end, 4096), tile_at(s, i + 1, end) == tile_at(s, i, end) + s[i].len,
{
    reveal(tiles_o);
}
pub proof fn lemma_tile0(s: Seq<ChunkHandle>, off: int, end: int)
    requires tiles(s, off, end, 4096), off < end,
    ensures tiles_o(s, off, end), tile_at(s, 0, end) == off,
{
    reveal(tiles_o);
}
pub open spec fn has_v2(p: Map<(u64, u32), u64>, n: u64) -> bool { exists|k: (u64, u32)| #[trigger] p.dom().contains(k) && k.0 == n && k.1 < maxc() }
pub open spec fn keys1_ok(f: Map<(u64, u32), FileChunk>) -> bool { forall|k: (u64, u32)| #[trigger] f.dom().contains(k) ==> k.1 < maxc() }
@@ extra StableStorage
    pub open spec fn p(&self) -> Map<(u64, u32), u64> { self.v2_filechunk.v2_chunk_ptr@ }
    pub open spec fn b(&self) -> Seq<u8> { self.v2_filechunk.v2_chunks.mem() }
    pub open spec fn f(&self) -> Map<(u64, u32), FileChunk> { self.filechunk@ }
    pub open spec fn cs(&self) -> int { self.v2_filechunk.v2_allocator.cs() }
    pub open spec fn metas(&self, mounted: bool) -> IMap<u64, Metadata> {
        IMap::new(|n: u64| self.meta_provider.rec(self.p(), self.b(), mounted, n) is Some, |n: u64| self.meta_provider.rec(self.p(), self.b(), mounted, n)->0)
    }
    /// what the operations on chunks leave alone
    pub open spec fn same_rest(&self, o: &Self) -> bool {
        &&& self.header == o.header && self.direntry == o.direntry && self.direntry_lookup == o.direntry_lookup
        &&& self.meta_provider == o.meta_provider && self.active_mounts == o.active_mounts && self.chunk_type == o.chunk_type
    }
    pub open spec fn low_wf(&self) -> bool {
        &&& v2_ok(self.v2_filechunk)
        &&& consistent(self.ptr_cache.pointers@, self.p())
    }
    /// the parts of the store are intact, but the records and the chunks need not agree
    pub open spec fn base_wf(&self) -> bool {
        &&& self.low_wf()
        &&& self.meta_provider.caches_ok(self.p(), self.b())
        &&& keys1_ok(self.f())
        &&& dir_ok(self.direntry@, self.direntry_lookup@)
        &&& self.header@.version == 1
    }
    /// no new storage is taken while a block is available
    pub open spec fn frugal(&self, o: &Self) -> bool {
        self.v2_filechunk.v2_allocator.max() > o.v2_filechunk.v2_allocator.max() ==> self.v2_filechunk.v2_allocator.avail().len() == 0
    }
    /// there are blocks for the records of a node that would be written
    pub open spec fn has_room(&self, n: u64) -> bool {
        self.p().dom().contains((n, mi(self.active_mounts@.dom().contains(n)))) && self.p().dom().contains((n, MI()))
    }
    /// and nothing becomes available
    pub open spec fn thrifty(&self, o: &Self) -> bool {
        self.frugal(o) && self.v2_filechunk.v2_allocator.avail().len() <= o.v2_filechunk.v2_allocator.avail().len()
    }
@@ extra Storage@StableStorage
    open spec fn wf(&self) -> bool {
        &&& self.low_wf()
        &&& self.meta_provider.caches_ok(self.p(), self.b())
        &&& chunks_ok(self.p(), self.b(), self.f(), self.cs(), self.metas(false))
        &&& dir_ok(self.direntry@, self.direntry_lookup@)
        &&& self.header@.version == 1
        &&& sane(self.fsv())
    }
    open spec fn fsv(&self) -> FsView {
        FsView {
            meta: self.metas(false),
            mmeta: self.metas(true),
            data: IMap::new(|n: u64| self.metas(false).dom().contains(n),
                |n: u64| Seq::new(self.metas(false)[n].size as nat, |i: int| byte(self.p(), self.b(), self.f(), self.cs(), n, i))),
            entries: self.direntry@,
            mounts: IMap::new(|n: u64| self.active_mounts@.dom().contains(n), |n: u64| self.active_mounts@[n].mem()),
            next_node: self.header@.next_node,
            chunk_type: self.chunk_type,
            chunk_size: self.cs(),
        }
    }
    proof fn lemma_sane(tracked &self) {}
    fn direntries(&self, node: Node, initial_index: Option<DirEntryIndex>) -> (r: Vec<(DirEntryIndex, DirEntry)>) {
        let mut v = Visitor::new();
        self.visit_direntries(node, initial_index, &mut v);
        v.into_vec()
    }
@@ drop Storage@StableStorage::with_direntries -- verified as visit_direntries, with a visitor that notes what it is called with
@@ copy StableStorage::visit_direntries Storage@StableStorage::with_direntries
@@ sig StableStorage::visit_direntries
f: &mut dyn FnMut(&DirEntryIndex, &DirEntry) -> bool
=>
f: &mut Visitor<DirEntry>
@@ rewrite StableStorage::visit_direntries
f($a:any, $b:any)
=>
f.call($a, $b)
@@ rewrite StableStorage::visit_direntries
for $k:id in self.direntry.range($r:any) $b:tt
=>
let mut range_ = self.direntry.range($r); while let Some($k) = range_.next() $b
@@ rewrite StableStorage::visit_direntries
let (_node, $i:id) = *$e:id.key();
=>
let key_ = *$e.key(); let $i = key_.1;
@@ fn StableStorage::visit_direntries [C16]
    requires !old(f).stopped(), old(f).seen() == Seq::<(u32, DirEntry)>::empty(),
    ensures
        final(f).eager() == old(f).eager(), old(f).eager() ==> !final(f).stopped(),
        final(f).stopped() ==> is_listing_prefix(final(f).seen(), self.direntry@, node, initial_index), // [C16]
        !final(f).stopped() ==> is_listing(final(f).seen(), self.direntry@, node, initial_index), // [C16]
@@ extra attr StableStorage::visit_direntries
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ hint StableStorage::visit_direntries entry
    let ghost init = initial_index; let ghost es = self.direntry@;
@@ hint StableStorage::visit_direntries loop1:before
    let ghost pre = f.seen(); let ghost all = range_.seq();
    proof { lemma_listing(pre, all, 0, es, node, init, initial_index, max_index); }
@@ loop StableStorage::visit_direntries 1
    invariant
        0 <= range_.pos() <= all.len(), all == range_.seq(), is_range(all, es, (node, initial_index), (node, max_index)), !f.stopped(), f.eager() == old(f).eager(), es == self.direntry@,
        f.seen() == pre + entries_of(all, range_.pos()), is_specials(pre, node, init), initial_index == from_of(init), max_index == 4294967285,
    ensures range_.pos() == all.len(),
    decreases all.len() - range_.pos(),
@@ hint StableStorage::visit_direntries loop1:after
    proof { lemma_listing(pre, all, all.len() as int, es, node, init, initial_index, max_index); }
@@ rewrite StableStorage::visit_direntries
if !f.call(&index, &entry) $b:tt
=>
let go_ = f.call(&index, &entry); proof { assert(f.seen() =~= pre + entries_of(all, range_.pos())); lemma_listing(pre, all, range_.pos(), es, node, init, initial_index, max_index); } if !go_ $b
@@ rewrite? StableStorage::new_with_memory_manager
StorageMemoryIdx::$x:id as u8
=>
(StorageMemoryIdx::$x as u8)
@@ fn StableStorage::new_with_memory_manager [C14]
    requires memory_indices.start <= memory_indices.end, memory_indices.end - memory_indices.start >= 10, memory_indices.end <= 254,
        can_open(memories_at(*memory_manager, memory_indices.start as int)),
    ensures
        opens(memories_at(*memory_manager, memory_indices.start as int), r), // [C14]
@@ fn StableStorage::new [C14]
    requires can_open(memories_at(managed(memory), 229)),
    ensures
        opens(memories_at(managed(memory), 229), r), // [C14]
@@ sig StableStorage::init_size_from_cache_journal
journal: &VirtualMemory<M>
=>
journal: &mut VirtualMemory<M>
@@ rewrite? StableStorage::init_size_from_cache_journal
MetadataLegacy::default()
=>
anything::<MetadataLegacy>()
@@ rewrite? StableStorage::new_with_custom_memories
result.init_size_from_cache_journal(&memories.cache_journal);
=>
let mut journal_ = memories.cache_journal; result.init_size_from_cache_journal(&mut journal_);
@@ fn StableStorage::init_size_from_cache_journal [C14]
    requires old(journal).mem().len() == 0,
    ensures *final(self) == *old(self), *final(journal) == *old(journal), // [C14]
@@ fn StableStorage::new_with_custom_memories [C14]
    requires can_open(memories),
    ensures
        opens(memories, r), // [C14]
@@ hint StableStorage::new_with_custom_memories entry
    broadcast use axiom_fresh_map;
    let ghost ms = memories;
    proof { lemma_openable(ms); }
@@ hint StableStorage::new_with_custom_memories before "result.init_size_from_cache_journal($x:any);"
    proof { lemma_opened(ms, result); }
@@ sig StableStorage::write_mounted
&self, memory: &dyn Memory
=>
memory: &mut dyn Memory
@@ fn StableStorage::write_mounted [C01,C13]
    requires offset + buf@.len() <= u64::MAX,
    ensures r == buf@.len(),
        final(memory).mem().len() >= offset + buf@.len(),
        final(memory).mem().len() >= old(memory).mem().len(),
        final(memory).mem().subrange(offset as int, offset + buf@.len()) == buf@, // [C13,C01]
        forall|i: int| 0 <= i < old(memory).mem().len() && !(offset <= i < offset + buf@.len()) ==> #[trigger] final(memory).mem()[i] == old(memory).mem()[i], // [C13,C02]
@@ hint StableStorage::write_mounted end
    proof { assert(memory.mem().subrange(offset as int, offset + buf@.len()) =~= buf@); }
@@ fn StableStorage::write_filechunk_v1 [C01,C02,C03]
    requires offset + buf@.len() <= 4096,
    ensures
        final(self).same_rest(old(self)), final(self).v2_filechunk == old(self).v2_filechunk, final(self).ptr_cache == old(self).ptr_cache, // [C02]
        final(self).f() == old(self).f().insert((node, index), final(self).f()[(node, index)]), // [C02]
        final(self).f()[(node, index)].bytes@ == splice(if old(self).f().dom().contains((node, index)) { old(self).f()[(node, index)].bytes@ } else { zeros(4096) }, offset as int, buf@), // [C01]
@@ hint StableStorage::write_filechunk_v1 bodyend
    proof {
        assert(self.f() =~= old(self).f().insert((node, index), self.f()[(node, index)]));
        assert(self.f()[(node, index)].bytes@ =~= splice(if old(self).f().dom().contains((node, index)) { old(self).f()[(node, index)].bytes@ } else { zeros(4096) }, offset as int, buf@));
    }
@@ rewrite StableStorage::write_filechunk_v1
$e:post.unwrap_or_default()
=>
(match $e { Some(c_) => c_, None => FileChunk::default() })
@@ rewrite StableStorage::write_chunks_v2
let write_iter: Vec<_> = write_iter.collect();
=>
let mut write_iter = write_iter; let mut collected_: Vec<((Node, FileChunkIndex), CachedChunkPtr)> = Vec::new(); while let Some(x_) = write_iter.next() { collected_.push(x_); } let write_iter = collected_;
@@ rewrite StableStorage::write_chunks_v2
for (($a:id, $b:id), $c:id) in write_iter $d:tt
=>
let mut wr_ = vec_iter(write_iter); while let Some((($a, $b), $c)) = wr_.next() $d
@@ rewrite StableStorage::write_chunks_v2
grow_memory(&self.
=>
grow_memory(&mut self.
@@ fn StableStorage::write_chunks_v2 [C01,C02,C03,C05]
    requires old(self).low_wf(), offset + buf@.len() <= u64::MAX, div_up(offset + buf@.len(), old(self).cs()) <= maxc(),
    ensures
        final(self).low_wf(), // [C02,C05,C14]
        final(self).same_rest(old(self)), final(self).filechunk == old(self).filechunk, final(self).cs() == old(self).cs(), // [C02]
        final(self).thrifty(old(self)), // [C05]
        (forall|k: (u64, u32)| #[trigger] final(self).p().dom().contains(k) ==> old(self).p().dom().contains(k)) ==>
            final(self).v2_filechunk.v2_allocator.max() == old(self).v2_filechunk.v2_allocator.max(), // [C05]
        r == Ok::<u64, Error>(buf@.len() as u64), // [C01]
        v2_wrote(old(self).p(), old(self).b(), final(self).p(), final(self).b(), old(self).cs(), node, nxt_of(offset as int, buf@.len() as int, old(self).cs()), offset as int, offset + buf@.len(), buf@), // [C01,C02]
@@ hint StableStorage::write_chunks_v2 entry
    broadcast use axiom_memory_bound;
    let ghost p0 = self.p(); let ghost b0 = self.b(); let ghost cs = self.cs(); let ghost off = offset as int; let ghost end = offset + buf@.len();
    let ghost start = off / cs; let ghost last = div_up(end, cs); let ghost bufs = buf@; let ghost s0 = *self;
    proof { lemma_ix(off, cs); lemma_div_up(end, cs); lemma_start(off, end, cs); lemma_wrote_none(p0, b0, cs, node, off, bufs); }
@@ loop StableStorage::write_chunks_v2 1
    invariant
        write_iter.wf(), write_iter.node == node, write_iter.last_index_excluded == last,
        write_iter.v2_chunk_ptr@ == p0, start <= write_iter.cur_index, write_iter.cur_index <= last || write_iter.cur_index == start,
        *final(write_iter.ptr_cache) == *final(it0_.ptr_cache), *final(write_iter.v2_chunk_ptr) == *final(it0_.v2_chunk_ptr), *write_iter.v2_chunk_ptr == *it0_.v2_chunk_ptr,
        collected_@.len() == write_iter.cur_index - start,
        forall|i: int| 0 <= i < collected_@.len() ==> (#[trigger] collected_@[i]).0 == (node, (start + i) as u32) && right(collected_@[i].0, collected_@[i].1, p0),
    ensures write_iter.cur_index >= last,
    decreases last - write_iter.cur_index,
@@ hint StableStorage::write_chunks_v2 loop1:before
    let ghost it0_ = write_iter;
@@ loop StableStorage::write_chunks_v2 2
    invariant_except_break
        start + wr_.pos() <= last || wr_.pos() == 0,
        remainder > 0 && wr_.pos() > 0 ==> (start + wr_.pos()) * cs == off + size_written,
        remainder == 0 && wr_.pos() > 0 ==> (start + wr_.pos()) * cs >= end && bufs.len() > 0,
        wr_.pos() == 0 ==> size_written == 0 && chunk_offset == off - start * cs,
        wr_.pos() > 0 ==> chunk_offset == 0,
        wr_.pos() == wr_.seq().len() ==> remainder == 0,
        v2_wrote(p0, b0, self.p(), self.b(), cs, node, start + wr_.pos(), off, off + size_written, bufs),
    invariant
        cs == self.cs(), valid_chunk_size(cs), chunk_size == cs, off == offset, end == off + bufs.len(), bufs == buf@, end <= u64::MAX, start == off / cs, last == div_up(end, cs), last <= maxc(),
        last == start || (start < last && end > (last - 1) * cs) || end == off, start * cs <= off < start * cs + cs, last * cs >= end,
        0 <= wr_.pos() <= wr_.seq().len(), wr_.seq().len() == (if last > start { last - start } else { 0 }),
        forall|i: int| 0 <= i < wr_.seq().len() ==> (#[trigger] wr_.seq()[i]).0 == (node, (start + i) as u32) && right(wr_.seq()[i].0, wr_.seq()[i].1, p0),
        size_written + remainder == bufs.len(),
        self.low_wf(), self.same_rest(&s0), self.filechunk == s0.filechunk, self.thrifty(&s0),
        (forall|k: (u64, u32)| #[trigger] self.p().dom().contains(k) ==> p0.dom().contains(k)) ==> self.v2_filechunk.v2_allocator.max() == s0.v2_filechunk.v2_allocator.max(),
    ensures remainder == 0, v2_wrote(p0, b0, self.p(), self.b(), cs, node, nxt_of(off, bufs.len() as int, cs), off, end, bufs),
    decreases wr_.seq().len() - wr_.pos(),
@@ hint StableStorage::write_chunks_v2 after "self.v2_filechunk.v2_chunk_ptr.insert($x:any);"
    proof { lemma_alloc(p1, av1, max1, cs, self.v2_filechunk.v2_allocator.avail(), self.v2_filechunk.v2_allocator.max(), key, ptr); }
@@ hint StableStorage::write_chunks_v2 loop2:end
    assert(v2_wrote(p0, b0, self.p(), self.b(), cs, node, start + wr_.pos(), off, off + size_written, bufs)) by {
        let p2 = self.p(); let b2 = self.b();
        assert(kept(p1, b1, p2, b2, cs, key)) by {
            assert forall|q: (u64, u32), x: int| p1.dom().contains(q) && q != key && 0 <= x < cs && p1[q] + x < b1.len() implies #[trigger] blk(b2, p1[q], x) == blk(b1, p1[q], x) by {
                lemma_disjoint(p1[q] as int, p2[key] as int, cs);
            }
        }
        assert forall|x: int| 0 <= x < cs implies #[trigger] blk(b2, p2[key], x) ==
            (if co <= x < co + to_write { bufs[k * cs + x - off] } else if p1.dom().contains(key) { blk(b1, p1[key], x) } else { 0 }) by {
        }
        lemma_wrote_step(p0, b0, p1, b1, p2, b2, cs, node, k, off, upto, upto + to_write, bufs, key, co);
    }
@@ hint StableStorage::write_chunks_v2 loop2:end
    proof { assert(self.p().dom().contains(key)); if !p1.dom().contains(key) { assert(!p0.dom().contains(key)); } else { assert(self.p() == p1); } }
@@ hint StableStorage::write_chunks_v2 loop2:start
    broadcast use axiom_memory_bound;
    let ghost pos = wr_.pos() - 1; let ghost k = start + pos; let ghost key = (nd, index); let ghost p1 = self.p(); let ghost b1 = self.b();
    let ghost av1 = self.v2_filechunk.v2_allocator.avail(); let ghost max1 = self.v2_filechunk.v2_allocator.max(); let ghost co = chunk_offset as int; let ghost c1 = self.ptr_cache.pointers@;
    let ghost upto = off + size_written;
    proof { lemma_mono(k, last - 1, cs); lemma_mono(start, k, cs); lemma_mul_next(k, cs); lemma_wrote_at(p0, b0, p1, b1, cs, node, k, off, upto, bufs, key); }
@@ rewrite? StableStorage::read_chunks_v1
let mut cur_fetched = None;
=>
let mut cur_fetched: Option<crate::ic_stable_structures::map::LazyEntry<FileChunk>> = None;
@@ rewrite? StableStorage::read_chunks_v1
if let Some(ref en) = cur_fetched
=>
if let Some(en) = &cur_fetched
@@ rewrite StableStorage::read_chunks_v1
read_buf.iter_mut().for_each($f:any)
=>
fill_zero(read_buf)
@@ rewrite StableStorage::read_chunks_v1
let (nd, idx) = *en.key();
=>
let key_ = *en.key(); let nd = key_.0; let idx = key_.1;
@@ fn StableStorage::read_chunks_v1 [C01,C03]
    requires offset < file_size <= max_file_size(), keys1_ok(self.f()),
    ensures
        final(buf)@.len() == old(buf)@.len(),
        r is Ok, r->Ok_0 == read_len(file_size as int, offset as int, old(buf)@.len() as int), // [C01]
        forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == byte1(self.f(), node, offset + i), // [C01,C03]
        forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i], // [C01]
@@ hint StableStorage::read_chunks_v1 entry
    broadcast use axiom_slice_len;
    let ghost n = buf@.len() as int; let ghost off = offset as int; let ghost f = self.f(); let ghost buf0 = buf@; let ghost start = off / 4096;
    let ghost total = read_len(file_size as int, off, n);
@@ hint StableStorage::read_chunks_v1 loop1:before
    let ghost all = iter.seq();
@@ loop StableStorage::read_chunks_v1 1
    invariant_except_break
        size_read < total ==> offset + size_read == cur_index * 4096 + chunk_offset,
        cur_fetched is None ==> (iter.pos() == 0 && cur_index == start) || (iter.pos() > 0 && all[iter.pos() - 1].0.1 == cur_index - 1) || iter.pos() == all.len(),
        cur_fetched is Some ==> iter.pos() > 0 && cur_fetched->0.k() == all[iter.pos() - 1].0 && cur_fetched->0.v() == all[iter.pos() - 1].1
            && all[iter.pos() - 1].0.1 >= cur_index,
        forall|j: int| 0 <= j < (if cur_fetched is Some { iter.pos() - 1 } else { iter.pos() }) ==> (#[trigger] all[j]).0.1 < cur_index,
    invariant
        f == self.f(), keys1_ok(f), n == buf@.len(), buf0.len() == n, off == offset, start == off / 4096, start == start_index, total == read_len(file_size as int, off, n), offset < file_size <= max_file_size(),
        all == iter.seq(), 0 <= iter.pos() <= all.len(), is_range(all, f, (node, start_index), (node, MAX_FILE_CHUNK_COUNT)),
        size_read + remainder == file_size - off, size_read <= total, end_index <= 4294967286, chunk_offset < 4096,
        end_index == (if off + n < file_size { off + n } else { file_size as int }) / 4096 + 1,
        start <= cur_index,
        forall|i: int| 0 <= i < size_read ==> #[trigger] buf@[i] == byte1(f, node, off + i),
        forall|i: int| size_read <= i < n ==> #[trigger] buf@[i] == buf0[i],
    ensures size_read == total,
@@ hint StableStorage::read_chunks_v1 before "let read_buf = $x:any;"
    let ghost hit = cur_fetched is Some && all[iter.pos() - 1].0.1 == cur_index; let ghost buf1 = buf@; let ghost p = iter.pos() - 1; let ghost sr = size_read as int; let ghost co = chunk_offset as int;
    proof {
        let key = (node, cur_index);
        if cur_fetched is Some { assert(all[p].0.0 == node); }
        if f.dom().contains(key) {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == key;
            if !hit {
                if cur_fetched is Some { if j < p { assert(all[j].0.1 < cur_index); } else { assert(key_lt(all[p].0, all[j].0)); } }
                assert(false);
            }
        }
    }
@@ hint StableStorage::read_chunks_v1 loop1:end
    proof {
        assert forall|i: int| 0 <= i < size_read implies #[trigger] buf@[i] == byte1(f, node, off + i) by {
            if i < sr { assert(buf1[i] == byte1(f, node, off + i)); assert(buf@[i] == buf1[i]); }
            else { assert((off + i) / 4096 == cur_index && (off + i) % 4096 == co + (i - sr)); }
        }
    }
@@ rewrite StableStorage::read_chunks_v2
read_buf.iter_mut().for_each($f:any)
=>
fill_zero(read_buf)
@@ rewrite StableStorage::read_chunks_v2
for (($a:id, $b:id), $c:id) in read_iter $d:tt
=>
let mut read_iter = read_iter; while let Some((($a, $b), $c)) = read_iter.next() $d
@@ fn StableStorage::read_chunks_v2 [C01,C02,C03]
    requires old(self).low_wf(), file_size <= max_file_size(),
    ensures
        final(self).low_wf(), final(self).same_rest(old(self)), final(self).filechunk == old(self).filechunk, final(self).v2_filechunk == old(self).v2_filechunk, // [C02,C14]
        final(buf)@.len() == old(buf)@.len(),
        r is Ok, r->Ok_0 == read_len(file_size as int, offset as int, old(buf)@.len() as int), // [C01]
        forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == byte2(old(self).p(), old(self).b(), old(self).cs(), node, offset + i), // [C01,C03]
        forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i], // [C01]
@@ hint StableStorage::read_chunks_v2 entry
    broadcast use axiom_slice_len;
    let ghost n = buf@.len() as int; let ghost off = offset as int; let ghost p = self.p(); let ghost b = self.b(); let ghost buf0 = buf@;
    let ghost cs = self.cs(); let ghost start = off / cs; let ghost fs = file_size as int; let ghost last = div_up(fs, cs);
    let ghost total = read_len(fs, off, n); let ghost s0 = *self;
    proof { lemma_ix(off, cs); lemma_div_up(fs, cs); if off < fs { lemma_start(off, fs, cs); } lemma_div_up_max(fs, cs); }
@@ loop StableStorage::read_chunks_v2 1
    invariant_except_break
        size_read < total ==> offset + size_read == read_iter.cur_index * cs + chunk_offset,
        read_iter.cur_index >= last ==> size_read == total,
    invariant
        cs == chunk_size, valid_chunk_size(cs), n == buf@.len(), buf0.len() == n, off == offset, fs == file_size, start == off / cs, last == div_up(fs, cs), last <= maxc(), off < fs, fs <= last * cs,
        total == read_len(fs, off, n), b == self.v2_filechunk.v2_chunks.mem(),
        s0.low_wf(), s0.p() == p, s0.b() == b, s0.cs() == cs,
        read_iter.wf(), read_iter.node == node, read_iter.last_index_excluded == last, read_iter.v2_chunk_ptr@ == p, start <= read_iter.cur_index,
        *final(read_iter.ptr_cache) == *final(it0_.ptr_cache), *final(read_iter.v2_chunk_ptr) == *final(it0_.v2_chunk_ptr), *read_iter.v2_chunk_ptr == s0.v2_filechunk.v2_chunk_ptr,
        size_read + remainder == fs - off, size_read <= total, chunk_offset < cs,
        forall|i: int| 0 <= i < size_read ==> #[trigger] buf@[i] == byte2(p, b, cs, node, off + i),
        forall|i: int| size_read <= i < n ==> #[trigger] buf@[i] == buf0[i],
    ensures size_read == total,
    decreases last + 1 - read_iter.cur_index,
@@ hint StableStorage::read_chunks_v2 loop1:before
    let ghost it0_ = read_iter;
@@ hint StableStorage::read_chunks_v2 loop1:start
    let ghost k = read_iter.cur_index - 1; let ghost buf1 = buf@; let ghost sr = size_read as int; let ghost co = chunk_offset as int;
    proof { lemma_mul_next(k, cs); lemma_mono(k + 1, last, cs); lemma_mono(last, k + 1, cs); }
@@ hint StableStorage::read_chunks_v2 loop1:end
    proof {
        assert forall|i: int| 0 <= i < size_read implies #[trigger] buf@[i] == byte2(p, b, cs, node, off + i) by {
            if i < sr { assert(buf1[i] == byte2(p, b, cs, node, off + i)); assert(buf@[i] == buf1[i]); }
            else { lemma_ix_of(k, co + (i - sr), cs); }
        }
    }
@@ fn StableStorage::use_v2 [C01,C02,C14,C19]
    requires keys_ok(old(self).p()),
    ensures *final(self) == *old(self),
        metadata.chunk_type == Some(ChunkType::V2) ==> r, // [C01,C02]
        metadata.chunk_type == Some(ChunkType::V1) ==> !r, // [C01,C02]
        metadata.chunk_type is None && metadata.size > 0 ==> (r <==> has_v2(old(self).p(), node)), // [C01,C02]
@@ rewrite StableStorage::use_v2
let ptr = $x:any;
=>
let mut range_ = $x; let ptr = range_;
@@ fn StableStorage::validate_metadata_update [C03,C04,C19]
    ensures
        r is Err <==> (old_meta is Some && (old_meta->0.file_type != new_meta.file_type || old_meta->0.node != new_meta.node)) || new_meta.size > max_size_of(*new_meta), // [C04,C03]
@@ rewrite StableStorage::resize_file_internal
for $k:id in self.filechunk.keys_range($r:any) $b:tt
=>
let mut keys1_ = self.filechunk.keys_range($r); while let Some($k) = keys1_.next() $b
@@ rewrite StableStorage::resize_file_internal
for $k:id in self.v2_filechunk.v2_chunk_ptr.keys_range($r:any) $b:tt
=>
let mut keys2_ = self.v2_filechunk.v2_chunk_ptr.keys_range($r); while let Some($k) = keys2_.next() $b
@@ rewrite StableStorage::resize_file_internal
for ($x:id, $y:id) in chunks.into_iter() $b:tt
=>
let mut rm_ = vec_iter(chunks); while let Some(($x, $y)) = rm_.next() $b
@@ fn StableStorage::resize_file_internal [C01,C02,C03,C05]
    requires old(self).low_wf(), new_size <= max_file_size(), keys1_ok(old(self).f()),
        old(self).ptr_cache.pointers@ == Map::<(u64, u32), CachedChunkPtr>::empty(),
    ensures
        r is Ok, final(self).low_wf(), // [C02,C05,C14]
        final(self).same_rest(old(self)), final(self).cs() == old(self).cs(),
        final(self).v2_filechunk.v2_allocator.max() == old(self).v2_filechunk.v2_allocator.max(), // [C05]
        old(self).active_mounts@.dom().contains(node) ==> *final(self) == *old(self), // [C13]
        !old(self).active_mounts@.dom().contains(node) ==> cut1(old(self).f(), final(self).f(), node, new_size as int), // [C03,C02]
        !old(self).active_mounts@.dom().contains(node) ==> cut2(old(self).p(), old(self).b(), final(self).p(), final(self).b(), old(self).cs(), node, new_size as int), // [C03,C02]
        !old(self).active_mounts@.dom().contains(node) ==> meta_kept(old(self).p(), old(self).b(), final(self).p(), final(self).b()), // [C02,C13]
@@ hint StableStorage::resize_file_internal entry
    broadcast use axiom_memory_bound;
    let ghost s0 = *self; let ghost f0 = self.f(); let ghost p0 = self.p(); let ghost b0 = self.b(); let ghost cs = self.cs(); let ghost ns = new_size as int;
    let ghost max0 = self.v2_filechunk.v2_allocator.max();
    let ghost d1 = div_up(ns, 4096); let ghost d2 = div_up(ns, cs);
    proof {
        lemma_div_up(ns, 4096); lemma_div_up_max(ns, 4096); lemma_div_up(ns, cs); lemma_div_up_max(ns, cs);
        lemma_ix(ns, 4096); lemma_ix(ns, cs); lemma_div_rem(ns, 4096); lemma_div_rem(ns, cs);
    }
@@ loop StableStorage::resize_file_internal 1
    invariant
        0 <= d1 <= maxc(), 0 <= keys1_.pos() <= keys1_.keys().len(), is_keys_range(keys1_.keys(), f0.dom(), (node, d1 as u32), (node, MAX_FILE_CHUNK_COUNT)),
        chunks@.len() == keys1_.pos(), chunks@ =~= keys1_.keys().take(keys1_.pos()),
    ensures chunks@ =~= keys1_.keys(),
    decreases keys1_.keys().len() - keys1_.pos(),
@@ loop StableStorage::resize_file_internal 2
    invariant
        0 <= rm_.pos() <= rm_.seq().len(), is_keys_range(rm_.seq(), f0.dom(), (node, d1 as u32), (node, MAX_FILE_CHUNK_COUNT)),
        0 <= d1 <= maxc(), self.same_rest(&s0), self.v2_filechunk == s0.v2_filechunk, self.ptr_cache == s0.ptr_cache,
        forall|k: (u64, u32)| #[trigger] self.f().dom().contains(k) ==> f0.dom().contains(k) && self.f()[k] == f0[k],
        forall|k: (u64, u32)| #[trigger] f0.dom().contains(k) && !(k.0 == node && d1 <= k.1) ==> self.f().dom().contains(k),
        forall|i: int| 0 <= i < rm_.pos() ==> !self.f().dom().contains(#[trigger] rm_.seq()[i]),
    ensures rm_.pos() == rm_.seq().len(),
    decreases rm_.seq().len() - rm_.pos(),
@@ loop StableStorage::resize_file_internal 3
    invariant
        0 <= d2 <= maxc(), 0 <= keys2_.pos() <= keys2_.keys().len(), is_keys_range(keys2_.keys(), p0.dom(), (node, d2 as u32), (node, MAX_FILE_CHUNK_COUNT)),
        chunks@.len() == keys2_.pos(), chunks@ =~= keys2_.keys().take(keys2_.pos()),
    ensures chunks@ =~= keys2_.keys(),
    decreases keys2_.keys().len() - keys2_.pos(),
@@ loop StableStorage::resize_file_internal 4
    invariant
        0 <= rm_.pos() <= rm_.seq().len(), is_keys_range(rm_.seq(), p0.dom(), (node, d2 as u32), (node, MAX_FILE_CHUNK_COUNT)),
        0 <= d2 <= maxc(), self.same_rest(&s0), self.filechunk == s1.filechunk, self.ptr_cache == s0.ptr_cache, self.low_wf(), self.cs() == cs,
        self.ptr_cache.pointers@ == Map::<(u64, u32), CachedChunkPtr>::empty(),
        self.v2_filechunk.v2_allocator.max() == max0, self.b() == b0,
        forall|k: (u64, u32)| #[trigger] self.p().dom().contains(k) ==> p0.dom().contains(k) && self.p()[k] == p0[k],
        forall|k: (u64, u32)| #[trigger] p0.dom().contains(k) && !(k.0 == node && d2 <= k.1 < maxc()) ==> self.p().dom().contains(k),
        forall|i: int| 0 <= i < rm_.pos() ==> !self.p().dom().contains(#[trigger] rm_.seq()[i]),
    ensures rm_.pos() == rm_.seq().len(),
    decreases rm_.seq().len() - rm_.pos(),
@@ hint StableStorage::resize_file_internal loop2:after
    proof {
        assert forall|k: (u64, u32)| #[trigger] self.f().dom().contains(k) implies !(k.0 == node && d1 <= k.1) by {
            if k.0 == node && d1 <= k.1 { let i = choose|i: int| 0 <= i < rm_.seq().len() && #[trigger] rm_.seq()[i] == k; }
        }
    }
    let ghost f1 = self.f();
@@ hint StableStorage::resize_file_internal before "let chunk_size = self.chunk_size();"
    let ghost s1 = *self;
    proof { lemma_cut1(f0, f1, self.f(), node, ns); }
@@ hint StableStorage::resize_file_internal before "self.write_filechunk_v1($x:any);"
    proof { assert(z_@ =~= zeros(4096 - ns % 4096)); }
@@ hint StableStorage::resize_file_internal before "self.write_chunks_v2($x:any)?;"
    proof { assert(z_@ =~= zeros(d2 * cs - ns)); assert(nxt_of(ns, z_@.len() as int, cs) == d2); }
@@ rewrite? StableStorage::resize_file_internal
self.write_chunks_v2($a:id, $b:id, $z:any)?;
=>
proof { lemma_div_rem(ns, cs); } let z_ = $z; self.write_chunks_v2($a, $b, z_)?;
@@ rewrite? StableStorage::resize_file_internal
self.write_filechunk_v1($a:id, $i:any, $b:id, $z:any);
=>
proof { lemma_div_rem(ns, 4096); } let z_ = $z; self.write_filechunk_v1($a, $i, $b, z_);
@@ hint StableStorage::resize_file_internal loop2:start
    let ghost fb = self.f();
@@ hint StableStorage::resize_file_internal loop2:end
    proof { assert(self.f() =~= fb.remove((node, idx))); }
@@ hint StableStorage::resize_file_internal loop4:start
    let ghost p1 = self.p(); let ghost av1 = self.v2_filechunk.v2_allocator.avail();
@@ hint StableStorage::resize_file_internal loop4:end
    proof {
        if p1.dom().contains((node, idx)) { lemma_free(p1, av1, max0, cs, (node, idx)); assert(self.v2_filechunk.v2_allocator.avail() == av1.push(p1[(node, idx)])); assert(self.p() =~= p1.remove((node, idx))); }
        else { assert(self.p() =~= p1); }
    }
@@ hint StableStorage::resize_file_internal loop4:after
    proof {
        assert forall|k: (u64, u32)| #[trigger] self.p().dom().contains(k) implies !(k.0 == node && d2 <= k.1 < maxc()) by {
            if k.0 == node && d2 <= k.1 < maxc() { let i = choose|i: int| 0 <= i < rm_.seq().len() && #[trigger] rm_.seq()[i] == k; }
        }
    }
    let ghost p2 = self.p();
@@ hint StableStorage::resize_file_internal end
    proof {
        assert(self.v2_filechunk.v2_allocator.max() == max0) by {
            lemma_div_rem(ns, cs);
            reveal(v2_wrote);
            assert forall|k: (u64, u32)| #[trigger] self.p().dom().contains(k) implies p2.dom().contains(k) by {}
        }
        assert(self.b() == b0 || v2_wrote(p2, b0, self.p(), self.b(), cs, node, d2, ns, d2 * cs, zeros(d2 * cs - ns)));
        lemma_cut2(p0, b0, p2, self.p(), self.b(), cs, node, ns);
    }
@@ fn Storage@StableStorage::root_node [C14]
@@ fn Storage@StableStorage::new_node [C02,C05,C14]
@@ hint Storage@StableStorage::new_node bodyend
@@ fn Storage@StableStorage::get_version [C14]
@@ fn Storage@StableStorage::get_metadata [C01,C04,C14,C19]
@@ rewrite? Storage@StableStorage::get_metadata
.map(|x| x.0)
=>
.map(|x: (Metadata, Option<FileChunkPtr>)| -> (y: Metadata) ensures y == x.0 { x.0 })
@@ fn Storage@StableStorage::get_direntry [C06,C07,C16]
@@ fn Storage@StableStorage::get_direntry_index_by_name [C06,C07,C16,C17]
@@ fn Storage@StableStorage::new_direntry_index [C16]
@@ rewrite Storage@StableStorage::new_direntry_index
self.direntry.range(start..=end).next_back()
=>
{ let mut range_ = self.direntry.range_incl(start, end); range_.next_back() }
@@ hint Storage@StableStorage::new_direntry_index entry
    proof { lemma_next_idx(self.direntry@, node); }
@@ hint Storage@StableStorage::new_direntry_index end
    proof { if forall|k: u32| !(#[trigger] self.direntry@.dom().contains((node, k))) { assert(is_next(self.direntry@, node, 1)); } }
@@ rewrite Storage@StableStorage::new_direntry_index
panic!($x:any)
=>
{ assert(false); }
@@ fn Storage@StableStorage::put_direntry [C06,C16,C17]
@@ fn Storage@StableStorage::rm_direntry [C06,C08,C16]
@@ fn Storage@StableStorage::is_mounted [C12,C13]
@@ fn Storage@StableStorage::set_chunk_type [C19]
    ensures final(self).fsv().chunk_type == chunk_type, // [C19]
@@ fn Storage@StableStorage::chunk_type [C19]
@@ fn Storage@StableStorage::chunk_size [C14,C15]
@@ fn Storage@StableStorage::set_chunk_size [C14,C15]
    ensures r is Ok ==> final(self).fsv().chunk_size == chunk_size as int, // [C14,C15]
@@ rewrite Storage@StableStorage::set_chunk_size
{ $x:any }
=>
{ let res_ = $x; proof { if res_ is Ok { lemma_resize_empty(*old(self), *self); } } res_ }
@@ fn Storage@StableStorage::flush [C14]
@@ fn Storage@StableStorage::unmount_node [C13,C14]
    ensures final(self).v2_filechunk == old(self).v2_filechunk,
@@ hint Storage@StableStorage::unmount_node end
    proof {
        let v = old(self).fsv(); let w = self.fsv();
        assert(w.mounts =~= v.mounts.remove(node));
        assert(w.meta =~= v.meta && w.mmeta =~= v.mmeta && w.data =~= v.data);
        if !v.mounts.dom().contains(node) { assert(w.mounts =~= v.mounts); }
    }
@@ copy StableStorage::put_metadata_raw Storage@StableStorage::put_metadata
@@ fn StableStorage::put_metadata_raw [C01,C02,C03,C04,C05,C08,C13,C14,C19]
    requires old(self).base_wf(), recs_ok(*old(self)),
        old(self).metas(old(self).active_mounts@.dom().contains(node)).dom().contains(node) || metadata.node == node,
    ensures
        ({
            let act = old(self).metas(old(self).active_mounts@.dom().contains(node));
            r is Err <==> metadata.size > max_size_of(*metadata) || (act.dom().contains(node) && (act[node].file_type != metadata.file_type || act[node].node != metadata.node))
        }), // [C04]
        r is Err ==> *final(self) == *old(self), // [C04]
        r is Ok ==> final(self).base_wf(), // [C14,C02]
        r is Ok ==> put_done(*old(self), *final(self), node, *metadata), // [C03,C13,C19,C02]
        final(self).frugal(old(self)), // [C05]
        !(!old(self).active_mounts@.dom().contains(node) && old(self).metas(false).dom().contains(node) && metadata.size < old(self).metas(false)[node].size) ==>
            final(self).thrifty(old(self)), // [C05]
        old(self).has_room(node) ==>
            final(self).v2_filechunk.v2_allocator.max() == old(self).v2_filechunk.v2_allocator.max(), // [C05]
@@ hint StableStorage::put_metadata_raw entry
    let ghost s0 = *self; let ghost cs = self.cs(); let ghost mt = self.active_mounts@.dom().contains(node);
    let ghost lim = if !mt && s0.metas(false).dom().contains(node) && metadata.size < s0.metas(false)[node].size { metadata.size as int } else { no_limit() };
@@ hint StableStorage::put_metadata_raw before "self.meta_provider.put_metadata($x:any);"
    let ghost s1 = *self;
    proof {
        lemma_cut_none(s0.f(), node); lemma_cut2_none(s0.p(), s0.b(), cs, node);
        assert(cut1(s0.f(), s1.f(), node, lim) && cut2(s0.p(), s0.b(), s1.p(), s1.b(), cs, node, lim) && meta_kept(s0.p(), s0.b(), s1.p(), s1.b()));
        lemma_meta_kept(s0.meta_provider, s0.p(), s0.b(), s1.p(), s1.b());
        assert(ptr_of(s1.p(), (node, mi(mt))) == ptr_of(s0.p(), (node, mi(mt)))) by { reveal(meta_kept); assert(s1.p().dom().contains((node, mi(mt))) <==> s0.p().dom().contains((node, mi(mt)))); }
    }
@@ hint StableStorage::put_metadata_raw after "self.meta_provider.put_metadata($x:any);"
    let ghost s2 = *self;
    proof { lemma_cut_put(s0.p(), s0.b(), s1.p(), s1.b(), s2.p(), s2.b(), cs, node, lim, (node, mi(mt))); }
@@ hint StableStorage::put_metadata_raw after "self.meta_provider.put_metadata($x:any);" #2
    proof { lemma_cut_put(s0.p(), s0.b(), s2.p(), s2.b(), self.p(), self.b(), cs, node, lim, (node, MI())); }
@@ hint StableStorage::put_metadata_raw end
    proof {
        let t = *self;
        assert forall|k: (u64, u32)| #[trigger] t.ptr_cache.pointers@.dom().contains(k) implies k.1 < maxc() && right(k, t.ptr_cache.pointers@[k], t.p()) by {
            assert(right(k, s1.ptr_cache.pointers@[k], s1.p()));
            assert(s2.p().dom().contains(k) <==> s1.p().dom().contains(k));
            assert(t.p().dom().contains(k) <==> s2.p().dom().contains(k));
        }
        assert(keys1_ok(t.f())) by { reveal(cut1); }
        assert(t.metas(true) =~= (if mt { s0.metas(true).insert(node, *metadata) } else { s0.metas(true) }));
        assert(t.metas(false) =~= (if !mt { s0.metas(false).insert(node, *metadata) }
            else if s0.metas(false).dom().contains(node) { s0.metas(false).insert(node, Metadata { link_count: metadata.link_count, ..s0.metas(false)[node] }) } else { s0.metas(false) }));
    }
@@ via Storage@StableStorage::put_metadata
let res_ = self.put_metadata_raw(node, metadata);
proof { if res_ is Ok { lemma_put(*old(self), *self, node, *metadata); } }
res_
@@ fn Storage@StableStorage::put_metadata [C02,C03,C04,C05,C08,C13,C14,C19]
    ensures
        final(self).frugal(old(self)), // [C05]
        !(!old(self).active_mounts@.dom().contains(node) && old(self).metas(false).dom().contains(node) && metadata.size < old(self).metas(false)[node].size) ==>
            final(self).thrifty(old(self)), // [C05]
        old(self).has_room(node) ==>
            final(self).v2_filechunk.v2_allocator.max() == old(self).v2_filechunk.v2_allocator.max(), // [C05]
@@ copy StableStorage::get_metadata_raw Storage@StableStorage::get_metadata
@@ fn StableStorage::get_metadata_raw [C19]
    requires self.base_wf(),
    ensures
        ({
            let act = self.metas(self.active_mounts@.dom().contains(node));
            &&& act.dom().contains(node) ==> r == Ok::<Metadata, Error>(act[node]) // [C19]
            &&& !act.dom().contains(node) ==> r == Err::<Metadata, Error>(Error::NoSuchFileOrDirectory)
        }),
@@ rewrite? StableStorage::get_metadata_raw
.map(|x| x.0)
=>
.map(|x: (Metadata, Option<FileChunkPtr>)| -> (y: Metadata) ensures y == x.0 { x.0 })
@@ rewrite Storage@StableStorage::mount_node
self.get_metadata(
=>
self.get_metadata_raw(
@@ rewrite Storage@StableStorage::mount_node
self.put_metadata(
=>
self.put_metadata_raw(
@@ fn Storage@StableStorage::mount_node [C02,C05,C13,C14]
    ensures final(self).thrifty(old(self)), // [C05]
@@ hint Storage@StableStorage::mount_node entry
    let ghost s0 = *self; let ghost mem = memory.mem(); let ghost pol = policy;
@@ hint Storage@StableStorage::mount_node after "self.active_mounts.insert($x:any);"
    let ghost s1 = *self;
    proof { assert(s1.metas(true) =~= s0.metas(true)); assert(s1.metas(false) =~= s0.metas(false)); assert(recs_ok(s1)); }
@@ hint Storage@StableStorage::mount_node end
    proof {
        let m = mounted_meta(s0.fsv(), node, pol, mem.len() as int);
        assert(file_meta == m);
        if result is Ok { lemma_mounted(s0, s1, *self, node, m); }
        else { assert(self.active_mounts@ =~= s0.active_mounts@); lemma_unmounted(s0, *self); }
    }
@@ rewrite Storage@StableStorage::init_mounted_memory
let memory: Box<dyn Memory>
=>
let mut memory: Box<dyn Memory>
@@ rewrite Storage@StableStorage::init_mounted_memory
memory.as_ref()
=>
&mut *memory
@@ rewrite Storage@StableStorage::init_mounted_memory
memory.write(
=>
(*memory).write(
@@ fn Storage@StableStorage::init_mounted_memory [C02,C05,C13]
    ensures final(self).thrifty(old(self)), // [C05]
@@ hint Storage@StableStorage::init_mounted_memory entry
    let ghost s0 = *self; let ghost v = self.fsv(); let ghost d = v.data[node]; let ghost n = d.len() as int; let ghost v1 = FsView { mounts: v.mounts.remove(node), ..v };
@@ hint Storage@StableStorage::init_mounted_memory loop1:before
    let ghost mem1 = memory.mem();
@@ loop Storage@StableStorage::init_mounted_memory 1
    invariant
        self.v2_filechunk == s0.v2_filechunk,
        offset + remainder == n, n == d.len(), n <= memory.mem().len(), memory.mem().len() == mem1.len(), buf@.len() == 65536,
        self.wf(), self.fsv() == v1, !v1.mounts.dom().contains(node), v1.meta.dom().contains(node), v1.meta[node].size == n, v1.data[node] == d, sane(v1),
        forall|i: int| 0 <= i < offset ==> #[trigger] memory.mem()[i] == d[i],
        forall|i: int| offset <= i < mem1.len() ==> #[trigger] memory.mem()[i] == mem1[i],
    decreases remainder,
@@ hint Storage@StableStorage::init_mounted_memory loop1:after
    let ghost mem2 = memory.mem();
    proof { assert(mem2.subrange(0, n) =~= d); }
@@ hint Storage@StableStorage::init_mounted_memory end
    proof {
        let w = self.fsv();
        assert(w.mounts =~= v.mounts.insert(node, mem2)); assert(w.mmeta =~= v.mmeta.insert(node, v.meta[node])); assert(w.meta =~= v.meta);
    }
@@ rewrite Storage@StableStorage::store_mounted_memory
let memory: Box<dyn Memory>
=>
let mut memory: Box<dyn Memory>
@@ rewrite Storage@StableStorage::store_mounted_memory
memory.as_ref()
=>
&mut *memory
@@ rewrite Storage@StableStorage::store_mounted_memory
memory.read(
=>
(*memory).read(
@@ fn Storage@StableStorage::store_mounted_memory [C02,C04,C13]
@@ hint Storage@StableStorage::store_mounted_memory entry
    let ghost s0 = *self; let ghost v = self.fsv(); let ghost d = v.data[node]; let ghost v1 = FsView { mounts: v.mounts.remove(node), ..v };
@@ hint Storage@StableStorage::store_mounted_memory before "return Err(Error::FileTooLarge);"
    proof { assert(self.fsv().mounts =~= v.mounts); assert(self.fsv().mmeta =~= v.mmeta); }
@@ hint Storage@StableStorage::store_mounted_memory loop1:before
    let ghost mem1 = memory.mem(); let ghost n = file_size as int;
    proof {
        let w0 = stored_part(v1, node, 0, mem1);
        assert(w0.meta =~= v1.meta); assert(w0.data[node] =~= v1.data[node]); assert(w0.data =~= v1.data); assert(w0 == v1);
    }
@@ loop Storage@StableStorage::store_mounted_memory 1
    invariant
        offset + remainder == n, n <= max_size_of(v1.meta[node]), n <= memory.mem().len(), memory.mem() == mem1, buf@.len() == 65536,
        self.wf(), self.fsv() == stored_part(v1, node, offset as int, mem1), !v1.mounts.dom().contains(node), v1.meta.dom().contains(node), sane(v1),
    decreases remainder,
@@ hint Storage@StableStorage::store_mounted_memory loop1:start
    let ghost o1 = offset as int;
@@ hint Storage@StableStorage::store_mounted_memory loop1:end
    proof {
        let w = stored_part(v1, node, offset as int, mem1); let x = self.fsv(); let y = stored_part(v1, node, o1, mem1);
        assert(x.meta =~= w.meta); assert(x.data[node] =~= w.data[node]); assert(x.data =~= w.data);
    }
@@ hint Storage@StableStorage::store_mounted_memory end
    proof {
        let w = self.fsv(); let m = v.mmeta[node];
        assert(w.mounts =~= v.mounts.insert(node, mem1));
        assert(w.meta =~= v.meta.insert(node, m)); assert(w.mmeta =~= v.mmeta);
        assert(w.data[node] =~= mem1.subrange(0, m.size as int));
        assert(w.data =~= v.data.insert(node, mem1.subrange(0, m.size as int)));
    }
@@ copy StableStorage::get_mounted_memory_mut Storage@StableStorage::get_mounted_memory
@@ sig StableStorage::get_mounted_memory_mut
(&self, node: Node) -> Option<&dyn Memory>
=>
(&mut self, node: Node) -> Option<&mut dyn Memory>
@@ rewrite StableStorage::get_mounted_memory_mut
Option<&Box<dyn Memory>>
=>
Option<&mut Box<dyn Memory>>
@@ rewrite StableStorage::get_mounted_memory_mut
self.active_mounts.get(&node)
=>
self.active_mounts.get_mut(&node)
@@ rewrite StableStorage::get_mounted_memory_mut
res.map(|b| b.as_ref())
=>
(match res { Some(b) => Some(&mut **b), None => None })
@@ fn StableStorage::get_mounted_memory_mut [C13]
    ensures
        !old(self).active_mounts@.dom().contains(node) ==> r is None && *final(self) == *old(self), // [C13]
        old(self).active_mounts@.dom().contains(node) ==> r is Some && r->0.mem() == old(self).active_mounts@[node].mem()
            && remounted(*old(self), *final(self), node) && final(self).active_mounts@[node].mem() == final(r->0).mem(), // [C13]
@@ rewrite Storage@StableStorage::get_mounted_memory
res.map(|b| b.as_ref())
=>
(match res { Some(b) => Some(&**b), None => None })
@@ fn Storage@StableStorage::get_mounted_memory [C13]
@@ fn Storage@StableStorage::resize_file [C03,C04,C05]
    ensures
        final(self).frugal(old(self)), // [C05]
        old(self).has_room(node) ==>
            final(self).v2_filechunk.v2_allocator.max() == old(self).v2_filechunk.v2_allocator.max(), // [C05]
@@ fn Storage@StableStorage::rm_file [C02,C05,C12,C13]
    ensures
        old(self).has_room(node) ==>
            final(self).v2_filechunk.v2_allocator.max() == old(self).v2_filechunk.v2_allocator.max(), // [C05]
@@ hint Storage@StableStorage::rm_file before "self.meta_provider.remove_metadata($x:any);"
    let ghost s1 = *self;
@@ hint Storage@StableStorage::rm_file end
    proof {
        lemma_removed(s1, *self, node);
        let v = old(self).fsv(); let w = self.fsv();
        assert(w.meta =~= v.meta.remove(node)); assert(w.mmeta =~= v.mmeta.remove(node)); assert(w.data =~= v.data.remove(node));
    }
@@ rewrite Storage@StableStorage::read
self.active_mounts.get(&node)
=>
self.active_mounts.get_mut(&node)
@@ rewrite Storage@StableStorage::read
memory.as_ref()
=>
&mut **memory
@@ rewrite Storage@StableStorage::read
memory.read(offset, &mut buf[..$x:any])
=>
(**memory).read(offset, &mut buf[0..$x])
@@ fn Storage@StableStorage::read [C01,C02,C03,C10,C13,C14]
    ensures final(self).v2_filechunk == old(self).v2_filechunk,
@@ hint Storage@StableStorage::read entry
    let ghost s0 = *self; let ghost buf0 = buf@;
@@ hint Storage@StableStorage::read before "let use_v2 = $x:any;"
    proof { assert(*self == s0); }
@@ hint Storage@StableStorage::read after "let use_v2 = $x:any;"
    proof {
        match metadata.chunk_type { Some(ChunkType::V2) => {}, Some(ChunkType::V1) => {}, None => {} }
        assert(use_v2 == kind_is(s0.p(), s0.metas(false)[node], node, true));
    }
@@ hint Storage@StableStorage::read after "let size_read = $x:any;"
    proof {
        let v = s0.fsv(); let w = self.fsv();
        if s0.active_mounts@.dom().contains(node) {
            lemma_remounted(s0, *self, node);
            assert(grown(v, w, node));
            assert(self.wf());
        } else {
            assert(self.metas(false) =~= s0.metas(false)); assert(self.metas(true) =~= s0.metas(true));
            assert(w.data =~= v.data); assert(w.mounts =~= v.mounts); assert(w == v);
            assert(self.wf());
            assert forall|i: int| 0 <= i < size_read implies #[trigger] buf@[i] == content(w, node)[offset + i] by {
                let v2 = kind_is(s0.p(), s0.metas(false)[node], node, true);
                lemma_kind(s0, node, v2, offset + i);
                assert(content(w, node)[offset + i] == s0.fsv().data[node][offset + i]);
                if v2 { assert(buf@[i] == byte2(s0.p(), s0.b(), s0.cs(), node, offset + i)); } else { assert(buf@[i] == byte1(s0.f(), node, offset + i)); }
            }
        }
    }
@@ rewrite Storage@StableStorage::write
self.get_mounted_memory(
=>
self.get_mounted_memory_mut(
@@ rewrite Storage@StableStorage::write
self.write_mounted(
=>
Self::write_mounted(
@@ rewrite Storage@StableStorage::write
self.put_metadata(
=>
self.put_metadata_raw(
@@ rewrite Storage@StableStorage::write
for chunk in chunk_infos.into_iter() $b:tt
=>
let mut ci_ = vec_iter(chunk_infos); while let Some(chunk) = ci_.next() $b
@@ rewrite Storage@StableStorage::write
self.write_chunks_v2($x:any)?
=>
{ let n_ = self.write_chunks_v2($x)?; proof { lemma_wrote_meta(s0, *self, node, div_up(off + bufs.len(), cs), off, off + bufs.len(), bufs); assert(chunks_written(s0, *self, node, off, bufs, true)); } n_ }
@@ fn Storage@StableStorage::write [C01,C02,C03,C04,C05,C10,C13]
    ensures final(self).thrifty(old(self)), // [C05]
@@ hint Storage@StableStorage::write entry
    let ghost s0 = *self; let ghost off = offset as int; let ghost bufs = buf@; let ghost cs = self.cs();
@@ hint Storage@StableStorage::write before "let use_v2 = $x:any;"
    broadcast use axiom_slice_len;
    proof { lemma_div_up_max(end as int, cs); assert(*self == s0); }
@@ loop Storage@StableStorage::write 1
    invariant
        bufs == buf@, off == offset, end == off + bufs.len(), bufs.len() <= 0x7fff_ffff_ffff_ffff, end <= max_file_size(),
        0 <= ci_.pos() <= ci_.seq().len(), tiles_o(ci_.seq(), off, end as int),
        off + written == tile_at(ci_.seq(), ci_.pos(), end as int),
        self.same_rest(&s0), self.v2_filechunk == s0.v2_filechunk, self.ptr_cache == s0.ptr_cache,
        v1_wrote(s0.f(), self.f(), node, off, off + written, bufs),
    ensures written == bufs.len(),
    decreases ci_.seq().len() - ci_.pos(),
@@ hint Storage@StableStorage::write loop1:before
    proof { lemma_v1_none(s0.f(), node, off, bufs); lemma_tile0(ci_.seq(), off, end as int); }
@@ hint Storage@StableStorage::write loop1:start
    let ghost f1 = self.f(); let ghost w1 = written as int;
    proof { lemma_tile(ci_.seq(), ci_.pos() - 1, off, end as int); assert(chunk == ci_.seq()[ci_.pos() - 1]); assert(off + w1 + chunk.len <= end); assert(w1 + chunk.len <= bufs.len()); assert(bufs.len() == buf.len()); }
@@ hint Storage@StableStorage::write loop1:end
    proof {
        assert(bufs.subrange(w1, w1 + chunk.len) == buf@.subrange(w1, w1 + chunk.len));
        lemma_v1_step(s0.f(), f1, self.f(), node, off, off + w1, bufs, chunk.index, chunk.offset as int, chunk.len as int);
    }
@@ hint Storage@StableStorage::write loop1:after
    proof { lemma_wrote_meta1(s0, *self, node, off, bufs); assert(chunks_written(s0, *self, node, off, bufs, false)); }
@@ hint Storage@StableStorage::write after "let written_size = $x:any;"
    let ghost s1 = *self; let ghost v2 = chunks_written(s0, s1, node, off, bufs, true);
    proof {
        if mounted { lemma_remounted(s0, s1, node); } else { assert(chunks_written(s0, s1, node, off, bufs, v2)); }
        assert(s1.base_wf()); assert(s1.metas(false) =~= s0.metas(false)); assert(s1.metas(true) =~= s0.metas(true)); assert(recs_ok(s1));
    }
@@ hint Storage@StableStorage::write before "let written_size = $x:any;"
    let ghost mounted = s0.active_mounts@.dom().contains(node);
@@ hint Storage@StableStorage::write end
    proof {
        if mounted { lemma_wrote_mounted(s0, s1, *self, node, off, bufs); }
        else { lemma_wrote(s0, s1, *self, node, off, bufs, v2); }
    }
@@ extra attr StableStorage::write_chunks_v2
#[verifier::spinoff_prover]
@@ extra attr StableStorage::put_metadata_raw
#[verifier::spinoff_prover]
@@ extra attr Storage@StableStorage::store_mounted_memory
#[verifier::spinoff_prover]
@@ extra attr StableStorage::resize_file_internal
#[verifier::spinoff_prover]
