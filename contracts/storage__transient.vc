@@ prelude
use crate::runtime::structure_helpers::*;
use crate::shim::*; use crate::shim::collections::FreshMap;
use crate::storage::stable::{maxc, byte1, cut1, lemma_cut1, lemma_div_rem, v1_wrote, ix1, lemma_v1_none, lemma_v1_step, tiles_o, tile_at, lemma_tile, lemma_tile0, keys1_ok, stored_part,
    lemma_ix, lemma_index, lemma_div_up, lemma_div_up_max, entries_of, from_of, is_specials, lemma_listing};

/// every chunk belongs to a file that has a place for it, and what is beyond the size is zero
pub open spec fn tchunks_ok(f: Map<(u64, u32), FileChunk>, meta: Map<u64, Metadata>) -> bool {
    &&& forall|k: (u64, u32)| #[trigger] f.dom().contains(k) ==> k.1 < maxc() && meta.dom().contains(k.0) && k.1 * 4096 < meta[k.0].size
    &&& forall|k: (u64, u32), x: int| f.dom().contains(k) && 0 <= x < 4096 && k.1 * 4096 + x >= meta[k.0].size ==> #[trigger] f[k].bytes@[x] == 0
}
pub proof fn lemma_tindex(i: int)
    requires 0 <= i < max_file_size(),
    ensures 0 <= i / 4096 < maxc(), 0 <= i % 4096 < 4096, (i / 4096) * 4096 + i % 4096 == i,
{
}
pub proof fn lemma_tzero(f: Map<(u64, u32), FileChunk>, meta: Map<u64, Metadata>, n: u64, i: int)
    requires tchunks_ok(f, meta), 0 <= i < max_file_size(), !meta.dom().contains(n) || meta[n].size <= i,
    ensures byte1(f, n, i) == 0,
{
    lemma_tindex(i);
    let k = (n, (i / 4096) as u32);
    if f.dom().contains(k) { assert(f[k].bytes@[i % 4096] == 0); }
}
pub proof fn lemma_tcut(f: Map<(u64, u32), FileChunk>, f2: Map<(u64, u32), FileChunk>, n: u64, lim: int, q: u64, i: int)
    requires cut1(f, f2, n, lim), 0 <= i < max_file_size(),
    ensures byte1(f2, q, i) == (if q == n && i >= lim { 0 } else { byte1(f, q, i) }),
{
    reveal(cut1);
    lemma_tindex(i);
    let k1 = (q, (i / 4096) as u32);
    assert(f2.dom().contains(k1) <==> f.dom().contains(k1) && (q != n || k1.1 * 4096 < lim));
    if f2.dom().contains(k1) { assert(f2[k1].bytes@[i % 4096] == f2[k1].bytes@[i % 4096]); }
}
pub proof fn lemma_tcut_ok(f: Map<(u64, u32), FileChunk>, f2: Map<(u64, u32), FileChunk>, meta: Map<u64, Metadata>, meta2: Map<u64, Metadata>, n: u64, lim: int)
    requires tchunks_ok(f, meta), cut1(f, f2, n, lim),
        forall|q: u64| #[trigger] meta.dom().contains(q) ==> meta2.dom().contains(q) && (meta2[q].size >= meta[q].size || (q == n && lim <= meta2[q].size)),
    ensures tchunks_ok(f2, meta2),
{
    reveal(cut1);
    assert forall|k: (u64, u32)| #[trigger] f2.dom().contains(k) implies k.1 < maxc() && meta2.dom().contains(k.0) && k.1 * 4096 < meta2[k.0].size by {
        assert(f.dom().contains(k) && meta.dom().contains(k.0));
    }
    assert forall|k: (u64, u32), x: int| f2.dom().contains(k) && 0 <= x < 4096 && k.1 * 4096 + x >= meta2[k.0].size implies #[trigger] f2[k].bytes@[x] == 0 by {
        assert(f.dom().contains(k) && meta.dom().contains(k.0));
        assert(f[k].bytes@[x] == f[k].bytes@[x]);
    }
}
/// the record of node `n` was stored
pub open spec fn tput_done(s: TransientStorage, t: TransientStorage, n: u64, m: Metadata) -> bool {
    &&& t.header == s.header && t.direntry == s.direntry && t.direntry_lookup == s.direntry_lookup && t.active_mounts == s.active_mounts
    &&& s.active_mounts@.dom().contains(n) ==> {
        &&& t.filechunk == s.filechunk && t.mounted_meta@ == s.mounted_meta@.insert(n, m)
        &&& t.metadata@ == (if s.metadata@.dom().contains(n) { s.metadata@.insert(n, Metadata { link_count: m.link_count, ..s.metadata@[n] }) } else { s.metadata@ })
    }
    &&& !s.active_mounts@.dom().contains(n) ==> {
        &&& t.mounted_meta == s.mounted_meta && t.metadata@ == s.metadata@.insert(n, m)
        &&& if s.metadata@.dom().contains(n) && m.size < s.metadata@[n].size { cut1(s.f(), t.f(), n, m.size as int) } else { t.f() == s.f() }
    }
}
pub proof fn lemma_tput(s: TransientStorage, t: TransientStorage, n: u64, m: Metadata)
    requires s.wf(), n < s.fsv().next_node, active(s.fsv()).dom().contains(n) || m.node == n, same_chunks(s.fsv(), n, m), !refused(s.fsv(), n, m), tput_done(s, t, n, m),
    ensures t.wf(), t.fsv() == with_meta(s.fsv(), n, m),
{
    let v = s.fsv(); let w = t.fsv(); let x = with_meta(v, n, m);
    assert(w.meta =~= x.meta);
    assert(w.mmeta =~= x.mmeta);
    assert(w.mounts =~= x.mounts);
    let mounted = v.mounts.dom().contains(n);
    let cut = !mounted && s.metadata@.dom().contains(n) && m.size < s.metadata@[n].size;
    if mounted { assert(v.meta.dom().contains(n)); }
    assert forall|q: u64| #[trigger] x.meta.dom().contains(q) implies x.meta[q].size <= max_size_of(x.meta[q]) by {
        if q != n { assert(v.meta.dom().contains(q)); }
    }
    assert(w.data.dom() =~= x.data.dom());
    assert(w.data =~= x.data) by {
        assert forall|q: u64| #[trigger] w.data.dom().contains(q) implies w.data[q] =~= x.data[q] by {
            assert(w.data[q].len() == x.data[q].len());
            assert forall|i: int| 0 <= i < w.data[q].len() implies w.data[q][i] == x.data[q][i] by {
                assert(x.meta.dom().contains(q));
                if cut { lemma_tcut(s.f(), t.f(), n, m.size as int, q, i); }
                if q == n && !mounted {
                    if !v.meta.dom().contains(n) || i >= v.meta[n].size { lemma_tzero(s.f(), s.metadata@, n, i); }
                }
            }
        }
    }
    if cut { lemma_tcut_ok(s.f(), t.f(), s.metadata@, t.metadata@, n, m.size as int); }
    else {
        assert forall|k: (u64, u32), y: int| t.f().dom().contains(k) && 0 <= y < 4096 && k.1 * 4096 + y >= t.metadata@[k.0].size implies #[trigger] t.f()[k].bytes@[y] == 0 by {
            assert(s.f().dom().contains(k)); assert(s.f()[k].bytes@[y] == 0);
        }
    }
    assert forall|q: u64| #[trigger] w.mounts.dom().contains(q) implies w.mmeta.dom().contains(q) && w.meta.dom().contains(q) && w.mmeta[q].link_count == w.meta[q].link_count by { assert(v.mounts.dom().contains(q)); }
    assert(sane(w));
}
/// the state after the memory mounted on `n` was written to
pub open spec fn tremounted(s: TransientStorage, t: TransientStorage, n: u64) -> bool {
    &&& t.header == s.header && t.direntry == s.direntry && t.direntry_lookup == s.direntry_lookup && t.filechunk == s.filechunk
    &&& t.metadata == s.metadata && t.mounted_meta == s.mounted_meta
    &&& s.active_mounts@.dom().contains(n)
    &&& t.active_mounts@ == s.active_mounts@.insert(n, t.active_mounts@[n])
}
pub proof fn lemma_tremounted(s: TransientStorage, t: TransientStorage, n: u64)
    requires tremounted(s, t, n),
    ensures s.wf() ==> t.wf(), t.fsv() == (FsView { mounts: s.fsv().mounts.insert(n, t.active_mounts@[n].mem()), ..s.fsv() }),
{
    assert(t.fsv().mounts =~= s.fsv().mounts.insert(n, t.active_mounts@[n].mem()));
    assert(t.fsv().meta =~= s.fsv().meta && t.fsv().mmeta =~= s.fsv().mmeta && t.fsv().data =~= s.fsv().data);
    if s.wf() { assert(s.fsv().mounts.dom().contains(n)); assert(sane(t.fsv())); }
}
pub open spec fn only_mounts(s: TransientStorage, t: TransientStorage) -> bool {
    &&& t.header == s.header && t.direntry == s.direntry && t.direntry_lookup == s.direntry_lookup && t.filechunk == s.filechunk
    &&& t.metadata == s.metadata && t.mounted_meta == s.mounted_meta
}
pub proof fn lemma_tunmounted(s: TransientStorage, t: TransientStorage)
    requires s.wf(), only_mounts(s, t), t.active_mounts@ == s.active_mounts@,
    ensures t.wf(), t.fsv() == s.fsv(),
{
    assert(t.fsv().mounts =~= s.fsv().mounts); assert(t.fsv().data =~= s.fsv().data); assert(t.fsv().meta =~= s.fsv().meta); assert(t.fsv().mmeta =~= s.fsv().mmeta);
}
pub proof fn lemma_tmounted(s: TransientStorage, s1: TransientStorage, t: TransientStorage, n: u64, m: Metadata)
    requires s.wf(), !s.active_mounts@.dom().contains(n), s.metadata@.dom().contains(n),
        only_mounts(s, s1), s1.active_mounts@ == s.active_mounts@.insert(n, s1.active_mounts@[n]),
        tput_done(s1, t, n, m), m.node == n, m.size <= max_size_of(m), m.chunk_type == s.metadata@[n].chunk_type,
        m.file_type == s.metadata@[n].file_type, m.link_count == s.metadata@[n].link_count,
    ensures t.wf(), t.fsv() == (FsView { mounts: s.fsv().mounts.insert(n, s1.active_mounts@[n].mem()), mmeta: s.fsv().mmeta.insert(n, m), ..s.fsv() }),
{
    let v = s.fsv(); let w = t.fsv();
    assert(t.metadata@ =~= s.metadata@);
    assert(w.meta =~= v.meta);
    assert(w.mounts =~= v.mounts.insert(n, s1.active_mounts@[n].mem()));
    assert(w.mmeta =~= v.mmeta.insert(n, m));
    assert(w.data =~= v.data);
    assert(v.meta.dom().contains(n));
    assert(sane(w));
}
/// the content after a write into the chunks
pub proof fn lemma_twrote(s: TransientStorage, t1: TransientStorage, t: TransientStorage, n: u64, off: int, buf: Seq<u8>)
    requires
        s.wf(), s.metadata@.dom().contains(n), !s.active_mounts@.dom().contains(n),
        off >= 0, buf.len() > 0, off + buf.len() <= max_size_of(s.metadata@[n]),
        t1 == (TransientStorage { filechunk: t1.filechunk, ..s }), v1_wrote(s.f(), t1.f(), n, off, off + buf.len(), buf),
        off + buf.len() <= s.metadata@[n].size ==> t == t1,
        off + buf.len() > s.metadata@[n].size ==> tput_done(t1, t, n, wrote_meta(s.metadata@[n], off, buf.len() as int)),
    ensures t.wf(), wrote(s.fsv(), t.fsv(), n, off, buf),
{
    let v = s.fsv(); let w = t.fsv(); let m = wrote_meta(v.meta[n], off, buf.len() as int); let end = off + buf.len();
    assert(v.meta.dom().contains(n));
    assert(t.f() == t1.f());
    assert(t.metadata@ =~= s.metadata@.insert(n, m));
    let f = s.f(); let f2 = t1.f(); let meta2 = t.metadata@;
    reveal(v1_wrote);
    assert forall|k: (u64, u32)| #[trigger] f2.dom().contains(k) implies k.1 < maxc() && meta2.dom().contains(k.0) && k.1 * 4096 < meta2[k.0].size by {
        if f.dom().contains(k) {} else { assert(k.0 == n); }
    }
    assert forall|k: (u64, u32), x: int| f2.dom().contains(k) && 0 <= x < 4096 && k.1 * 4096 + x >= meta2[k.0].size implies #[trigger] f2[k].bytes@[x] == 0 by {
        if f.dom().contains(k) { assert(f[k].bytes@[x] == 0); }
    }
    assert forall|q: u64, i: int| 0 <= i < max_file_size() implies #[trigger] byte1(f2, q, i) == (if q == n && off <= i < end { buf[i - off] } else { byte1(f, q, i) }) by {
        lemma_tindex(i);
        let k1 = (q, (i / 4096) as u32); let x = i % 4096;
        if q == n && off <= i < end { assert(ix1(i) == k1.1); assert(f2.dom().contains((n, ix1(i)))); }
        if f2.dom().contains(k1) {
            assert(k1.1 * 4096 + x == i);
            assert(f2[k1].bytes@[x] == f2[k1].bytes@[x]);
        } else { assert(!f.dom().contains(k1)); }
    }
    let x = FsView { meta: v.meta.insert(n, m), data: v.data.insert(n, written(v.data[n], off, buf)), ..v };
    assert(w.mounts =~= v.mounts);
    assert(w.meta =~= x.meta);
    assert(w.mmeta =~= x.mmeta);
    assert(w.data.dom() =~= x.data.dom());
    assert(w.data =~= x.data) by {
        assert forall|q: u64| #[trigger] w.data.dom().contains(q) implies w.data[q] =~= x.data[q] by {
            assert(x.meta.dom().contains(q));
            if q != n { assert(v.meta.dom().contains(q)); }
            assert(w.data[q].len() == x.data[q].len());
            assert forall|i: int| 0 <= i < w.data[q].len() implies w.data[q][i] == x.data[q][i] by {
                assert(byte1(f2, q, i) == (if q == n && off <= i < end { buf[i - off] } else { byte1(f, q, i) }));
                if q == n && i >= v.meta[n].size { lemma_tzero(f, s.metadata@, n, i); }
            }
        }
    }
    assert(sane(w));
}
/// a part of a write into a mounted memory
pub open spec fn mem_wrote(m0: Seq<u8>, m1: Seq<u8>, off: int, upto: int, buf: Seq<u8>) -> bool {
    &&& m1.len() >= m0.len() && (upto > off ==> m1.len() >= upto)
    &&& forall|i: int| off <= i < upto ==> #[trigger] m1[i] == buf[i - off]
    &&& forall|i: int| 0 <= i < m0.len() && !(off <= i < upto) ==> #[trigger] m1[i] == m0[i]
}
pub proof fn lemma_twrote_mounted(s: TransientStorage, t1: TransientStorage, t: TransientStorage, n: u64, off: int, buf: Seq<u8>)
    requires
        s.wf(), tremounted(s, t1, n), s.mounted_meta@.dom().contains(n), s.active_mounts@.dom().contains(n),
        off >= 0, buf.len() > 0, off + buf.len() <= max_size_of(s.mounted_meta@[n]),
        mem_wrote(s.active_mounts@[n].mem(), t1.active_mounts@[n].mem(), off, off + buf.len(), buf),
        off + buf.len() <= s.mounted_meta@[n].size ==> t == t1,
        off + buf.len() > s.mounted_meta@[n].size ==> tput_done(t1, t, n, wrote_meta(s.mounted_meta@[n], off, buf.len() as int)),
    ensures t.wf(), wrote(s.fsv(), t.fsv(), n, off, buf),
{
    let v = s.fsv(); let w = t.fsv(); let m = wrote_meta(v.mmeta[n], off, buf.len() as int);
    lemma_tremounted(s, t1, n);
    assert(v.mounts.dom().contains(n));
    if off + buf.len() > s.mounted_meta@[n].size {
        lemma_tput(t1, t, n, m);
        assert(w.meta =~= v.meta);
    }
    assert(w.mmeta =~= v.mmeta.insert(n, m));
    assert(w.mounts =~= v.mounts.insert(n, w.mounts[n]));
    assert(w.mounts[n].subrange(off, off + buf.len()) =~= buf);
}
@@ drop derive Default TransientStorage
@@ extra TransientStorage
    pub open spec fn f(&self) -> Map<(u64, u32), FileChunk> { self.filechunk@ }
@@ extra Storage@TransientStorage
    open spec fn wf(&self) -> bool {
        &&& tchunks_ok(self.f(), self.metadata@)
        &&& self.direntry_lookup@ == Map::<(u64, Seq<u8>), u32>::empty()
        &&& sane(self.fsv())
    }
    open spec fn fsv(&self) -> FsView {
        FsView {
            meta: IMap::new(|n: u64| self.metadata@.dom().contains(n), |n: u64| self.metadata@[n]),
            mmeta: IMap::new(|n: u64| self.mounted_meta@.dom().contains(n), |n: u64| self.mounted_meta@[n]),
            data: IMap::new(|n: u64| self.metadata@.dom().contains(n),
                |n: u64| Seq::new(self.metadata@[n].size as nat, |i: int| byte1(self.f(), n, i))),
            entries: self.direntry@,
            mounts: IMap::new(|n: u64| self.active_mounts@.dom().contains(n), |n: u64| self.active_mounts@[n].mem()),
            next_node: self.header.next_node,
            chunk_type: ChunkType::V1,
            chunk_size: 4096,
        }
    }
    proof fn lemma_sane(tracked &self) {}
    fn direntries(&self, node: Node, initial_index: Option<DirEntryIndex>) -> (r: Vec<(DirEntryIndex, DirEntry)>) {
        let mut v = Visitor::new();
        self.visit_direntries(node, initial_index, &mut v);
        v.into_vec()
    }
@@ drop Storage@TransientStorage::with_direntries -- verified as visit_direntries, with a visitor that notes what it is called with
@@ copy TransientStorage::visit_direntries Storage@TransientStorage::with_direntries
@@ sig TransientStorage::visit_direntries
f: &mut dyn FnMut(&DirEntryIndex, &DirEntry) -> bool
=>
f: &mut Visitor<DirEntry>
@@ rewrite TransientStorage::visit_direntries
f($a:any, $b:any)
=>
f.call($a, $b)
@@ rewrite TransientStorage::visit_direntries
for ((_node, $i:id), $e:id) in self.direntry.range($r:any) $b:tt
=>
let mut range_ = self.direntry.range($r); while let Some((key_, $e)) = range_.next() { let $i = &key_.1; $b }
@@ fn TransientStorage::visit_direntries [C16,C18]
    requires !old(f).stopped(), old(f).seen() == Seq::<(u32, DirEntry)>::empty(),
    ensures
        final(f).eager() == old(f).eager(), old(f).eager() ==> !final(f).stopped(),
        final(f).stopped() ==> is_listing_prefix(final(f).seen(), self.direntry@, node, initial_index), // [C16,C18]
        !final(f).stopped() ==> is_listing(final(f).seen(), self.direntry@, node, initial_index), // [C16,C18]
@@ extra attr TransientStorage::visit_direntries
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ hint TransientStorage::visit_direntries entry
    let ghost init = initial_index; let ghost es = self.direntry@;
@@ hint TransientStorage::visit_direntries loop1:before
    let ghost pre = f.seen(); let ghost all = range_.seq();
    proof { lemma_listing(pre, all, 0, es, node, init, initial_index, max_index); }
@@ loop TransientStorage::visit_direntries 1
    invariant
        0 <= range_.pos() <= all.len(), all == range_.seq(), is_range(all, es, (node, initial_index), (node, max_index)), !f.stopped(), f.eager() == old(f).eager(), es == self.direntry@,
        f.seen() == pre + entries_of(all, range_.pos()), is_specials(pre, node, init), initial_index == from_of(init), max_index == 4294967285,
    ensures range_.pos() == all.len(),
    decreases all.len() - range_.pos(),
@@ hint TransientStorage::visit_direntries loop1:after
    proof { lemma_listing(pre, all, all.len() as int, es, node, init, initial_index, max_index); }
@@ rewrite TransientStorage::visit_direntries
if !f.call(index, entry) $b:tt
=>
let go_ = f.call(index, entry); proof { assert(f.seen() =~= pre + entries_of(all, range_.pos())); lemma_listing(pre, all, range_.pos(), es, node, init, initial_index, max_index); } if !go_ $b
@@ fn TransientStorage::new [C18]
    ensures r.wf(), r.fsv().next_node == 1, // [C18]
        forall|n: u64| #[trigger] r.fsv().meta.dom().contains(n) <==> n == 0,
        r.fsv().mmeta == IMap::<u64, Metadata>::empty(), r.fsv().mounts == IMap::<u64, Seq<u8>>::empty(), r.fsv().entries == Map::<(u64, u32), DirEntry>::empty(),
        r.fsv().meta[0].file_type == FileType::Directory, r.fsv().meta[0].size == 0, r.fsv().meta[0].link_count == 1, // [C18]
@@ rewrite TransientStorage::new
$f:id: Default::default()
=>
$f: FreshMap::fresh()
@@ fn TransientStorage::write_filechunk [C01,C02,C13,C18]
    requires offset + buf@.len() <= 4096,
    ensures
        old(self).active_mounts@.dom().contains(node) ==> tremounted(*old(self), *final(self), node)
            && mem_wrote(old(self).active_mounts@[node].mem(), final(self).active_mounts@[node].mem(), index * 4096 + offset, index * 4096 + offset + buf@.len(), buf@), // [C18,C13]
        !old(self).active_mounts@.dom().contains(node) ==> *final(self) == (TransientStorage { filechunk: final(self).filechunk, ..*old(self) }) // [C18,C02]
            && final(self).f() == old(self).f().insert((node, index), final(self).f()[(node, index)]) // [C18,C02]
            && final(self).f()[(node, index)].bytes@ == splice(if old(self).f().dom().contains((node, index)) { old(self).f()[(node, index)].bytes@ } else { zeros(4096) }, offset as int, buf@), // [C18,C01]
@@ rewrite TransientStorage::write_filechunk
self.get_mounted_memory(
=>
self.get_mounted_memory_mut(
@@ rewrite TransientStorage::write_filechunk
self.filechunk.entry($k:any).or_default()
=>
self.filechunk.entry_or_default($k)
@@ fn TransientStorage::validate_metadata_update [C03,C04,C18]
    ensures
        r is Err <==> (old_meta is Some && (old_meta->0.file_type != new_meta.file_type || old_meta->0.node != new_meta.node)) || new_meta.size > max_size_of(*new_meta), // [C04,C03,C18]
@@ rewrite TransientStorage::truncate_chunks
for ($k:id, _v) in self.filechunk.range($r:any) $b:tt
=>
let mut keys1_ = self.filechunk.range($r); while let Some(($k, _v)) = keys1_.next() $b
@@ rewrite TransientStorage::truncate_chunks
for ($x:id, $y:id) in chunks.into_iter() $b:tt
=>
let mut rm_ = vec_iter(chunks); while let Some(($x, $y)) = rm_.next() $b
@@ fn TransientStorage::truncate_chunks [C01,C03,C05,C18]
    requires new_size <= max_file_size(), keys1_ok(old(self).f()),
    ensures
        *final(self) == (TransientStorage { filechunk: final(self).filechunk, ..*old(self) }), // [C18,C02]
        cut1(old(self).f(), final(self).f(), node, new_size as int), // [C03,C18,C02]
@@ hint TransientStorage::truncate_chunks entry
    let ghost s0 = *self; let ghost f0 = self.f(); let ghost ns = new_size as int; let ghost d1 = div_up(ns, 4096);
    proof { lemma_div_up(ns, 4096); lemma_div_up_max(ns, 4096); lemma_ix(ns, 4096); lemma_div_rem(ns, 4096); }
@@ hint TransientStorage::truncate_chunks loop1:before
    let ghost all = keys1_.seq();
@@ loop TransientStorage::truncate_chunks 1
    invariant
        0 <= d1 <= maxc(), 0 <= keys1_.pos() <= keys1_.seq().len(), all == keys1_.seq(), is_range(all, f0, (node, d1 as u32), (node, MAX_FILE_CHUNK_COUNT)),
        chunks@.len() == keys1_.pos(), forall|i: int| 0 <= i < chunks@.len() ==> #[trigger] chunks@[i] == all[i].0,
    ensures chunks@.len() == all.len(),
    decreases keys1_.seq().len() - keys1_.pos(),
@@ hint TransientStorage::truncate_chunks loop2:before
    proof {
        assert(is_keys_range(rm_.seq(), f0.dom(), (node, d1 as u32), (node, MAX_FILE_CHUNK_COUNT))) by {
            assert forall|k: (u64, u32)| #[trigger] f0.dom().contains(k) && !key_lt(k, (node, d1 as u32)) && key_lt(k, (node, MAX_FILE_CHUNK_COUNT))
                implies exists|i: int| 0 <= i < rm_.seq().len() && #[trigger] rm_.seq()[i] == k by {
                let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k;
                assert(rm_.seq()[i] == k);
            }
        }
    }
@@ loop TransientStorage::truncate_chunks 2
    invariant
        0 <= rm_.pos() <= rm_.seq().len(), is_keys_range(rm_.seq(), f0.dom(), (node, d1 as u32), (node, MAX_FILE_CHUNK_COUNT)),
        0 <= d1 <= maxc(), *self == (TransientStorage { filechunk: self.filechunk, ..s0 }),
        forall|k: (u64, u32)| #[trigger] self.f().dom().contains(k) ==> f0.dom().contains(k) && self.f()[k] == f0[k],
        forall|k: (u64, u32)| #[trigger] f0.dom().contains(k) && !(k.0 == node && d1 <= k.1) ==> self.f().dom().contains(k),
        forall|i: int| 0 <= i < rm_.pos() ==> !self.f().dom().contains(#[trigger] rm_.seq()[i]),
    ensures rm_.pos() == rm_.seq().len(),
    decreases rm_.seq().len() - rm_.pos(),
@@ hint TransientStorage::truncate_chunks loop2:start
    let ghost fb = self.f();
@@ hint TransientStorage::truncate_chunks loop2:end
    proof { assert(self.f() =~= fb.remove((node, idx))); }
@@ hint TransientStorage::truncate_chunks loop2:after
    proof {
        assert forall|k: (u64, u32)| #[trigger] self.f().dom().contains(k) implies !(k.0 == node && d1 <= k.1) by {
            if k.0 == node && d1 <= k.1 { let i = choose|i: int| 0 <= i < rm_.seq().len() && #[trigger] rm_.seq()[i] == k; }
        }
    }
    let ghost f1 = self.f();
@@ hint TransientStorage::truncate_chunks bodyend
    proof {
        let key = (node, (d1 - 1) as u32);
        if ns % 4096 > 0 && f1.dom().contains(key) {
            assert(self.f()[key].bytes@ =~= splice(f1[key].bytes@, ns % 4096, zeros(4096 - ns % 4096)));
        }
        lemma_cut1(f0, f1, self.f(), node, ns);
    }
@@ fn Storage@TransientStorage::root_node [C14,C18]
@@ fn Storage@TransientStorage::get_version [C14,C18]
@@ fn Storage@TransientStorage::new_node [C02,C05,C14,C18]
@@ hint Storage@TransientStorage::new_node end
    proof { let v = old(self).fsv(); let w = self.fsv(); assert(w.meta =~= v.meta && w.mmeta =~= v.mmeta && w.data =~= v.data && w.mounts =~= v.mounts); }
@@ fn Storage@TransientStorage::get_metadata [C18,C19]
@@ copy TransientStorage::get_metadata_raw Storage@TransientStorage::get_metadata
@@ fn TransientStorage::get_metadata_raw [C18]
    ensures
        ({
            let act = if self.active_mounts@.dom().contains(node) { self.mounted_meta@ } else { self.metadata@ };
            &&& act.dom().contains(node) ==> r == Ok::<Metadata, Error>(act[node]) // [C18]
            &&& !act.dom().contains(node) ==> r == Err::<Metadata, Error>(Error::NoSuchFileOrDirectory)
        }),
@@ copy TransientStorage::put_metadata_raw Storage@TransientStorage::put_metadata
@@ fn TransientStorage::put_metadata_raw [C03,C04,C18]
    requires keys1_ok(old(self).f()),
    ensures
        ({
            let act = if old(self).active_mounts@.dom().contains(node) { old(self).mounted_meta@ } else { old(self).metadata@ };
            r is Err <==> metadata.size > max_size_of(*metadata) || (act.dom().contains(node) && (act[node].file_type != metadata.file_type || act[node].node != metadata.node))
        }), // [C18,C04]
        r is Err ==> *final(self) == *old(self), // [C18,C04]
        r is Ok ==> tput_done(*old(self), *final(self), node, *metadata), // [C18,C03]
@@ via Storage@TransientStorage::put_metadata
let res_ = self.put_metadata_raw(node, metadata);
proof { if res_ is Ok { lemma_tput(*old(self), *self, node, *metadata); } }
res_
@@ fn Storage@TransientStorage::put_metadata [C03,C04,C18]
@@ fn Storage@TransientStorage::get_direntry [C06,C07,C16,C18]
@@ fn Storage@TransientStorage::get_direntry_index_by_name [C06,C07,C16,C17,C18]
@@ fn Storage@TransientStorage::new_direntry_index [C16,C18]
@@ rewrite Storage@TransientStorage::new_direntry_index
self.direntry.range(start..=end).next_back()
=>
{ let mut range_ = self.direntry.range_incl(start, end); range_.next_back() }
@@ hint Storage@TransientStorage::new_direntry_index entry
    proof { lemma_next_idx(self.direntry@, node); }
@@ hint Storage@TransientStorage::new_direntry_index end
    proof { if forall|k: u32| !(#[trigger] self.direntry@.dom().contains((node, k))) { assert(is_next(self.direntry@, node, 1)); } }
@@ rewrite Storage@TransientStorage::new_direntry_index
panic!($x:any)
=>
{ assert(false); }
@@ fn Storage@TransientStorage::put_direntry [C06,C16,C17,C18]
@@ fn Storage@TransientStorage::rm_direntry [C06,C08,C16,C18]
@@ fn Storage@TransientStorage::is_mounted [C12,C13,C18]
@@ fn Storage@TransientStorage::set_chunk_type [C18]
@@ fn Storage@TransientStorage::chunk_type [C18,C19]
@@ fn Storage@TransientStorage::chunk_size [C18]
@@ fn Storage@TransientStorage::set_chunk_size [C18]
@@ fn Storage@TransientStorage::flush [C14,C18]
@@ fn Storage@TransientStorage::unmount_node [C13,C18]
@@ hint Storage@TransientStorage::unmount_node end
    proof {
        let v = old(self).fsv(); let w = self.fsv();
        assert(w.mounts =~= v.mounts.remove(node));
        assert(w.meta =~= v.meta && w.mmeta =~= v.mmeta && w.data =~= v.data);
        if !v.mounts.dom().contains(node) { assert(w.mounts =~= v.mounts); }
    }
@@ rewrite Storage@TransientStorage::mount_node
self.get_metadata(
=>
self.get_metadata_raw(
@@ rewrite Storage@TransientStorage::mount_node
self.put_metadata(
=>
self.put_metadata_raw(
@@ fn Storage@TransientStorage::mount_node [C13,C18]
@@ hint Storage@TransientStorage::mount_node entry
    let ghost s0 = *self; let ghost mem = memory.mem(); let ghost pol = policy;
@@ hint Storage@TransientStorage::mount_node after "self.active_mounts.insert($x:any);"
    let ghost s1 = *self;
@@ hint Storage@TransientStorage::mount_node end
    proof {
        let m = mounted_meta(s0.fsv(), node, pol, mem.len() as int);
        assert(file_meta == m);
        assert(s0.fsv().meta.dom().contains(node));
        if s0.mounted_meta@.dom().contains(node) { assert(s0.fsv().mmeta.dom().contains(node)); }
        if result is Ok { lemma_tmounted(s0, s1, *self, node, m); }
        else { assert(self.active_mounts@ =~= s0.active_mounts@); lemma_tunmounted(s0, *self); }
    }
@@ rewrite Storage@TransientStorage::init_mounted_memory
let memory: Box<dyn Memory>
=>
let mut memory: Box<dyn Memory>
@@ rewrite Storage@TransientStorage::init_mounted_memory
memory.as_ref()
=>
&mut *memory
@@ rewrite Storage@TransientStorage::init_mounted_memory
memory.write(
=>
(*memory).write(
@@ fn Storage@TransientStorage::init_mounted_memory [C13,C18]
@@ hint Storage@TransientStorage::init_mounted_memory entry
    let ghost s0 = *self; let ghost v = self.fsv(); let ghost d = v.data[node]; let ghost n = d.len() as int; let ghost v1 = FsView { mounts: v.mounts.remove(node), ..v };
@@ hint Storage@TransientStorage::init_mounted_memory loop1:before
    let ghost mem1 = memory.mem();
@@ loop Storage@TransientStorage::init_mounted_memory 1
    invariant
        offset + remainder == n, n == d.len(), n <= memory.mem().len(), memory.mem().len() == mem1.len(), buf@.len() == 65536,
        self.wf(), self.fsv() == v1, !v1.mounts.dom().contains(node), v1.meta.dom().contains(node), v1.meta[node].size == n, v1.data[node] == d, sane(v1),
        forall|i: int| 0 <= i < offset ==> #[trigger] memory.mem()[i] == d[i],
        forall|i: int| offset <= i < mem1.len() ==> #[trigger] memory.mem()[i] == mem1[i],
    decreases remainder,
@@ hint Storage@TransientStorage::init_mounted_memory loop1:after
    let ghost mem2 = memory.mem();
    proof { assert(mem2.subrange(0, n) =~= d); }
@@ hint Storage@TransientStorage::init_mounted_memory end
    proof {
        let w = self.fsv();
        assert(w.mounts =~= v.mounts.insert(node, mem2)); assert(w.mmeta =~= v.mmeta.insert(node, v.meta[node])); assert(w.meta =~= v.meta);
    }
@@ rewrite Storage@TransientStorage::store_mounted_memory
let memory: Box<dyn Memory>
=>
let mut memory: Box<dyn Memory>
@@ rewrite Storage@TransientStorage::store_mounted_memory
memory.as_ref()
=>
&mut *memory
@@ rewrite Storage@TransientStorage::store_mounted_memory
memory.read(
=>
(*memory).read(
@@ fn Storage@TransientStorage::store_mounted_memory [C13,C18]
@@ hint Storage@TransientStorage::store_mounted_memory entry
    let ghost s0 = *self; let ghost v = self.fsv(); let ghost d = v.data[node]; let ghost v1 = FsView { mounts: v.mounts.remove(node), ..v };
@@ hint Storage@TransientStorage::store_mounted_memory before "return Err(Error::FileTooLarge);"
    proof { assert(self.fsv().mounts =~= v.mounts); assert(self.fsv().mmeta =~= v.mmeta); }
@@ hint Storage@TransientStorage::store_mounted_memory loop1:before
    let ghost mem1 = memory.mem(); let ghost n = file_size as int;
    proof {
        let w0 = stored_part(v1, node, 0, mem1);
        assert(w0.meta =~= v1.meta); assert(w0.data[node] =~= v1.data[node]); assert(w0.data =~= v1.data); assert(w0 == v1);
    }
@@ loop Storage@TransientStorage::store_mounted_memory 1
    invariant
        offset + remainder == n, n <= max_size_of(v1.meta[node]), n <= memory.mem().len(), memory.mem() == mem1, buf@.len() == 65536,
        self.wf(), self.fsv() == stored_part(v1, node, offset as int, mem1), !v1.mounts.dom().contains(node), v1.meta.dom().contains(node), sane(v1),
    decreases remainder,
@@ hint Storage@TransientStorage::store_mounted_memory loop1:start
    let ghost o1 = offset as int;
@@ hint Storage@TransientStorage::store_mounted_memory loop1:end
    proof {
        let w = stored_part(v1, node, offset as int, mem1); let x = self.fsv(); let y = stored_part(v1, node, o1, mem1);
        assert(x.meta =~= w.meta); assert(x.data[node] =~= w.data[node]); assert(x.data =~= w.data);
    }
@@ hint Storage@TransientStorage::store_mounted_memory end
    proof {
        let w = self.fsv(); let m = v.mmeta[node];
        assert(w.mounts =~= v.mounts.insert(node, mem1));
        assert(w.meta =~= v.meta.insert(node, m)); assert(w.mmeta =~= v.mmeta);
        assert(w.data[node] =~= mem1.subrange(0, m.size as int));
        assert(w.data =~= v.data.insert(node, mem1.subrange(0, m.size as int)));
    }
@@ copy TransientStorage::get_mounted_memory_mut Storage@TransientStorage::get_mounted_memory
@@ sig TransientStorage::get_mounted_memory_mut
(&self, node: Node) -> Option<&dyn Memory>
=>
(&mut self, node: Node) -> Option<&mut dyn Memory>
@@ rewrite TransientStorage::get_mounted_memory_mut
self.active_mounts.get(&node)
=>
self.active_mounts.get_mut(&node)
@@ rewrite TransientStorage::get_mounted_memory_mut
res.map(|b| b.as_ref())
=>
(match res { Some(b) => Some(&mut **b), None => None })
@@ fn TransientStorage::get_mounted_memory_mut [C13,C18]
    ensures
        !old(self).active_mounts@.dom().contains(node) ==> r is None && *final(self) == *old(self), // [C13]
        old(self).active_mounts@.dom().contains(node) ==> r is Some && r->0.mem() == old(self).active_mounts@[node].mem()
            && tremounted(*old(self), *final(self), node) && final(self).active_mounts@[node].mem() == final(r->0).mem(), // [C13]
@@ rewrite Storage@TransientStorage::get_mounted_memory
res.map(|b| b.as_ref())
=>
(match res { Some(b) => Some(&**b), None => None })
@@ fn Storage@TransientStorage::get_mounted_memory [C13,C18]
@@ fn Storage@TransientStorage::resize_file [C03,C18]
@@ fn Storage@TransientStorage::rm_file [C13,C18]
@@ hint Storage@TransientStorage::rm_file before "self.mounted_meta.remove($x:any);"
    let ghost s1 = *self;
@@ hint Storage@TransientStorage::rm_file end
    proof {
        let v = old(self).fsv(); let w = self.fsv();
        assert forall|k: (u64, u32)| #[trigger] s1.f().dom().contains(k) implies k.0 != node by { assert(s1.fsv().meta[node].size == 0); }
        assert(v.meta.dom().contains(node)); assert(s1.fsv().meta =~= v.meta.insert(node, s1.fsv().meta[node]));
        assert(w.meta =~= s1.fsv().meta.remove(node)); assert(w.mmeta =~= s1.fsv().mmeta.remove(node));
        assert(w.meta =~= v.meta.remove(node)); assert(w.mmeta =~= v.mmeta.remove(node)); assert(w.mounts =~= v.mounts);
        assert(w.data =~= s1.fsv().data.remove(node));
        assert(w.data =~= v.data.remove(node));
        assert(sane(w));
    }
@@ rewrite Storage@TransientStorage::read
self.active_mounts.get(&node)
=>
self.active_mounts.get_mut(&node)
@@ rewrite Storage@TransientStorage::read
memory.as_ref()
=>
&mut **memory
@@ rewrite Storage@TransientStorage::read
memory.read(offset, &mut buf[..$x:any])
=>
(**memory).read(offset, &mut buf[0..$x])
@@ rewrite Storage@TransientStorage::read
read_buf.iter_mut().for_each($f:any)
=>
fill_zero(read_buf)
@@ rewrite Storage@TransientStorage::read
if let Some((($a:id, $b:id), value)) = cur_fetched {
=>
if let Some((key_, value)) = cur_fetched { let $a = &key_.0; let $b = &key_.1;
@@ fn Storage@TransientStorage::read [C01,C13,C18]
@@ hint Storage@TransientStorage::read entry
    broadcast use axiom_slice_len;
    let ghost s0 = *self; let ghost buf0 = buf@; let ghost n = buf@.len() as int; let ghost off = offset as int; let ghost f = self.f(); let ghost start = off / 4096;
@@ hint Storage@TransientStorage::read loop1:before
    let ghost all = iter.seq();
    let ghost total = read_len(file_size as int, off, n);
@@ loop Storage@TransientStorage::read 1
    invariant_except_break
        size_read < total ==> offset + size_read == cur_index * 4096 + chunk_offset,
        cur_fetched is None ==> (iter.pos() == 0 && cur_index == start) || (iter.pos() > 0 && all[iter.pos() - 1].0.1 == cur_index - 1) || iter.pos() == all.len(),
        cur_fetched is Some ==> iter.pos() > 0 && *(cur_fetched->0).0 == all[iter.pos() - 1].0 && *(cur_fetched->0).1 == all[iter.pos() - 1].1
            && all[iter.pos() - 1].0.1 >= cur_index,
        forall|j: int| 0 <= j < (if cur_fetched is Some { iter.pos() - 1 } else { iter.pos() }) ==> (#[trigger] all[j]).0.1 < cur_index,
    invariant
        f == s0.f(), keys1_ok(f), n == buf@.len(), buf0.len() == n, off == offset, start == off / 4096, start == start_index, total == read_len(file_size as int, off, n), offset < file_size <= max_file_size(),
        all == iter.seq(), 0 <= iter.pos() <= all.len(), is_range(all, f, (node, start_index), (node, MAX_FILE_CHUNK_COUNT)),
        size_read + remainder == file_size - off, size_read <= total, end_index <= 4294967286, chunk_offset < 4096,
        end_index == (if off + n < file_size { off + n } else { file_size as int }) / 4096 + 1,
        start <= cur_index,
        forall|i: int| 0 <= i < size_read ==> #[trigger] buf@[i] == byte1(f, node, off + i),
        forall|i: int| size_read <= i < n ==> #[trigger] buf@[i] == buf0[i],
    ensures size_read == total,
@@ hint Storage@TransientStorage::read before "let read_buf = $x:any;"
    let ghost hit = cur_fetched is Some && all[iter.pos() - 1].0.1 == cur_index; let ghost buf1 = buf@; let ghost p = iter.pos() - 1; let ghost sr = size_read as int; let ghost co = chunk_offset as int;
    proof {
        let key = (node, cur_index);
        if cur_fetched is Some { assert(all[p].0.0 == node); }
        if f.dom().contains(key) {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == key;
            if !hit {
                if cur_fetched is Some { if j < p { assert(all[j].0.1 < cur_index); } else { assert(key_lt(all[p].0, all[j].0)); } }
                assert(false);
            }
        }
    }
@@ hint Storage@TransientStorage::read loop1:end
    proof {
        assert forall|i: int| 0 <= i < size_read implies #[trigger] buf@[i] == byte1(f, node, off + i) by {
            if i < sr { assert(buf1[i] == byte1(f, node, off + i)); assert(buf@[i] == buf1[i]); }
            else { assert((off + i) / 4096 == cur_index && (off + i) % 4096 == co + (i - sr)); }
        }
    }
@@ hint Storage@TransientStorage::read after "let size_read = $x:any;"
    proof {
        let v = s0.fsv(); let w = self.fsv();
        if s0.active_mounts@.dom().contains(node) {
            lemma_tremounted(s0, *self, node);
            assert(grown(v, w, node));
        } else {
            lemma_tunmounted(s0, *self);
        }
    }
@@ rewrite Storage@TransientStorage::write
self.put_metadata(
=>
self.put_metadata_raw(
@@ rewrite Storage@TransientStorage::write
for chunk in chunk_infos.into_iter() $b:tt
=>
let mut ci_ = vec_iter(chunk_infos); while let Some(chunk) = ci_.next() $b
@@ fn Storage@TransientStorage::write [C01,C02,C04,C13,C18]
@@ hint Storage@TransientStorage::write entry
    broadcast use axiom_slice_len;
    let ghost s0 = *self; let ghost off = offset as int; let ghost bufs = buf@; let ghost mounted = s0.active_mounts@.dom().contains(node);
@@ hint Storage@TransientStorage::write before "let chunk_infos = $x:any;"
    proof { lemma_div_up_max(end as int, 4096); }
@@ loop Storage@TransientStorage::write 1
    invariant
        bufs == buf@, off == offset, end == off + bufs.len(), bufs.len() <= 0x7fff_ffff_ffff_ffff, end <= max_file_size(),
        0 <= ci_.pos() <= ci_.seq().len(), tiles_o(ci_.seq(), off, end as int),
        off + written_size == tile_at(ci_.seq(), ci_.pos(), end as int),
        mounted == s0.active_mounts@.dom().contains(node),
        mounted ==> tremounted(s0, *self, node) && mem_wrote(s0.active_mounts@[node].mem(), self.active_mounts@[node].mem(), off, off + written_size, bufs),
        !mounted ==> *self == (TransientStorage { filechunk: self.filechunk, ..s0 }) && v1_wrote(s0.f(), self.f(), node, off, off + written_size, bufs),
    ensures written_size == bufs.len(),
    decreases ci_.seq().len() - ci_.pos(),
@@ hint Storage@TransientStorage::write loop1:before
    proof { lemma_v1_none(s0.f(), node, off, bufs); lemma_tile0(ci_.seq(), off, end as int); if mounted { assert(s0.active_mounts@ =~= s0.active_mounts@.insert(node, s0.active_mounts@[node])); } }
@@ hint Storage@TransientStorage::write loop1:start
    let ghost f1 = self.f(); let ghost w1 = written_size as int; let ghost s1 = *self;
    proof { lemma_tile(ci_.seq(), ci_.pos() - 1, off, end as int); assert(chunk == ci_.seq()[ci_.pos() - 1]); assert(off + w1 + chunk.len <= end); assert(w1 + chunk.len <= bufs.len()); assert(bufs.len() == buf.len()); }
@@ hint Storage@TransientStorage::write loop1:end
    proof {
        assert(bufs.subrange(w1, w1 + chunk.len) == buf@.subrange(w1, w1 + chunk.len));
        if mounted { assert(self.active_mounts@ =~= s0.active_mounts@.insert(node, self.active_mounts@[node])); }
        else { lemma_v1_step(s0.f(), f1, self.f(), node, off, off + w1, bufs, chunk.index, chunk.offset as int, chunk.len as int); }
    }
@@ hint Storage@TransientStorage::write loop1:after
    let ghost t1 = *self;
    proof { if !mounted { reveal(v1_wrote); assert(keys1_ok(self.f())); } }
@@ hint Storage@TransientStorage::write end
    proof {
        if mounted { lemma_twrote_mounted(s0, t1, *self, node, off, bufs); }
        else { lemma_twrote(s0, t1, *self, node, off, bufs); }
    }
@@ rewrite? Storage@TransientStorage::read
let mut cur_fetched = None;
=>
let mut cur_fetched: Option<(&(Node, FileChunkIndex), &FileChunk)> = None;
@@ extra attr Storage@TransientStorage::read
#[verifier::spinoff_prover]
@@ extra attr Storage@TransientStorage::store_mounted_memory
#[verifier::spinoff_prover]
