// ------------------------------------------------------------------------------------------------
// The vocabulary of the contracts: the abstract state of a storage and the meaning of the operations
// (specification functions and lemmas only, nothing here is executed).
// ------------------------------------------------------------------------------------------------
pub mod model {
use vstd::prelude::*;
pub use crate::error::Error;
pub use crate::runtime::types::*;
pub use crate::storage::types::*;
pub use crate::names::*;
use crate::shim::*;
verus! {
pub open spec fn max_index() -> int { 4294967285 } // MAX_FILE_CHUNK_COUNT
pub open spec fn max_file_size() -> int { 4294967285int * 4096int }

/// the abstract state of a storage
pub ghost struct FsView {
    /// the records of the nodes
    pub meta: IMap<u64, Metadata>,
    /// the records of the memories that are, or once were, mounted on a node
    pub mmeta: IMap<u64, Metadata>,
    /// the stored content of the nodes
    pub data: IMap<u64, Seq<u8>>,
    /// the directory entries
    pub entries: Map<(u64, u32), DirEntry>,
    /// the contents of the mounted memories
    pub mounts: IMap<u64, Seq<u8>>,
    pub next_node: u64,
    pub chunk_size: int,
    /// the type of the chunks of new files (not stored)
    pub chunk_type: ChunkType,
}

/// the record a user of the storage sees
pub open spec fn active(v: FsView) -> IMap<u64, Metadata> {
    IMap::new(
        |n: u64| if v.mounts.dom().contains(n) { v.mmeta.dom().contains(n) } else { v.meta.dom().contains(n) },
        |n: u64| if v.mounts.dom().contains(n) { v.mmeta[n] } else { v.meta[n] },
    )
}
pub open spec fn max_size_of(m: Metadata) -> int {
    let lim = if m.maximum_size_allowed is Some { m.maximum_size_allowed->0 as int } else { max_file_size() };
    if lim < max_file_size() { lim } else { max_file_size() }
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }

/// content of `s` cut, or extended with zeros, to `n` bytes
pub open spec fn resized(s: Seq<u8>, n: int) -> Seq<u8> {
    Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { 0u8 })
}
/// content after `b` was written at `off` (the space before is filled with zeros)
pub open spec fn written(s: Seq<u8>, off: int, b: Seq<u8>) -> Seq<u8> {
    Seq::new(if off + b.len() > s.len() { (off + b.len()) as nat } else { s.len() },
        |i: int| if off <= i < off + b.len() { b[i - off] } else if i < s.len() { s[i] } else { 0u8 })
}
pub open spec fn data_of(v: FsView, n: u64) -> Seq<u8> {
    if v.data.dom().contains(n) { v.data[n] } else { Seq::empty() }
}
/// the update of the record of a node is refused
pub open spec fn refused(v: FsView, n: u64, m: Metadata) -> bool {
    ||| m.size > max_size_of(m)
    ||| active(v).dom().contains(n) && (active(v)[n].file_type != m.file_type || active(v)[n].node != m.node)
}
/// the state after the record of node `n` has become `m`
pub open spec fn with_meta(v: FsView, n: u64, m: Metadata) -> FsView {
    if v.mounts.dom().contains(n) {
        FsView {
            mmeta: v.mmeta.insert(n, m),
            meta: if v.meta.dom().contains(n) { v.meta.insert(n, Metadata { link_count: m.link_count, ..v.meta[n] }) } else { v.meta },
            ..v
        }
    } else {
        FsView { meta: v.meta.insert(n, m), data: v.data.insert(n, resized(data_of(v, n), m.size as int)), ..v }
    }
}
/// the type of the chunks of a file with content does not change
pub open spec fn same_chunks(v: FsView, n: u64, m: Metadata) -> bool {
    &&& v.meta.dom().contains(n) ==> v.meta[n].chunk_type == m.chunk_type
    &&& v.mmeta.dom().contains(n) ==> v.mmeta[n].chunk_type == m.chunk_type
}
/// what a user sees when reading node `n`
pub open spec fn content(v: FsView, n: u64) -> Seq<u8> {
    if v.mounts.dom().contains(n) { v.mounts[n] } else { v.data[n] }
}
pub open spec fn read_len(size: int, off: int, len: int) -> int {
    if off >= size { 0 } else if len < size - off { len } else { size - off }
}
/// everything but the length of the memory mounted on `n` is unchanged
pub open spec fn grown(v: FsView, w: FsView, n: u64) -> bool {
    ||| w == v
    ||| {
        &&& v.mounts.dom().contains(n)
        &&& w == FsView { mounts: v.mounts.insert(n, w.mounts[n]), ..v }
        &&& w.mounts[n].len() >= v.mounts[n].len()
        &&& forall|i: int| 0 <= i < v.mounts[n].len() ==> w.mounts[n][i] == v.mounts[n][i]
    }
}
/// a write is accepted
pub open spec fn can_write(v: FsView, n: u64, off: int, len: int) -> bool {
    active(v).dom().contains(n) && (len == 0 || off + len <= max_size_of(active(v)[n]))
}
/// the record of a node after a write
pub open spec fn wrote_meta(m: Metadata, off: int, len: int) -> Metadata {
    Metadata { size: if off + len > m.size { (off + len) as u64 } else { m.size }, ..m }
}
/// `w` is the state after `b` was written at `off` of node `n` in state `v`
pub open spec fn wrote(v: FsView, w: FsView, n: u64, off: int, b: Seq<u8>) -> bool {
    if b.len() == 0 {
        w == v
    } else if !v.mounts.dom().contains(n) {
        w == (FsView {
            meta: v.meta.insert(n, wrote_meta(v.meta[n], off, b.len() as int)),
            data: v.data.insert(n, written(v.data[n], off, b)),
            ..v })
    } else {
        &&& w == (FsView {
            mmeta: v.mmeta.insert(n, wrote_meta(v.mmeta[n], off, b.len() as int)),
            mounts: v.mounts.insert(n, w.mounts[n]),
            ..v })
        &&& w.mounts[n].len() >= off + b.len()
        &&& w.mounts[n].len() >= v.mounts[n].len()
        &&& w.mounts[n].subrange(off, off + b.len()) == b
        &&& forall|i: int| 0 <= i < v.mounts[n].len() && !(off <= i < off + b.len()) ==> #[trigger] w.mounts[n][i] == v.mounts[n][i]
    }
}
/// the size of a file when a memory of `len` bytes is mounted on it
pub open spec fn policy_size(p: MountedFileSizePolicy, prev: Option<u64>, len: int) -> int {
    match p {
        MountedFileSizePolicy::PreviousOrZero => if prev is Some && prev->0 <= len { prev->0 as int } else { 0 },
        MountedFileSizePolicy::PreviousOrMemoryPages => if prev is Some && prev->0 <= len { prev->0 as int } else { len },
        MountedFileSizePolicy::Explicit(s) => s as int,
        MountedFileSizePolicy::MemoryPages => len,
    }
}
/// the record of a node on which a memory of `len` bytes is being mounted
pub open spec fn mounted_meta(v: FsView, n: u64, p: MountedFileSizePolicy, len: int) -> Metadata {
    if v.mmeta.dom().contains(n) {
        Metadata { link_count: v.meta[n].link_count, size: policy_size(p, Some(v.mmeta[n].size), len) as u64, ..v.mmeta[n] }
    } else {
        Metadata { size: policy_size(p, None, len) as u64, ..v.meta[n] }
    }
}
pub open spec fn can_mount(v: FsView, n: u64, p: MountedFileSizePolicy, len: int) -> bool {
    !v.mounts.dom().contains(n) && v.meta.dom().contains(n) && mounted_meta(v, n, p, len).size <= max_size_of(mounted_meta(v, n, p, len))
}
/// what holds of every state of a storage, however it is represented
pub open spec fn sane(v: FsView) -> bool {
    &&& v.next_node >= 1
    &&& forall|n: u64| #[trigger] v.meta.dom().contains(n) ==> n < v.next_node && v.meta[n].node == n && v.meta[n].size <= max_size_of(v.meta[n])
            && v.data.dom().contains(n) && v.data[n].len() == v.meta[n].size
    &&& forall|n: u64| #[trigger] v.mmeta.dom().contains(n) ==> n < v.next_node && v.mmeta[n].node == n && v.mmeta[n].size <= max_size_of(v.mmeta[n])
    &&& forall|n: u64| #[trigger] v.mmeta.dom().contains(n) ==> v.meta.dom().contains(n)
            && v.mmeta[n].chunk_type == v.meta[n].chunk_type && v.mmeta[n].file_type == v.meta[n].file_type
    &&& forall|n: u64| #[trigger] v.data.dom().contains(n) ==> v.meta.dom().contains(n)
    &&& forall|n: u64| #[trigger] v.mounts.dom().contains(n) ==> v.mmeta.dom().contains(n) && v.meta.dom().contains(n)
            && v.mmeta[n].link_count == v.meta[n].link_count
    &&& forall|k: (u64, u32)| #[trigger] v.entries.dom().contains(k) ==> k.1 < 4294967285
}

/// `i` is the index of the next entry of directory `d`
pub open spec fn is_next(es: Map<(u64, u32), DirEntry>, d: u64, i: u32) -> bool {
    &&& i >= 1
    &&& forall|k: u32| #[trigger] es.dom().contains((d, k)) ==> k < i
    &&& i == 1 || es.dom().contains((d, (i - 1) as u32))
}
pub open spec fn next_idx(es: Map<(u64, u32), DirEntry>, d: u64) -> u32 { choose|i: u32| is_next(es, d, i) }
pub proof fn lemma_next_idx(es: Map<(u64, u32), DirEntry>, d: u64)
    ensures forall|i: u32| #[trigger] is_next(es, d, i) ==> i == next_idx(es, d),
{
    assert forall|i: u32| #[trigger] is_next(es, d, i) implies i == next_idx(es, d) by {
        let j = next_idx(es, d);
        assert(is_next(es, d, j));
        if i < j && j > 1 { assert(es.dom().contains((d, (j - 1) as u32))); }
        if j < i && i > 1 { assert(es.dom().contains((d, (i - 1) as u32))); }
    }
}
/// the entries of directory `node` from index `from` on, in the order of the indices
pub open spec fn is_entry_list(s: Seq<(u32, DirEntry)>, es: Map<(u64, u32), DirEntry>, node: u64, from: u32) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 >= from && s[i].0 < 4294967285
            && es.dom().contains((node, s[i].0)) && es[(node, s[i].0)] == s[i].1
    &&& forall|k: u32| #[trigger] es.dom().contains((node, k)) && k >= from && k < 4294967285 ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn is_dot(e: (u32, DirEntry), node: u64) -> bool {
    e.0 == 4294967290 && e.1.name.kv() == seq![46u8] && e.1.node == node
}
pub open spec fn is_dot_dot(e: (u32, DirEntry)) -> bool {
    e.0 == 4294967291 && e.1.name.kv() == seq![46u8, 46u8]
}
/// the full listing of directory `node` from `initial` on: the special entries first
pub open spec fn is_listing(s: Seq<(u32, DirEntry)>, es: Map<(u64, u32), DirEntry>, node: u64, initial: Option<u32>) -> bool {
    let dot = initial is None || initial->0 == 4294967290;
    let dotdot = dot || initial->0 == 4294967291;
    let k: int = if dot { 2 } else if dotdot { 1 } else { 0 };
    &&& s.len() >= k
    &&& dot ==> is_dot(s[0], node)
    &&& dotdot ==> is_dot_dot(s[k - 1])
    &&& is_entry_list(s.skip(k), es, node, if dotdot { 0 } else { initial->0 })
}

/// the beginning of the entries of directory `node` from index `from` on
pub open spec fn is_entry_prefix(s: Seq<(u32, DirEntry)>, es: Map<(u64, u32), DirEntry>, node: u64, from: u32) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 >= from && s[i].0 < 4294967285
            && es.dom().contains((node, s[i].0)) && es[(node, s[i].0)] == s[i].1
    &&& forall|k: u32, j: int| #[trigger] es.dom().contains((node, k)) && k >= from && 0 <= j < s.len() && k <= (#[trigger] s[j]).0
            ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// the beginning of the listing of directory `node`
pub open spec fn is_listing_prefix(s: Seq<(u32, DirEntry)>, es: Map<(u64, u32), DirEntry>, node: u64, initial: Option<u32>) -> bool {
    let dot = initial is None || initial->0 == 4294967290;
    let dotdot = dot || initial->0 == 4294967291;
    let k: int = if dot { 2 } else if dotdot { 1 } else { 0 };
    &&& dot && s.len() > 0 ==> is_dot(s[0], node)
    &&& dotdot && s.len() >= k ==> is_dot_dot(s[k - 1])
    &&& s.len() > k ==> is_entry_prefix(s.skip(k), es, node, if dotdot { 0 } else { initial->0 })
}

} // verus!
}
