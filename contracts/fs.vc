@@ prelude
#[allow(unused_imports)] use crate::runtime::fd::*;
pub open spec fn has_right(s: FdStat, right: u64) -> bool { s.rights_base & right != 0 }
/// the file or directory an open descriptor denotes exists and is of its kind
pub open spec fn fd_ok(v: FsView, e: FdEntry) -> bool {
    v.meta.dom().contains(node_of(e)) && v.meta[node_of(e)].file_type == (if e is Dir { FileType::Directory } else { FileType::RegularFile })
}
pub open spec fn fds_ok(v: FsView, t: Map<u32, FdEntry>) -> bool { forall|fd: u32| #[trigger] t.dom().contains(fd) ==> fd_ok(v, t[fd]) }
pub open spec fn open_on(t: Map<u32, FdEntry>, n: u64) -> bool { exists|fd: u32| #[trigger] t.dom().contains(fd) && node_of(t[fd]) == n }
pub proof fn lemma_open_on(t: Map<u32, FdEntry>, c: Map<u64, usize>, n: u64)
    requires counted(t, c),
    ensures open_on(t, n) <==> (c.dom().contains(n) && c[n] > 0),
{
    assert(c.dom().contains(n) <==> fds_on(t, n).len() > 0);
    if open_on(t, n) {
        let fd = choose|fd: u32| #[trigger] t.dom().contains(fd) && node_of(t[fd]) == n;
        assert(fds_on(t, n).contains(fd));
        assert(fds_on(t, n).len() != 0);
    } else {
        assert(fds_on(t, n) =~= Set::<u32>::empty());
    }
}
/// descriptors stay valid when only a node that is not open goes away
pub proof fn lemma_keeps(v: FsView, w: FsView, n: Option<u64>, t: Map<u32, FdEntry>, c: Map<u64, usize>)
    requires fds_ok(v, t), keeps_but(v, w, n), counted(t, c), n is Some ==> !(c.dom().contains(n->0) && c[n->0] > 0),
    ensures fds_ok(w, t),
{
    if n is Some { lemma_open_on(t, c, n->0); }
    assert forall|fd: u32| #[trigger] t.dom().contains(fd) implies fd_ok(w, t[fd]) by { assert(v.meta.dom().contains(node_of(t[fd]))); }
}
pub proof fn lemma_same_tree_fds(v: FsView, w: FsView, t: Map<u32, FdEntry>)
    requires fds_ok(v, t), same_tree(v, w),
    ensures fds_ok(w, t),
{
    assert forall|fd: u32| #[trigger] t.dom().contains(fd) implies fd_ok(w, t[fd]) by { assert(v.meta.dom().contains(node_of(t[fd]))); }
}
pub proof fn lemma_fd_updated(v: FsView, t: Map<u32, FdEntry>, fd: u32, e: FdEntry)
    requires fds_ok(v, t), fd_ok(v, e),
    ensures fds_ok(v, t.insert(fd, e)),
{
}
/// the concatenation of the buffers
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
pub proof fn lemma_flat_next(s: Seq<Seq<u8>>, k: int)
    requires 0 <= k < s.len(),
    ensures flat(s.take(k + 1)) == flat(s.take(k)) + s[k], s.take(s.len() as int) == s, flat(s.take(0)) == Seq::<u8>::empty(),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_flat_next_all(s: Seq<Seq<u8>>)
    ensures s.take(s.len() as int) == s, flat(s.take(0)) == Seq::<u8>::empty(),
{
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_flat_len(s: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= s.len(),
    ensures flat(s.take(k)).len() <= flat(s).len(), k < s.len() ==> flat(s.take(k)).len() + s[k].len() <= flat(s).len(),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_flat_next(s, k);
        lemma_flat_len(s, k + 1);
    } else {
        assert(s.take(k) =~= s);
    }
}
/// writing one buffer after the other writes their concatenation
pub proof fn lemma_wrote_both(v: FsView, u: FsView, w: FsView, n: u64, off: int, a: Seq<u8>, b: Seq<u8>)
    requires sane(v), sane(u), v.meta.dom().contains(n), 0 <= off, off + a.len() + b.len() <= u64::MAX || b.len() == 0, a.len() > 0 ==> off + a.len() <= u64::MAX, wrote(v, u, n, off, a), wrote(u, w, n, off + a.len(), b),
    ensures wrote(v, w, n, off, a + b),
{
    let c = a + b;
    if a.len() == 0 {
        assert(c =~= b);
    } else if b.len() == 0 {
        assert(c =~= a);
    } else if !v.mounts.dom().contains(n) {
        assert(written(written(v.data[n], off, a), off + a.len(), b) =~= written(v.data[n], off, c));
        assert(w.data =~= v.data.insert(n, written(v.data[n], off, c)));
        assert(w.meta =~= v.meta.insert(n, wrote_meta(v.meta[n], off, c.len() as int)));
    } else {
        assert(w.mmeta =~= v.mmeta.insert(n, wrote_meta(v.mmeta[n], off, c.len() as int)));
        assert(w.mounts =~= v.mounts.insert(n, w.mounts[n]));
        assert(w.mounts[n].subrange(off, off + c.len()) =~= c) by {
            assert forall|i: int| 0 <= i < c.len() implies w.mounts[n][off + i] == c[i] by {
                if i < a.len() {
                    assert(u.mounts[n].subrange(off, off + a.len())[i] == a[i]);
                    assert(u.mounts[n][off + i] == a[i]);
                    assert(w.mounts[n][off + i] == u.mounts[n][off + i]);
                } else {
                    assert(w.mounts[n].subrange(off + a.len(), off + a.len() + b.len())[i - a.len()] == b[i - a.len()]);
                }
            }
        }
        assert forall|i: int| 0 <= i < v.mounts[n].len() && !(off <= i < off + c.len()) implies #[trigger] w.mounts[n][i] == v.mounts[n][i] by {
            assert(u.mounts[n][i] == v.mounts[n][i]);
        }
    }
}
pub proof fn lemma_wrote_active(v: FsView, w: FsView, n: u64, off: int, b: Seq<u8>)
    requires sane(v), v.meta.dom().contains(n), wrote(v, w, n, off, b),
    ensures active(w).dom().contains(n) <==> active(v).dom().contains(n), max_size_of(active(w)[n]) == max_size_of(active(v)[n]), v.meta.dom() == w.meta.dom(),
{
    assert(v.meta.dom() =~= w.meta.dom());
}
pub proof fn lemma_grown_both(v: FsView, u: FsView, w: FsView, n: u64)
    requires grown(v, u, n), grown(u, w, n),
    ensures grown(v, w, n), active(w) == active(v), content(w, n).len() >= content(u, n).len(),
        forall|i: int| 0 <= i < content(u, n).len() ==> #[trigger] content(w, n)[i] == content(u, n)[i],
{
    assert(active(u) =~= active(v));
    assert(active(w) =~= active(u));
    if u != v && w != u {
        assert(w.mounts =~= v.mounts.insert(n, w.mounts[n]));
        assert forall|i: int| 0 <= i < v.mounts[n].len() implies w.mounts[n][i] == v.mounts[n][i] by { assert(u.mounts[n][i] == v.mounts[n][i]); }
    }
}
pub proof fn lemma_flags()
    ensures forall|f: FdFlags| f.bits == 0 ==> !#[trigger] f.spec_has(FdFlags::APPEND),
        forall|f: OpenFlags| f.bits == 0 ==> !#[trigger] f.spec_has(OpenFlags::TRUNCATE),
        forall|f: OpenFlags| f.bits == 0 ==> !#[trigger] f.spec_has(OpenFlags::CREATE),
        forall|f: OpenFlags| f.bits == 0 ==> !#[trigger] f.spec_has(OpenFlags::DIRECTORY),
        OpenFlags::CREATE.spec_has(OpenFlags::CREATE), !OpenFlags::CREATE.spec_has(OpenFlags::EXCLUSIVE), !OpenFlags::CREATE.spec_has(OpenFlags::TRUNCATE),
        !OpenFlags::CREATE.spec_has(OpenFlags::DIRECTORY), !OpenFlags::DIRECTORY.spec_has(OpenFlags::CREATE), !OpenFlags::DIRECTORY.spec_has(OpenFlags::TRUNCATE),
{
    assert(2u16 & 1u16 == 0) by (bit_vector); assert(2u16 & 8u16 == 0) by (bit_vector);
    assert(0u16 & 1u16 == 0) by (bit_vector); assert(0u16 & 8u16 == 0) by (bit_vector); assert(0u16 & 2u16 == 0) by (bit_vector);
    assert(1u16 & 1u16 == 1) by (bit_vector); assert(1u16 & 4u16 == 0) by (bit_vector); assert(1u16 & 8u16 == 0) by (bit_vector); assert(1u16 & 2u16 == 0) by (bit_vector);
}
/// the lengths of all buffers are unchanged, and the first `len` bytes of them hold the content of `n` from `off` on
pub open spec fn scattered(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, c: Seq<u8>, off: int, len: int) -> bool {
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i].len() == a[i].len()
    &&& forall|i: int| 0 <= i < len ==> #[trigger] flat(b)[i] == c[off + i]
    &&& forall|i: int| len <= i < flat(a).len() ==> #[trigger] flat(b)[i] == flat(a)[i]
}
pub proof fn lemma_flat_lens(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i].len() == a[i].len(),
    ensures flat(a).len() == flat(b).len(),
    decreases a.len(),
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] b.drop_last()[i].len() == a.drop_last()[i].len() by { assert(b[i].len() == a[i].len()); }
        assert(b[a.len() - 1].len() == a[a.len() - 1].len());
        lemma_flat_lens(a.drop_last(), b.drop_last());
    }
}
/// one more buffer was filled
pub proof fn lemma_scattered(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, b2: Seq<Seq<u8>>, c: Seq<u8>, c2: Seq<u8>, off: int, len: int, k: int, m: int)
    requires 0 <= k < a.len(), scattered(a.take(k), b.take(k), c, off, len), b.len() == a.len(), forall|i: int| k <= i < a.len() ==> b[i] == #[trigger] a[i],
        b2 == b.update(k, b2[k]), b2[k].len() == a[k].len(), 0 <= m <= a[k].len(), 0 <= len <= flat(a.take(k)).len(), len < flat(a.take(k)).len() ==> m == 0,
        forall|i: int| 0 <= i < len ==> c2[off + i] == #[trigger] c[off + i],
        forall|i: int| 0 <= i < m ==> #[trigger] b2[k][i] == c2[off + len + i],
        forall|i: int| m <= i < a[k].len() ==> #[trigger] b2[k][i] == a[k][i],
    ensures scattered(a.take(k + 1), b2.take(k + 1), c2, off, len + m), 0 <= len + m <= flat(a.take(k + 1)).len(),
        forall|i: int| k + 1 <= i < a.len() ==> b2[i] == #[trigger] a[i],
{
    lemma_flat_next(a, k); lemma_flat_next(b2, k);
    assert(b2.take(k) =~= b.take(k));
    let fa = flat(a.take(k)); let fb = flat(b.take(k));
    lemma_flat_lens(a.take(k), b.take(k));
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] b2.take(k + 1)[i].len() == a.take(k + 1)[i].len() by {
        if i < k { assert(b.take(k)[i].len() == a.take(k)[i].len()); }
    }
    let ga = flat(a.take(k + 1)); let gb = flat(b2.take(k + 1));
    assert(ga == fa + a[k]); assert(gb == fb + b2[k]);
    assert forall|i: int| 0 <= i < len + m implies #[trigger] gb[i] == c2[off + i] by {
        if i < len { assert(gb[i] == fb[i]); assert(c[off + i] == fb[i]); }
        else { assert(len == fa.len()); assert(gb[i] == b2[k][i - len]); }
    }
    assert forall|i: int| len + m <= i < ga.len() implies #[trigger] gb[i] == ga[i] by {
        if i < fa.len() { assert(fb[i] == fa[i]); } else { assert(b2[k][i - fa.len()] == a[k][i - fa.len()]); }
    }
}
/// what opening node `n` does
pub open spec fn opened(v: FsView, t: Map<u32, FdEntry>, w: FsView, t2: Map<u32, FdEntry>, n: u64, stat: FdStat, flags: OpenFlags, r: Result<u32, Error>) -> bool {
    if is_dir_node(v, n) {
        &&& r is Ok && w == v && is_new_fd(t, t2, r->Ok_0)
        &&& t2[r->Ok_0] == FdEntry::Dir(Dir { node: n, stat })
    } else if flags.spec_has(OpenFlags::DIRECTORY) {
        r == Err::<u32, Error>(Error::OperationNotPermitted) && w == v && t2 == t
    } else {
        &&& r is Ok && is_new_fd(t, t2, r->Ok_0)
        &&& w == (if flags.spec_has(OpenFlags::TRUNCATE) { with_meta(v, n, Metadata { size: 0, ..active(v)[n] }) } else { v })
        &&& t2[r->Ok_0] is File && t2[r->Ok_0]->File_0.node == n && t2[r->Ok_0]->File_0.stat == stat
        &&& t2[r->Ok_0]->File_0.cursor == (if stat.flags.spec_has(FdFlags::APPEND) { active(v)[n].size } else { 0 })
    }
}
/// `fd` was not in use, and is the only descriptor that changed
pub open spec fn is_new_fd(t: Map<u32, FdEntry>, t2: Map<u32, FdEntry>, fd: u32) -> bool {
    !t.dom().contains(fd) && fd > 3 && t2 == t.insert(fd, t2[fd])
}
/// the descriptor of a new file or directory
pub open spec fn opened_new(t: Map<u32, FdEntry>, t2: Map<u32, FdEntry>, fd: u32, kind: FileType, stat: FdStat) -> bool {
    &&& is_new_fd(t, t2, fd)
    &&& kind == FileType::Directory ==> t2[fd] is Dir && t2[fd]->Dir_0.stat == stat
    &&& kind == FileType::RegularFile ==> t2[fd] is File && t2[fd]->File_0.stat == stat && t2[fd]->File_0.cursor == 0
}
pub proof fn lemma_extended_keeps(v: FsView, w: FsView, q: u64, ctime: u64)
    requires extended(v, w, q, ctime),
    ensures keeps_but(v, w, None),
{
}
pub proof fn lemma_insert_same(t: Map<u32, FdEntry>, fd: u32)
    requires t.dom().contains(fd),
    ensures t.insert(fd, t[fd]) == t,
{
    assert(t.insert(fd, t[fd]) =~= t);
}
pub proof fn lemma_insert_remove(t: Map<u32, FdEntry>, fd: u32, e: FdEntry)
    requires !t.dom().contains(fd),
    ensures t.insert(fd, e).remove(fd) == t,
{
    assert(t.insert(fd, e).remove(fd) =~= t);
}
pub open spec fn renames(v: FsView, w1: FsView, t: Map<u32, FdEntry>, c: Map<u64, usize>, sd: u64, op: Seq<char>, d: u64, np: Seq<char>) -> bool {
    let s = target(v, sd, op);
    &&& tree(v) && sane(v) && fds_ok(v, t) && counted(t, c) && leads_to_entry(v, sd, op) && can_make_link(v, c, d, np, s, true) && v.meta.dom().contains(d)
    &&& v.meta.dom().contains(s) && !v.mounts.dom().contains(s) && resolve(v.entries, d, np) != Ok::<u64, Error>(s) && link_made(v, w1, d, np, s)
}
#[verifier::spinoff_prover] pub proof fn lemma_rename_mid(v: FsView, w1: FsView, t: Map<u32, FdEntry>, c: Map<u64, usize>, sd: u64, op: Seq<char>, d: u64, np: Seq<char>)
    requires renames(v, w1, t, c, sd, op, d, np),
    ensures ({
        let s = target(v, sd, op); let ps = parent_of(v, sd, op); let i = idx_of(v.entries, ps, last_name(op));
        &&& fds_ok(w1, t) && tree_x(w1, s) && can_unlink(w1, c, sd, op, None, true)
        &&& target(w1, sd, op) == s && parent_of(w1, sd, op) == ps && idx_of(w1.entries, ps, last_name(op)) == i
        &&& w1.entries.dom().contains((ps, i)) && w1.entries[(ps, i)].node == s && named(w1.entries, ps, i, last_name(op)) && !w1.mounts.dom().contains(s)
        &&& w1.meta.dom().contains(s) && w1.meta[s] == (Metadata { link_count: (v.meta[s].link_count + 1) as u64, ..v.meta[s] }) && w1.data[s] == v.data[s] && w1.data.dom().contains(s)
        &&& v.meta[s].link_count < u64::MAX && v.data[s].len() == v.meta[s].size
    }),
{
    let s = target(v, sd, op);
    let (v2, p) = choose|v2: FsView, p: u64| #[trigger] link_steps(v, v2, w1, p, d, np, s);
    lemma_link_keeps(v, v2, w1, p, d, np, s);
    if resolve(v.entries, d, np) is Ok { lemma_resolved(v, d, np); }
    lemma_keeps(v, w1, if resolve(v.entries, d, np) is Ok { victim(v, d, np) } else { None }, t, c);
    lemma_link_made(v, v2, w1, p, d, np, s);
    lemma_old_path_kept(v, v2, w1, p, sd, op, d, np);
    lemma_node(v, s);
    lemma_tree_x(v, 0); lemma_leads(v, sd, op, 0);
    let x2 = more_links(v2, s);
    assert(x2.data[s] =~= v.data[s]);
    assert(w1.data[s] =~= x2.data[s]);
}
#[verifier::spinoff_prover] pub proof fn lemma_rename_end(v: FsView, w1: FsView, w: FsView, t: Map<u32, FdEntry>, c: Map<u64, usize>, sd: u64, op: Seq<char>, d: u64, np: Seq<char>)
    requires renames(v, w1, t, c, sd, op, d, np),
        w == unlink(w1, parent_of(v, sd, op), idx_of(v.entries, parent_of(v, sd, op), last_name(op)), target(v, sd, op)),
    ensures ({
        let s = target(v, sd, op);
        &&& tree(w) && fds_ok(w, t) && renamed(v, w, sd, op, d, np) && !has_name(w.entries, parent_of(v, sd, op), last_name(op))
        &&& w.meta.dom().contains(s) && w.meta[s] == v.meta[s] && w.data[s] == v.data[s]
        &&& resolve(w.entries, d, np) == Ok::<u64, Error>(s)
    }),
{
    let s = target(v, sd, op); let ps = parent_of(v, sd, op); let i = idx_of(v.entries, ps, last_name(op));
    lemma_rename_mid(v, w1, t, c, sd, op, d, np);
    let (v2, p) = choose|v2: FsView, p: u64| #[trigger] link_steps(v, v2, w1, p, d, np, s);
    lemma_link_made(v, v2, w1, p, d, np, s);
    lemma_old_path_kept(v, v2, w1, p, sd, op, d, np);
    lemma_unlinked(w1, w, ps, i, s);
    lemma_renamed(v, v2, w1, w, p, sd, op, d, np);
    assert(keeps_but(w1, w, None));
    lemma_keeps(w1, w, None, t, c);
    lemma_node(v, s);
    assert(w.data[s] =~= v.data[s]);
}
/// what `open` does when the path leads nowhere
pub open spec fn open_created(v: FsView, t: Map<u32, FdEntry>, w: FsView, t2: Map<u32, FdEntry>, d: u64, path: Seq<char>, kind: FileType, stat: FdStat, ctime: u64, r: Result<u32, Error>) -> bool {
    &&& r is Ok <==> can_create(v, d, path)
    &&& r is Err ==> w == v && t2 == t && r->Err_0 == create_error(v, d, path)
    &&& r is Ok ==> opened_new(t, t2, r->Ok_0, kind, stat) && created(v, w, d, path, kind, ctime, node_of(t2[r->Ok_0]))
}
/// what `open` does
pub open spec fn open_does(v: FsView, t: Map<u32, FdEntry>, w: FsView, t2: Map<u32, FdEntry>, d: u64, path: Seq<char>, stat: FdStat, flags: OpenFlags, ctime: u64, r: Result<u32, Error>) -> bool {
    match resolve(v.entries, d, path) {
        Ok(n) => if flags.spec_has(OpenFlags::CREATE) && flags.spec_has(OpenFlags::EXCLUSIVE) { r == Err::<u32, Error>(Error::FileExists) && w == v && t2 == t }
            else { opened(v, t, w, t2, n, stat, flags, r) },
        Err(e) => if e == Error::NoSuchFileOrDirectory && flags.spec_has(OpenFlags::CREATE) {
            open_created(v, t, w, t2, d, path, if flags.spec_has(OpenFlags::DIRECTORY) { FileType::Directory } else { FileType::RegularFile }, stat, ctime, r)
        } else { r == Err::<u32, Error>(e) && w == v && t2 == t },
    }
}
/// the state after a memory was mounted
pub open spec fn mounted(v: FsView, n: u64, policy: MountedFileSizePolicy, mem: Seq<u8>) -> FsView {
    FsView { mounts: v.mounts.insert(n, mem), mmeta: v.mmeta.insert(n, mounted_meta(v, n, policy, mem.len() as int)), ..v }
}
pub open spec fn init_done(v: FsView, w: FsView, n: u64) -> bool {
    &&& w == (FsView { mounts: v.mounts.insert(n, w.mounts[n]), mmeta: v.mmeta.insert(n, v.meta[n]), ..v })
    &&& w.mounts[n].len() >= v.data[n].len() && w.mounts[n].subrange(0, v.data[n].len() as int) == v.data[n]
    &&& forall|i: int| v.data[n].len() <= i < v.mounts[n].len() ==> #[trigger] w.mounts[n][i] == v.mounts[n][i]
}
pub open spec fn store_done(v: FsView, w: FsView, n: u64) -> bool {
    &&& w == (FsView {
            meta: v.meta.insert(n, v.mmeta[n]),
            data: v.data.insert(n, w.mounts[n].subrange(0, v.mmeta[n].size as int)),
            mounts: v.mounts.insert(n, w.mounts[n]),
            ..v })
    &&& w.mounts[n].len() >= v.mounts[n].len() && w.mounts[n].len() >= v.mmeta[n].size
    &&& forall|i: int| 0 <= i < v.mounts[n].len() ==> #[trigger] w.mounts[n][i] == v.mounts[n][i]
}
/// a path leads to a node that exists
pub proof fn lemma_resolved(v: FsView, d: u64, path: Seq<char>)
    requires tree(v), v.meta.dom().contains(d), resolve(v.entries, d, path) is Ok,
    ensures v.meta.dom().contains(target(v, d, path)),
{
    if parts_of(path)->Ok_0.len() > 0 { lemma_tree_x(v, 0); lemma_leads(v, d, path, 0); } else { assert(walk(v.entries, d, parts_of(path)->Ok_0) == Some(d)); }
}
/// `s` are the nodes and names of those of the entries `l` that are of the wanted type, in the same order
pub open spec fn listed(s: Seq<(u64, String)>, l: Seq<(u32, DirEntry)>, v: FsView, wanted: Option<FileType>) -> bool
    decreases l.len(),
{
    if l.len() == 0 { s.len() == 0 }
    else if wanted is Some && v.meta[l.last().1.node].file_type != wanted->0 { listed(s, l.drop_last(), v, wanted) }
    else { s.len() > 0 && s.last().0 == l.last().1.node && encode_utf8(s.last().1@) == l.last().1.name.kv() && listed(s.drop_last(), l.drop_last(), v, wanted) }
}
/// `s` is the listing of directory `d`
pub open spec fn lists(s: Seq<(u64, String)>, v: FsView, d: u64, wanted: Option<FileType>) -> bool {
    exists|l: Seq<(u32, DirEntry)>| #[trigger] is_entry_list(l, v.entries, d, 0) && listed(s, l, v, wanted)
}
pub proof fn lemma_listed_all(s: Seq<(u64, String)>, l: Seq<(u32, DirEntry)>, v: FsView)
    requires listed(s, l, v, None),
    ensures s.len() == l.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == l[i].1.node && encode_utf8(s[i].1@) == l[i].1.name.kv(),
    decreases l.len(),
{
    if l.len() > 0 {
        lemma_listed_all(s.drop_last(), l.drop_last(), v);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == l[i].1.node && encode_utf8(s[i].1@) == l[i].1.name.kv() by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
/// nothing below directory `d` is open or mounted
pub open spec fn idle_below(v: FsView, t: Map<u32, FdEntry>, d: u64) -> bool {
    forall|x: u64| #[trigger] inside(v.entries, d, x) && x != d ==> !v.mounts.dom().contains(x) && !open_on(t, x)
}
pub open spec fn idle(v: FsView, t: Map<u32, FdEntry>, d: u64) -> bool { idle_below(v, t, d) && !v.mounts.dom().contains(d) && !open_on(t, d) }
/// the same holds for an entry after something else below the directory was removed
pub proof fn lemma_idle_child(v: FsView, w: FsView, t: Map<u32, FdEntry>, k: (u64, u32))
    requires tree(v), idle_below(v, t, k.0), pruned(v, w, k.0), w.entries.dom().contains(k),
    ensures idle(w, t, w.entries[k].node),
{
    let c = v.entries[k].node; let d = k.0;
    assert(inside(v.entries, d, d));
    lemma_inside_step(v.entries, d, k);
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(v.entries, rank);
    assert(rank(v.entries[k].node) > rank(d));
    assert forall|x: u64| #[trigger] inside(w.entries, c, x) implies !w.mounts.dom().contains(x) && !open_on(t, x) by {
        lemma_inside_less(w.entries, v.entries, c, x); lemma_inside_trans(v.entries, d, c, x); lemma_inside_rank(v.entries, rank, c, x);
    }
    assert(inside(w.entries, c, c));
}
pub proof fn lemma_idle_with(v: FsView, t: Map<u32, FdEntry>, fd: u32, e: FdEntry, d: u64)
    requires tree(v), idle(v, t, d), !t.dom().contains(fd), node_of(e) == d,
    ensures idle_below(v, t.insert(fd, e), d),
{
    let t2 = t.insert(fd, e);
    assert forall|x: u64| #[trigger] inside(v.entries, d, x) && x != d implies !v.mounts.dom().contains(x) && !open_on(t2, x) by {
        if open_on(t2, x) {
            let f = choose|f: u32| #[trigger] t2.dom().contains(f) && node_of(t2[f]) == x;
            assert(t.dom().contains(f));
        }
    }
}
pub open spec fn fd_limit() -> int { 0xffff_ffe0 }
pub open spec fn short_path(path: Seq<char>) -> bool { parts_of(path) is Ok ==> parts_of(path)->Ok_0.len() < 0x1_0000_0000 }
@@ rewrite *
File::new($n:id, $s:id, self.storage.as_mut())
=>
File::new($n, $s, &*self.storage)
@@ rewrite *
Dir::new($n:id, $s:id, self.storage.as_mut())
=>
Dir::new($n, $s, &*self.storage)
@@ rewrite *
$f:id.seek($n:id, $s:id, self.storage.as_mut())
=>
$f.seek($n, $s, &*self.storage)
@@ rewrite *
self.storage.as_mut()
=>
(&mut *self.storage)
@@ rewrite *
self.storage.as_ref()
=>
(&*self.storage)
@@ rewrite *
$f:id.strip_prefix('/').unwrap_or($f)
=>
str_strip_slash($f)
@@ rewrite *
SrcBuf { buf: $s:id.as_ptr(), len: $s.len(), }
=>
src_buf($s)
@@ rewrite *
unsafe { std::slice::from_raw_parts($s:id.buf, $s.len) }
=>
src_bytes($s)
@@ extra FileSystem
    pub open spec fn v(&self) -> FsView { self.storage.fsv() }
    pub open spec fn fds(&self) -> Map<u32, FdEntry> { self.fd_table.map() }
    pub open spec fn open_counts(&self) -> Map<u64, usize> { self.fd_table.node_refcount@ }
    /// descriptor `fd` denotes directory `d`
    pub open spec fn dir_of(&self, fd: u32) -> u64 { node_of(self.fds()[fd]) }
    pub open spec fn is_dir_fd(&self, fd: u32) -> bool { self.fds().dom().contains(fd) && self.fds()[fd] is Dir }
    pub open spec fn is_file_fd(&self, fd: u32) -> bool { self.fds().dom().contains(fd) && self.fds()[fd] is File }
    pub open spec fn file_of(&self, fd: u32) -> File { self.fds()[fd]->File_0 }
    pub open spec fn wf(&self) -> bool {
        &&& self.storage.wf() && self.fd_table.wf() && self.names_cache.wf()
        &&& coherent(self.names_cache.map(), self.v().entries)
        &&& tree(self.v()) && fds_ok(self.v(), self.fds())
        &&& self.root_fd == 3 && self.is_dir_fd(3) && self.dir_of(3) == 0
    }
    /// descriptors, nodes, entry numbers and counts are far from exhausted
    pub open spec fn room(&self) -> bool {
        &&& self.fds().dom().len() < 0xffff_fff0 && self.fd_table.fd_left()
        &&& room(self.v())
    }
    /// nothing changed
    pub open spec fn same(&self, o: &FileSystem) -> bool { self.v() == o.v() && self.fds() == o.fds() }
@@ fn FileSystem::new [C06,C09,C14]
    requires storage.wf(), tree(storage.fsv()),
    ensures
        r is Ok, // [C14,C20]
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == storage.fsv(), // [C14]
        r is Ok ==> r->Ok_0.fds().dom() == set![3u32], // [C09]
@@ hint FileSystem::new entry
    proof { storage.lemma_sane(); }
@@ fn FileSystem::get_storage_version
    requires self.wf(),
    ensures r > 0,
@@ fn FileSystem::root_fd [C09]
    requires self.wf(),
    ensures r == 3, // [C09]
@@ fn FileSystem::root_path
    ensures true,
@@ fn FileSystem::advice [C09,C20]
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).same(old(self)), // [C19]
        r is Ok <==> old(self).is_file_fd(fd) || (fd <= 2 && !old(self).fds().dom().contains(fd)), // [C20]
        r is Err ==> r->Err_0 == Error::BadFileDescriptor, // [C09]
@@ hint FileSystem::advice entry
    proof { if self.fds().dom().contains(fd) { self.storage.lemma_sane(); lemma_node(self.v(), node_of(self.fds()[fd])); } }
@@ fn FileSystem::allocate [C09,C20]
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).same(old(self)), // [C19]
        r is Ok <==> old(self).is_file_fd(fd) || (fd <= 2 && !old(self).fds().dom().contains(fd)), // [C20]
        r is Err ==> r->Err_0 == Error::BadFileDescriptor, // [C09]
@@ hint FileSystem::allocate entry
    proof { if self.fds().dom().contains(fd) { self.storage.lemma_sane(); lemma_node(self.v(), node_of(self.fds()[fd])); } }
@@ fn FileSystem::close [C09,C20]
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).v() == old(self).v(), // [C14]
        fd == 3 ==> r is Ok && final(self).fds() == old(self).fds(), // [C09]
        fd != 3 && !old(self).fds().dom().contains(fd) ==> r == Err::<(), Error>(Error::BadFileDescriptor) && final(self).fds() == old(self).fds(), // [C09]
        fd != 3 && old(self).fds().dom().contains(fd) ==> r is Ok && final(self).fds() == old(self).fds().remove(fd), // [C09]
@@ fn FileSystem::flush [C09,C14]
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).same(old(self)), // [C14]
        r is Ok <==> old(self).is_file_fd(fd), // [C09]
        r is Err ==> r->Err_0 == Error::BadFileDescriptor, // [C09]
@@ fn FileSystem::renumber [C09]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).v() == old(self).v(),
        r is Err ==> final(self).fds() == old(self).fds(), // [C09]
        from != 3 && to != 3 && from != to ==> (r is Ok <==> old(self).fds().dom().contains(from) && (old(self).fds().dom().contains(to) ==> (old(self).fds()[from] is Dir <==> old(self).fds()[to] is Dir))), // [C09]
        from == 3 || to == 3 ==> r is Err, // [C09]
        r is Ok ==> final(self).fds() == (if from == to { old(self).fds() } else { old(self).fds().remove(from).insert(to, old(self).fds()[from]) }), // [C09]
@@ fn FileSystem::get_node [C09]
    ensures
        self.fds().dom().contains(fd) ==> r == Ok::<u64, Error>(node_of(self.fds()[fd])), // [C09]
        !self.fds().dom().contains(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor), // [C09]
@@ fn FileSystem::get_file [C09]
    ensures
        self.is_file_fd(fd) ==> r == Ok::<File, Error>(self.file_of(fd)), // [C09]
        !self.is_file_fd(fd) ==> r == Err::<File, Error>(Error::BadFileDescriptor), // [C09]
@@ fn FileSystem::get_dir [C09]
    ensures
        self.is_dir_fd(fd) ==> r == Ok::<Dir, Error>(self.fds()[fd]->Dir_0), // [C09]
        self.is_file_fd(fd) ==> r == Err::<Dir, Error>(Error::NotADirectoryOrSymbolicLink), // [C09]
        !self.fds().dom().contains(fd) ==> r == Err::<Dir, Error>(Error::BadFileDescriptor), // [C09]
@@ fn FileSystem::put_file [C09]
    requires old(self).fd_table.wf(), old(self).fd_table.room(),
    ensures
        final(self).fd_table.wf(), final(self).fds() == old(self).fds().insert(fd, FdEntry::File(file)), // [C09]
        final(self).storage == old(self).storage, final(self).names_cache == old(self).names_cache, final(self).root_fd == old(self).root_fd,
        final(self).fd_table.next_fd == old(self).fd_table.next_fd,
@@ fn FileSystem::put_dir [C09]
    requires old(self).fd_table.wf(), old(self).fd_table.room(),
    ensures
        final(self).fd_table.wf(), final(self).fds() == old(self).fds().insert(fd, FdEntry::Dir(dir)), // [C09]
        final(self).storage == old(self).storage, final(self).names_cache == old(self).names_cache, final(self).root_fd == old(self).root_fd,
        final(self).fd_table.next_fd == old(self).fd_table.next_fd,
@@ fn FileSystem::get_direntry [C16]
    requires self.wf(),
    ensures
        self.is_dir_fd(fd) && self.v().entries.dom().contains((self.dir_of(fd), index)) ==> r == Ok::<DirEntry, Error>(self.v().entries[(self.dir_of(fd), index)]), // [C16]
        self.is_dir_fd(fd) && !self.v().entries.dom().contains((self.dir_of(fd), index)) ==> r == Err::<DirEntry, Error>(Error::NoSuchFileOrDirectory), // [C16]
        !self.is_dir_fd(fd) ==> r is Err, // [C09]
@@ sig FileSystem::with_direntries
with_direntries(&self, fd: Fd, initial_index: Option<DirEntryIndex>, f: &mut dyn FnMut(&DirEntryIndex, &DirEntry) -> bool) -> Result<(), Error>
=>
with_direntries(&self, fd: Fd, initial_index: Option<DirEntryIndex>) -> Result<Vec<(DirEntryIndex, DirEntry)>, Error>
@@ rewrite FileSystem::with_direntries
self.storage.with_direntries($d:any, $i:any, f); Ok(())
=>
Ok(self.storage.direntries($d, $i))
@@ fn FileSystem::with_direntries [C16]
    requires self.wf(),
    ensures
        self.is_dir_fd(fd) ==> r is Ok && is_listing(r->Ok_0@, self.v().entries, self.dir_of(fd), initial_index), // [C16]
        !self.is_dir_fd(fd) ==> r is Err, // [C09]
@@ fn FileSystem::read [C01,C10,C11]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(dst)@.len() == old(dst)@.len(),
        !old(self).is_file_fd(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor), // [C09]
        old(self).is_file_fd(fd) && !has_right(old(self).file_of(fd).stat, RIGHTS_FD_READ) ==> r == Err::<u64, Error>(Error::OperationNotPermitted), // [C11]
        r is Err ==> final(self).same(old(self)) && final(dst)@ == old(dst)@, // [C10,C11]
        r is Ok <==> old(self).is_file_fd(fd) && has_right(old(self).file_of(fd).stat, RIGHTS_FD_READ), // [C11,C20]
        r is Ok ==> { let f = old(self).file_of(fd); let n = f.node; let c = f.cursor;
            &&& final(self).fds() == old(self).fds().insert(fd, FdEntry::File(File { cursor: (c + r->Ok_0) as u64, ..f })) && c + r->Ok_0 <= u64::MAX // [C09,C10]
            &&& r->Ok_0 == read_len(active(old(self).v())[n].size as int, c as int, old(dst)@.len() as int) // [C01]
            &&& forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(dst)@[i] == content(final(self).v(), n)[c + i] // [C01,C13]
            &&& forall|i: int| r->Ok_0 <= i < old(dst)@.len() ==> #[trigger] final(dst)@[i] == old(dst)@[i] // [C01]
            &&& grown(old(self).v(), final(self).v(), n) // [C02]
        },
@@ hint FileSystem::read entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); if self.is_file_fd(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::read before "self.put_file(fd, file);"
    proof { lemma_grown_tree(v, self.v(), file.node); lemma_same_tree_fds(v, self.v(), t); lemma_fd_updated(self.v(), t, fd, FdEntry::File(file)); }
@@ fn FileSystem::seek [C10]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).v() == old(self).v(),
        !old(self).is_file_fd(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor), // [C09]
        r is Err ==> final(self).fds() == old(self).fds(), // [C10]
        old(self).is_file_fd(fd) ==> { let f = old(self).file_of(fd); let size = active(old(self).v())[f.node].size;
            &&& r is Ok <==> (match whence {
                Whence::SET => delta >= 0,
                Whence::CUR => 0 <= f.cursor + delta <= u64::MAX,
                Whence::END => delta <= 0 && size + delta >= 0,
            }) // [C10]
            &&& r is Ok ==> r->Ok_0 as int == (match whence { Whence::SET => delta as int, Whence::CUR => f.cursor + delta, Whence::END => size + delta }) // [C10]
            &&& r is Ok ==> final(self).fds() == old(self).fds().insert(fd, FdEntry::File(File { cursor: r->Ok_0, ..f })) // [C09,C10]
        },
@@ hint FileSystem::seek entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); if self.is_file_fd(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::seek before "self.put_file(fd, file);"
    proof { lemma_fd_updated(v, t, fd, FdEntry::File(file)); }
@@ fn FileSystem::tell [C10]
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(old(self)), // [C10]
        old(self).is_file_fd(fd) ==> r == Ok::<u64, Error>(old(self).file_of(fd).cursor), // [C10]
        !old(self).is_file_fd(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor), // [C09]
@@ fn FileSystem::metadata_from_node [C19]
    requires self.wf(),
    ensures
        active(self.v()).dom().contains(node) ==> r == Ok::<Metadata, Error>(active(self.v())[node]), // [C19]
        !active(self.v()).dom().contains(node) ==> r == Err::<Metadata, Error>(Error::NoSuchFileOrDirectory), // [C19]
@@ fn FileSystem::metadata [C09,C19]
    requires self.wf(),
    ensures
        self.fds().dom().contains(fd) ==> r == Ok::<Metadata, Error>(active(self.v())[node_of(self.fds()[fd])]), // [C19]
        fd > 2 && !self.fds().dom().contains(fd) ==> r == Err::<Metadata, Error>(Error::BadFileDescriptor), // [C09]
        fd <= 2 && !self.fds().dom().contains(fd) ==> r is Ok && r->Ok_0.node == u64::MAX && r->Ok_0.file_type == FileType::RegularFile && r->Ok_0.link_count == 0 && r->Ok_0.size == 0, // [C19]
@@ hint FileSystem::metadata entry
    proof { if self.fds().dom().contains(fd) { self.storage.lemma_sane(); lemma_node(self.v(), node_of(self.fds()[fd])); } }
@@ fn FileSystem::set_metadata [C03,C04,C19]
    requires old(self).wf(),
        old(self).fds().dom().contains(fd) ==> { let n = old(self).dir_of(fd); let m = old(self).v().meta[n];
            &&& same_chunks(old(self).v(), n, metadata) && metadata.link_count == m.link_count
            &&& m.file_type == FileType::Directory ==> metadata.size == m.size && metadata.maximum_size_allowed == m.maximum_size_allowed
        },
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).fds() == old(self).fds(), // [C09]
        !old(self).fds().dom().contains(fd) ==> r == Err::<(), Error>(Error::BadFileDescriptor), // [C09]
        r is Err ==> final(self).v() == old(self).v(), // [C04]
        r is Ok <==> old(self).fds().dom().contains(fd) && !refused(old(self).v(), old(self).dir_of(fd), metadata), // [C04]
        r is Ok ==> final(self).v() == with_meta(old(self).v(), old(self).dir_of(fd), metadata), // [C03,C19]
@@ hint FileSystem::set_metadata entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); if t.dom().contains(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::set_metadata end
    proof { lemma_meta_tree(v, node_of(t[fd]), metadata); lemma_same_tree_fds(v, self.v(), t); }
@@ fn FileSystem::set_file_size [C03,C04,C11,C19]
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).fds() == old(self).fds(), // [C09,C10]
        !old(self).is_file_fd(fd) ==> r == Err::<(), Error>(Error::BadFileDescriptor), // [C09]
        old(self).is_file_fd(fd) && !has_right(old(self).file_of(fd).stat, RIGHTS_FD_WRITE) ==> r == Err::<(), Error>(Error::InvalidArgument), // [C11]
        r is Err ==> final(self).v() == old(self).v(), // [C04,C11]
        r is Ok <==> old(self).is_file_fd(fd) && has_right(old(self).file_of(fd).stat, RIGHTS_FD_WRITE) && new_size <= max_size_of(active(old(self).v())[old(self).file_of(fd).node]), // [C04,C11]
        r is Ok ==> final(self).v() == with_meta(old(self).v(), old(self).file_of(fd).node, Metadata { size: new_size, ..active(old(self).v())[old(self).file_of(fd).node] }), // [C03,C02]
@@ hint FileSystem::set_file_size entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); if t.dom().contains(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::set_file_size end
    proof { lemma_meta_tree(v, node_of(t[fd]), metadata); lemma_same_tree_fds(v, self.v(), t); }
@@ fn FileSystem::set_file_size_limit [C04,C19]
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).fds() == old(self).fds(), // [C09,C10]
        !old(self).is_file_fd(fd) ==> r == Err::<(), Error>(Error::BadFileDescriptor), // [C09]
        r is Err ==> final(self).v() == old(self).v(), // [C04]
        r is Ok <==> old(self).is_file_fd(fd) && active(old(self).v())[old(self).file_of(fd).node].size <= max_size, // [C04]
        r is Ok ==> final(self).v() == with_meta(old(self).v(), old(self).file_of(fd).node, Metadata { maximum_size_allowed: Some(max_size), ..active(old(self).v())[old(self).file_of(fd).node] }), // [C04]
@@ hint FileSystem::set_file_size_limit entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); if t.dom().contains(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::set_file_size_limit end
    proof { lemma_meta_tree(v, node_of(t[fd]), metadata); lemma_same_tree_fds(v, self.v(), t); }
@@ fn FileSystem::set_accessed_time [C19]
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).fds() == old(self).fds(), // [C09]
        !old(self).fds().dom().contains(fd) ==> r == Err::<(), Error>(Error::BadFileDescriptor) && final(self).v() == old(self).v(), // [C09]
        old(self).fds().dom().contains(fd) ==> { let n = old(self).dir_of(fd); let m = active(old(self).v())[n];
            r is Ok && final(self).v() == with_meta(old(self).v(), n, Metadata { times: Times { accessed: time, ..m.times }, ..m }) }, // [C19]
@@ hint FileSystem::set_accessed_time entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); if t.dom().contains(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::set_accessed_time end
    proof { lemma_meta_tree(v, node_of(t[fd]), metadata); lemma_same_tree_fds(v, self.v(), t); }
@@ fn FileSystem::set_modified_time [C19]
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).fds() == old(self).fds(), // [C09]
        !old(self).fds().dom().contains(fd) ==> r == Err::<(), Error>(Error::BadFileDescriptor) && final(self).v() == old(self).v(), // [C09]
        old(self).fds().dom().contains(fd) ==> { let n = old(self).dir_of(fd); let m = active(old(self).v())[n];
            r is Ok && final(self).v() == with_meta(old(self).v(), n, Metadata { times: Times { modified: time, ..m.times }, ..m }) }, // [C19]
@@ hint FileSystem::set_modified_time entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); if t.dom().contains(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::set_modified_time end
    proof { lemma_meta_tree(v, node_of(t[fd]), metadata); lemma_same_tree_fds(v, self.v(), t); }
@@ fn FileSystem::get_stat [C09,C11]
    requires self.wf(),
    ensures
        !self.fds().dom().contains(fd) ==> r == Err::<(FileType, FdStat), Error>(Error::BadFileDescriptor), // [C09]
        self.is_file_fd(fd) ==> r == Ok::<(FileType, FdStat), Error>((FileType::RegularFile, self.file_of(fd).stat)), // [C11]
        self.is_dir_fd(fd) ==> r == Ok::<(FileType, FdStat), Error>((FileType::Directory, self.fds()[fd]->Dir_0.stat)), // [C11]
@@ fn FileSystem::set_stat [C09,C10,C11]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).v() == old(self).v(),
        !old(self).fds().dom().contains(fd) ==> r == Err::<(), Error>(Error::BadFileDescriptor), // [C09]
        r is Err ==> final(self).fds() == old(self).fds(), // [C09]
        old(self).is_file_fd(fd) ==> r is Ok && final(self).fds() == old(self).fds().insert(fd, FdEntry::File(File { stat, ..old(self).file_of(fd) })), // [C10,C11]
        old(self).is_dir_fd(fd) ==> (r is Ok <==> !stat.flags.spec_has(FdFlags::APPEND) && !stat.flags.spec_has(FdFlags::NONBLOCK)), // [C11]
        old(self).is_dir_fd(fd) && r is Ok ==> final(self).fds() == old(self).fds().insert(fd, FdEntry::Dir(Dir { stat, ..old(self).fds()[fd]->Dir_0 })), // [C11]
@@ fn FileSystem::open_metadata [C07,C19]
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(old(self)), // [C06,C09,C14]
        !old(self).is_dir_fd(parent) ==> r is Err, // [C09]
        old(self).is_dir_fd(parent) && resolve(old(self).v().entries, old(self).dir_of(parent), path@) is Ok ==>
            r == Ok::<Metadata, Error>(active(old(self).v())[target(old(self).v(), old(self).dir_of(parent), path@)]), // [C07,C19]
        old(self).is_dir_fd(parent) && resolve(old(self).v().entries, old(self).dir_of(parent), path@) is Err ==>
            r is Err && r->Err_0 == resolve(old(self).v().entries, old(self).dir_of(parent), path@)->Err_0, // [C07]
@@ hint FileSystem::open_metadata entry
    proof { self.storage.lemma_sane(); if self.is_dir_fd(parent) { let d = node_of(self.fds()[parent]); if resolve(self.v().entries, d, path@) is Ok { lemma_resolved(self.v(), d, path@); lemma_node(self.v(), target(self.v(), d, path@)); } } }
@@ rewrite FileSystem::list_dir_internal
self.with_direntries($d:any, $i:any, &mut |_index, entry| -> bool $b:tt)?;
=>
let list_ = self.with_direntries($d, $i)?; let mut list_iter = vec_iter(list_); while let Some(item_) = list_iter.next() { let entry = &item_.1; let go_: bool = $b; if !go_ { break; } }
@@ rewrite FileSystem::list_dir_internal
unsafe { std::str::from_utf8_unchecked(&$n:any[..$l:any]) }.to_string()
=>
utf8_string(&$n[..$l])
@@ fn FileSystem::list_dir_internal [C16,C20]
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(old(self)), // [C16]
        !old(self).is_dir_fd(dir_fd) ==> r is Err, // [C09]
        old(self).is_dir_fd(dir_fd) ==> r is Ok && lists(r->Ok_0@, old(self).v(), old(self).dir_of(dir_fd), file_type), // [C16]
@@ hint FileSystem::list_dir_internal loop1:before
    let ghost v = self.v(); let ghost d = self.dir_of(dir_fd);
    proof { self.storage.lemma_sane(); assert(list_iter.seq().take(0) =~= Seq::empty()); assert(list_iter.seq().skip(0) =~= list_iter.seq()); }
@@ extra attr FileSystem::list_dir_internal
#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ loop FileSystem::list_dir_internal 1
    invariant_except_break
        listed(res@, list_iter.seq().take(list_iter.pos()), v, file_type),
    invariant
        0 <= list_iter.pos() <= list_iter.seq().len(), is_listing(list_iter.seq(), v.entries, d, Some(0)),
        is_entry_list(list_iter.seq(), v.entries, d, 0),
    ensures
        listed(res@, list_iter.seq(), v, file_type),
    decreases list_iter.seq().len() - list_iter.pos(),
@@ hint FileSystem::list_dir_internal after "let entry = &item_.1;"
    let ghost k = list_iter.pos() - 1; let ghost l = list_iter.seq(); let ghost was = res@;
    proof {
        assert(v.entries.dom().contains((d, l[k].0)) && v.entries[(d, l[k].0)] == l[k].1);
        assert(entry_ok(v, (d, l[k].0), item_.1)); lemma_kv(&item_.1.name); lemma_node(v, item_.1.node);
        assert(item_.1.name.bytes@.take(item_.1.name.length as int) == item_.1.name.kv());
        assert(l.take(k + 1).drop_last() =~= l.take(k)); assert(l.take(k + 1).last() == l[k]);
    }
@@ hint FileSystem::list_dir_internal loop1:end
    proof { if res@.len() > was.len() { assert(res@.drop_last() =~= was); } }
@@ hint FileSystem::list_dir_internal loop1:after
    proof { assert(list_iter.seq().take(list_iter.seq().len() as int) =~= list_iter.seq()); }
@@ copy FileSystem::remove_children FileSystem::remove_recursive
@@ sig FileSystem::remove_children
remove_children(&mut self, parent: Fd, path: &str) -> Result<(), Error>
=>
remove_children(&mut self, dir_fd: Fd) -> Result<(), Error>
@@ rewrite FileSystem::remove_children
let meta = $a:any let result = (|| { $b:any })(); $c:any self.remove_dir(parent, path)?; result
=>
$b
@@ rewrite FileSystem::remove_children
for ($a:id, $b:id) in children $c:tt
=>
let mut child_iter = vec_iter(children); while let Some(child_) = child_iter.next() { let $a = child_.0; let $b = child_.1; $c }
@@ rewrite FileSystem::remove_children
self.$f:id(dir_fd, &child_name)?;
=>
let child_done = self.$f(dir_fd, &child_name); child_done?;
@@ rewrite FileSystem::remove_recursive
(|| $b:tt)()
=>
self.remove_children(dir_fd)
@@ fn FileSystem::remove_recursive [C05,C06,C08,C12,C20]
    requires old(self).wf(), old(self).room(), short_path(path@),
        old(self).is_dir_fd(parent) && resolve(old(self).v().entries, old(self).dir_of(parent), path@) is Ok ==>
            fits(old(self).v().entries, target(old(self).v(), old(self).dir_of(parent), path@), fd_limit() - old(self).fds().dom().len()),
    ensures
        final(self).wf(), // [C06,C08,C12]
        final(self).fds() == old(self).fds(), // [C09]
        !old(self).is_dir_fd(parent) || resolve(old(self).v().entries, old(self).dir_of(parent), path@) is Err ==> r is Err && final(self).v() == old(self).v(), // [C20]
        r is Ok ==> leads_to_entry(old(self).v(), old(self).dir_of(parent), path@) && removed_all(old(self).v(), final(self).v(), old(self).dir_of(parent), path@), // [C02,C05,C06,C08]
        r is Err && old(self).is_dir_fd(parent) && resolve(old(self).v().entries, old(self).dir_of(parent), path@) is Ok ==>
            pruned(old(self).v(), final(self).v(), target(old(self).v(), old(self).dir_of(parent), path@)), // [C02,C08,C12]
        old(self).is_dir_fd(parent) && leads_to_entry(old(self).v(), old(self).dir_of(parent), path@)
            && idle(old(self).v(), old(self).fds(), target(old(self).v(), old(self).dir_of(parent), path@)) ==> r is Ok, // [C12]
    decreases fd_limit() + 2 - old(self).fds().dom().len(), 0int,
@@ fn FileSystem::remove_children [C05,C06,C08,C12,C20]
    requires old(self).wf(), room(old(self).v()), old(self).fds().dom().len() <= fd_limit() + 1, old(self).is_dir_fd(dir_fd),
        fits(old(self).v().entries, old(self).dir_of(dir_fd), fd_limit() + 1 - old(self).fds().dom().len()),
    ensures
        final(self).wf(), // [C06,C08,C12]
        final(self).fds() == old(self).fds(), // [C09]
        pruned(old(self).v(), final(self).v(), old(self).dir_of(dir_fd)), // [C02,C08,C12]
        r is Ok ==> forall|j: u32| !#[trigger] final(self).v().entries.dom().contains((old(self).dir_of(dir_fd), j)), // [C05,C06]
        r is Err ==> exists|j: u32| #[trigger] final(self).v().entries.dom().contains((old(self).dir_of(dir_fd), j)),
        idle_below(old(self).v(), old(self).fds(), old(self).dir_of(dir_fd)) ==> r is Ok, // [C12]
    decreases fd_limit() + 2 - old(self).fds().dom().len(), 1int,
@@ hint FileSystem::remove_children before "child_done?;" #1
    proof { if child_done is Err { lemma_child_kept(u, self.v(), (d, i)); lemma_pruned_trans(v, u, self.v(), d); assert(self.v().entries.dom().contains((d, i))); } }
@@ hint FileSystem::remove_children before "child_done?;" #2
    proof {
        if child_done is Err { assert(self.v().entries.dom().contains((d, i))); }
        else { lemma_pruned_same(u, child_.0); }
    }
@@ hint FileSystem::remove_children loop1:end
    proof {
        let w = self.v();
        assert(removed_all(u, w, d, child_.1@));
        lemma_child_removed(u, w, d, i, child_.1@);
        lemma_pruned_trans(v, u, w, d); lemma_pruned_room(u, w, d);
    }
@@ hint FileSystem::remove_children loop1:after
    proof {
        assert forall|j: u32| !#[trigger] self.v().entries.dom().contains((d, j)) by {
            if self.v().entries.dom().contains((d, j)) { assert(v.entries.dom().contains((d, j))); let m = choose|m: int| 0 <= m < l.len() && (#[trigger] l[m]).0 == j; assert(l[m].0 == j); }
        }
    }
@@ extra attr FileSystem::remove_children
#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ hint FileSystem::remove_recursive entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost d = self.dir_of(parent); let ghost n = target(v, d, path@);
    proof { self.storage.lemma_sane(); lemma_flags(); }
@@ hint FileSystem::remove_recursive after "let meta = $x:any?;"
    proof {
        lemma_node(v, d); lemma_resolved(v, d, path@); lemma_node(v, n); lemma_pruned_same(v, n); lemma_open_on(t, self.open_counts(), n);
    }
@@ hint FileSystem::remove_recursive after "let dir_fd = $x:any?;"
    let ghost t2 = self.fds();
    proof {
        assert(t2.dom() =~= t.dom().insert(dir_fd));
        if idle(v, t, n) { lemma_idle_with(v, t, dir_fd, t2[dir_fd], n); }
        lemma_insert_remove(t, dir_fd, t2[dir_fd]);
        assert(inside(v.entries, n, n));
        let rank = choose|rank: spec_fn(u64) -> nat| #[trigger] nested(v.entries, n, fd_limit() - t.dom().len(), rank);
    }
@@ hint FileSystem::remove_recursive before "self.remove_dir(parent, path)?;"
    proof {
        let u = self.v();
        self.storage.lemma_sane();
        if leads_to_entry(v, d, path@) {
            lemma_path_pruned(v, u, d, path@);
            lemma_leads(u, d, path@, 0);
            assert(is_dir_node(u, n));
            if result is Ok { lemma_emptied(u, n); }
            else { let j = choose|j: u32| #[trigger] u.entries.dom().contains((n, j)); lemma_not_empty(u, n, j); }
        }
        lemma_open_on(t, self.open_counts(), n);
    }
@@ hint FileSystem::remove_children entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost d = node_of(t[dir_fd]);
    proof { self.storage.lemma_sane(); lemma_pruned_same(v, d); }
@@ hint FileSystem::remove_children loop1:before
    let ghost l = choose|l: Seq<(u32, DirEntry)>| #[trigger] is_entry_list(l, v.entries, d, 0) && listed(child_iter.seq(), l, v, None);
    let ghost names = child_iter.seq();
    proof { lemma_listed_all(names, l, v); }
@@ loop FileSystem::remove_children 1
    invariant
        self.wf(), self.fds() == t, pruned(v, self.v(), d), room(self.v()),
        child_iter.seq() == names, 0 <= child_iter.pos() <= names.len(),
        forall|j: int| 0 <= j < child_iter.pos() ==> !self.v().entries.dom().contains((d, (#[trigger] l[j]).0)),
        forall|j: int| child_iter.pos() <= j < l.len() ==> self.v().entries.dom().contains((d, (#[trigger] l[j]).0)),
    decreases child_iter.seq().len() - child_iter.pos(),
@@ hint FileSystem::remove_children loop1:start
    let ghost k = child_iter.pos() - 1; let ghost u = self.v(); let ghost i = l[k].0;
    proof {
        self.storage.lemma_sane();
        assert(l[k].0 == i);
        assert(u.entries.dom().contains((d, i)) && v.entries.dom().contains((d, i)) && u.entries[(d, i)] == l[k].1);
        assert(child_ == names[k]); assert(child_.0 == l[k].1.node && encode_utf8(child_.1@) == l[k].1.name.kv());
        lemma_entry_path(u, d, i, child_.1@);
        lemma_entry(u, d, i, 0, 0);
        lemma_node(u, child_.0);
        lemma_fits_less(v.entries, u.entries, d, fd_limit() + 1 - t.dom().len());
        lemma_fits_child(u.entries, (d, i), fd_limit() + 1 - t.dom().len());
        if idle_below(v, t, d) { lemma_idle_child(v, u, t, (d, i)); }
        lemma_open_on(t, self.open_counts(), child_.0);
    }
@@ rewrite FileSystem::write_vec
for buf in src $b:tt
=>
let mut buf_no: usize = 0; while buf_no < src.len() { let buf = &src[buf_no]; buf_no = buf_no + 1; $b }
@@ rewrite FileSystem::write_vec_with_offset
for buf in src $b:tt
=>
let mut buf_no: usize = 0; while buf_no < src.len() { let buf = &src[buf_no]; buf_no = buf_no + 1; $b }
@@ sig FileSystem::read_vec
dst: DstIoVec
=>
dst: &mut DstBufs
@@ sig FileSystem::read_vec_with_offset
dst: DstIoVec
=>
dst: &mut DstBufs
@@ rewrite FileSystem::read_vec
for buf in dst $b:tt
=>
let mut buf_no: usize = 0; while buf_no < dst.count() { let buf_at = buf_no; buf_no = buf_no + 1; $b }
@@ rewrite FileSystem::read_vec
unsafe { std::slice::from_raw_parts_mut(buf.buf, buf.len) }
=>
dst.slice_mut(buf_at)
@@ rewrite FileSystem::read_vec_with_offset
for buf in dst $b:tt
=>
let mut buf_no: usize = 0; while buf_no < dst.count() { let buf_at = buf_no; buf_no = buf_no + 1; $b }
@@ rewrite FileSystem::read_vec_with_offset
unsafe { std::slice::from_raw_parts_mut(buf.buf, buf.len) }
=>
dst.slice_mut(buf_at)
@@ rewrite FileSystem::mount_memory_file
(|| { let $x:id = $e:any?; $rest:any })()
=>
(match $e { Ok($x) => { $rest }, Err(e_) => Err(e_) })
@@ rewrite FileSystem::init_memory_file
(|| { let $x:id = $e:any?; $rest:any })()
=>
(match $e { Ok($x) => { $rest }, Err(e_) => Err(e_) })
@@ rewrite FileSystem::store_memory_file
(|| { let $x:id = $e:any?; $rest:any })()
=>
(match $e { Ok($x) => { $rest }, Err(e_) => Err(e_) })
@@ rewrite FileSystem::unmount_memory_file
(|| { let $x:id = $e:any?; $rest:any })()
=>
(match $e { Ok($x) => { $rest }, Err(e_) => Err(e_) })
@@ rewrite FileSystem::unmount_memory_file
{ let $x:id = self.storage.$m:id($a:any)?; Ok($x) }
=>
{ match self.storage.$m($a) { Ok($x) => Ok($x), Err(e_) => Err(e_) } }
@@ fn FileSystem::open_internal [C03,C09,C10]
    requires old(self).wf(), old(self).fd_table.room(), old(self).fd_table.fd_left(), old(self).v().meta.dom().contains(node),
    ensures
        final(self).wf(), // [C06,C09,C14]
        opened(old(self).v(), old(self).fds(), final(self).v(), final(self).fds(), node, stat, flags, r), // [C03,C09,C10,C11]
        same_tree(old(self).v(), final(self).v()),
@@ hint FileSystem::open_internal entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); lemma_node(v, node); }
@@ hint FileSystem::open_internal before "let fd = self.fd_table.open(FdEntry::Dir($x:id));"
    proof { assert forall|k: u32| fds_ok(v, t.insert(k, FdEntry::Dir(dir))) by { lemma_fd_updated(v, t, k, FdEntry::Dir(dir)); } }
@@ hint FileSystem::open_internal before "let fd = self.fd_table.open(FdEntry::File($x:id));"
    proof {
        if flags.spec_has(OpenFlags::TRUNCATE) { lemma_meta_tree(v, node, Metadata { size: 0, ..active(v)[node] }); }
        lemma_same_tree_fds(v, self.v(), t);
        assert forall|k: u32| fds_ok(self.v(), t.insert(k, FdEntry::File(file))) by { lemma_fd_updated(self.v(), t, k, FdEntry::File(file)); }
    }
@@ fn FileSystem::create_open_file [C06,C07,C09,C17,C19,C20]
    requires old(self).wf(), old(self).room(), short_path(path@),
    ensures
        final(self).wf(), // [C06,C09,C14]
        !old(self).is_dir_fd(parent) ==> r is Err && final(self).same(old(self)), // [C09,C20]
        old(self).is_dir_fd(parent) ==> open_created(old(self).v(), old(self).fds(), final(self).v(), final(self).fds(), old(self).dir_of(parent), path@, FileType::RegularFile, stat, ctime, r), // [C06,C07,C17,C20]
@@ hint FileSystem::create_open_file entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost c = self.open_counts();
    proof { self.storage.lemma_sane(); if self.is_dir_fd(parent) { lemma_node(v, node_of(t[parent])); } }
@@ hint FileSystem::create_open_file before "let child_fd = $x:any;"
    proof {
        let w = self.v();
        lemma_extended_keeps(v, w, deepest(v.entries, dir.node, parts_of(path@)->Ok_0), ctime); lemma_keeps(v, w, None, t, c);
        assert forall|k: u32| fds_ok(w, t.insert(k, FdEntry::File(child))) by { lemma_fd_updated(w, t, k, FdEntry::File(child)); }
    }
@@ hint FileSystem::create_open_file after "let child_fd = $x:any;"
    proof { lemma_insert_same(self.fds(), parent); }
@@ fn FileSystem::create_open_directory [C06,C07,C09,C17,C19,C20]
    requires old(self).wf(), old(self).room(), short_path(path@),
    ensures
        final(self).wf(), // [C06,C09,C14]
        !old(self).is_dir_fd(parent) ==> r is Err && final(self).same(old(self)), // [C09,C20]
        old(self).is_dir_fd(parent) ==> open_created(old(self).v(), old(self).fds(), final(self).v(), final(self).fds(), old(self).dir_of(parent), path@, FileType::Directory, stat, ctime, r), // [C06,C07,C17,C20]
@@ hint FileSystem::create_open_directory entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost c = self.open_counts();
    proof { self.storage.lemma_sane(); if self.is_dir_fd(parent) { lemma_node(v, node_of(t[parent])); } }
@@ hint FileSystem::create_open_directory before "let child_fd = $x:any;"
    proof {
        let w = self.v();
        lemma_extended_keeps(v, w, deepest(v.entries, dir.node, parts_of(path@)->Ok_0), ctime); lemma_keeps(v, w, None, t, c);
        assert forall|k: u32| fds_ok(w, t.insert(k, FdEntry::Dir(child))) by { lemma_fd_updated(w, t, k, FdEntry::Dir(child)); }
    }
@@ hint FileSystem::create_open_directory after "let child_fd = $x:any;"
    proof { lemma_insert_same(self.fds(), parent); }
@@ fn FileSystem::mkdir [C06,C07,C17,C19,C20]
    requires old(self).wf(), old(self).room(), short_path(path@),
    ensures
        final(self).wf(), // [C06,C09,C14]
        final(self).fds() == old(self).fds(), // [C09]
        r is Ok <==> old(self).is_dir_fd(parent) && can_create(old(self).v(), old(self).dir_of(parent), path@), // [C07,C17,C20]
        r is Err ==> final(self).v() == old(self).v(), // [C20]
        r is Err && old(self).is_dir_fd(parent) ==> r->Err_0 == create_error(old(self).v(), old(self).dir_of(parent), path@), // [C20]
        r is Ok ==> exists|n: u64| #[trigger] created(old(self).v(), final(self).v(), old(self).dir_of(parent), path@, FileType::Directory, ctime, n), // [C06,C07,C19]
@@ hint FileSystem::mkdir entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost c = self.open_counts();
    proof { self.storage.lemma_sane(); if self.is_dir_fd(parent) { lemma_node(v, node_of(t[parent])); } }
@@ hint FileSystem::mkdir before "self.put_dir(parent, dir);"
    proof {
        let w = self.v();
        lemma_extended_keeps(v, w, deepest(v.entries, dir.node, parts_of(path@)->Ok_0), ctime); lemma_keeps(v, w, None, t, c);
        lemma_insert_same(t, parent);
    }
@@ fn FileSystem::remove_file [C05,C06,C08,C12,C20]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C08,C12]
        final(self).fds() == old(self).fds(), // [C09]
        r is Ok <==> old(self).is_dir_fd(parent) && can_unlink(old(self).v(), old(self).open_counts(), old(self).dir_of(parent), path@, Some(false), false), // [C12]
        r is Err ==> final(self).v() == old(self).v(), // [C12,C20]
        r is Ok ==> final(self).v() == removed_at(old(self).v(), old(self).dir_of(parent), path@), // [C02,C05,C06,C08]
@@ hint FileSystem::remove_file entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost c = self.open_counts();
    proof { self.storage.lemma_sane(); if self.is_dir_fd(parent) { lemma_node(v, node_of(t[parent])); } }
@@ hint FileSystem::remove_file before "self.put_dir(parent, dir);"
    proof {
        lemma_removed_keeps(v, dir.node, path@); lemma_keeps(v, self.v(), victim(v, dir.node, path@), t, c);
        lemma_insert_same(t, parent);
    }
@@ fn FileSystem::remove_dir [C05,C06,C08,C12,C20]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C08,C12]
        final(self).fds() == old(self).fds(), // [C09]
        r is Ok <==> old(self).is_dir_fd(parent) && can_unlink(old(self).v(), old(self).open_counts(), old(self).dir_of(parent), path@, Some(true), false), // [C12]
        r is Err ==> final(self).v() == old(self).v(), // [C12,C20]
        r is Ok ==> final(self).v() == removed_at(old(self).v(), old(self).dir_of(parent), path@), // [C02,C05,C06,C08]
@@ hint FileSystem::remove_dir entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost c = self.open_counts();
    proof { self.storage.lemma_sane(); if self.is_dir_fd(parent) { lemma_node(v, node_of(t[parent])); } }
@@ hint FileSystem::remove_dir before "self.put_dir(parent, dir);"
    proof {
        lemma_removed_keeps(v, dir.node, path@); lemma_keeps(v, self.v(), victim(v, dir.node, path@), t, c);
        lemma_insert_same(t, parent);
    }
@@ fn FileSystem::open [C03,C06,C07,C09,C17,C19,C20]
    requires old(self).wf(), old(self).room(), short_path(path@),
    ensures
        final(self).wf(), // [C06,C09,C14]
        !old(self).is_dir_fd(parent_fd) ==> r is Err && final(self).same(old(self)), // [C09,C20]
        old(self).is_dir_fd(parent_fd) ==> open_does(old(self).v(), old(self).fds(), final(self).v(), final(self).fds(), old(self).dir_of(parent_fd), path@, stat, flags, ctime, r), // [C03,C06,C07,C09,C10,C11,C20]
@@ hint FileSystem::open entry
    let ghost v = self.v(); let ghost t = self.fds();
    proof { self.storage.lemma_sane(); if self.is_dir_fd(parent_fd) { lemma_node(v, node_of(t[parent_fd])); } }
@@ hint FileSystem::open before "match res $b:tt"
    proof { if res is Ok { lemma_resolved(v, dir.node, path@); } }
@@ fn FileSystem::write [C01,C02,C04,C10,C11]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        !old(self).is_file_fd(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor) && final(self).v() == old(self).v(), // [C09]
        old(self).is_file_fd(fd) && !has_right(old(self).file_of(fd).stat, RIGHTS_FD_WRITE) ==> r == Err::<u64, Error>(Error::OperationNotPermitted) && final(self).v() == old(self).v(), // [C11]
        r is Err ==> final(self).fds() == old(self).fds(), // [C10]
        old(self).is_file_fd(fd) && has_right(old(self).file_of(fd).stat, RIGHTS_FD_WRITE) ==> { let f = old(self).file_of(fd); let n = f.node; let v = old(self).v();
            let off = if f.stat.flags.spec_has(FdFlags::APPEND) { active(v)[n].size } else { f.cursor }; let all = src@;
            &&& r is Ok <==> all.len() == 0 || off + all.len() <= max_size_of(active(v)[n]) // [C04]
            &&& r is Ok ==> r->Ok_0 == all.len() && wrote(v, final(self).v(), n, off as int, all) // [C01,C02,C10,C13]
            &&& r is Ok ==> final(self).fds() == old(self).fds().insert(fd, FdEntry::File(File { cursor: (off + all.len()) as u64, ..f })) // [C09,C10]
            &&& r is Err ==> final(self).v() == v // [C04]
        },
@@ rewrite FileSystem::write
self.write_vec(fd, &[$x:id])
=>
let arr_ = [$x]; self.write_vec(fd, &arr_)
@@ hint FileSystem::write before "self.write_vec(fd, &arr_)"
    proof {
        assert(arr_@ =~= seq![buf]); assert(arr_@[0] == buf);
        let one = src_views(seq![buf]);
        assert(one =~= seq![src@]); assert(one.take(1) =~= one); lemma_flat_next(one, 0); assert(flat(one.take(0)) =~= Seq::<u8>::empty());
        assert(flat(one) =~= src@);
    }
@@ fn FileSystem::write_vec [C01,C02,C04,C10,C11]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        !old(self).is_file_fd(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor) && final(self).v() == old(self).v(), // [C09]
        old(self).is_file_fd(fd) && !has_right(old(self).file_of(fd).stat, RIGHTS_FD_WRITE) ==> r == Err::<u64, Error>(Error::OperationNotPermitted) && final(self).v() == old(self).v(), // [C11]
        r is Err ==> final(self).fds() == old(self).fds(), // [C10]
        old(self).is_file_fd(fd) && has_right(old(self).file_of(fd).stat, RIGHTS_FD_WRITE) ==> { let f = old(self).file_of(fd); let n = f.node; let v = old(self).v();
            let off = if f.stat.flags.spec_has(FdFlags::APPEND) { active(v)[n].size } else { f.cursor }; let all = flat(src_views(src@));
            &&& r is Ok <==> all.len() == 0 || off + all.len() <= max_size_of(active(v)[n]) // [C04]
            &&& r is Ok ==> r->Ok_0 == all.len() && wrote(v, final(self).v(), n, off as int, all) // [C01,C02,C10,C13]
            &&& r is Ok ==> final(self).fds() == old(self).fds().insert(fd, FdEntry::File(File { cursor: (off + all.len()) as u64, ..f })) // [C09,C10]
            &&& r is Err ==> exists|k: int| 0 <= k < src@.len() && wrote(v, final(self).v(), n, off as int, flat(#[trigger] src_views(src@).take(k))) // [C02,C04]
        },
@@ loop FileSystem::write_vec 1
    invariant
        0 <= buf_no <= src@.len(), self.storage.wf(), n == file.node, v.meta.dom().contains(n), v.meta[n].file_type == FileType::RegularFile, sane(v), tree(v),
        self.storage.fsv().meta.dom().contains(n), self.fd_table == tb, self.names_cache == nc, self.root_fd == 3, ss == src_views(src@),
        offset == off, mx == max_size_of(active(v)[n]), max_size_of(active(self.storage.fsv())[n]) == mx, active(self.storage.fsv()).dom().contains(n), mx <= max_file_size(),
        wrote(v, self.storage.fsv(), n, off, flat(ss.take(buf_no as int))), same_tree(v, self.storage.fsv()),
        written_size == flat(ss.take(buf_no as int)).len(), written_size > 0 ==> off + written_size <= mx,
    ensures buf_no == src@.len(),
    decreases src@.len() - buf_no,
@@ hint FileSystem::write_vec entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost n = node_of(t[fd]); let ghost mx = max_size_of(active(v)[n]); let ghost ss = src_views(src@);
    proof { self.storage.lemma_sane(); if self.is_file_fd(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::write_vec before "let mut written_size = 0;"
    let ghost tb = self.fd_table; let ghost nc = self.names_cache; let ghost off = offset as int;
    proof { assert(flat(ss.take(0)) =~= Seq::<u8>::empty()); }
@@ hint FileSystem::write_vec loop1:start
    let ghost u = self.storage.fsv();
    proof {
        self.storage.lemma_sane(); lemma_node(u, n); lemma_flat_next(ss, buf_no as int); lemma_flat_len(ss, buf_no as int);
        lemma_same_tree_fds(v, u, t); lemma_same_tree(v, u);
        assert(ss[buf_no as int] == src_view(src@[buf_no as int]));
    }
@@ hint FileSystem::write_vec loop1:end
    proof {
        let w = self.storage.fsv(); let a = flat(ss.take(buf_no - 1)); let b = ss[buf_no - 1];
        lemma_wrote_both(v, u, w, n, off, a, b); lemma_wrote_tree(v, w, n, off, a + b); lemma_wrote_active(u, w, n, off + a.len(), b);
    }
@@ hint FileSystem::write_vec before "self.put_file(fd, file);"
    proof { lemma_flat_len(ss, ss.len() as int); lemma_flat_next_all(ss); lemma_same_tree_fds(v, self.v(), t); lemma_same_tree(v, self.v()); lemma_fd_updated(self.v(), t, fd, FdEntry::File(file)); }
@@ fn FileSystem::write_vec_with_offset [C01,C02,C04,C10,C11]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        !old(self).is_file_fd(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor) && final(self).v() == old(self).v(), // [C09]
        old(self).is_file_fd(fd) && !has_right(old(self).file_of(fd).stat, RIGHTS_FD_WRITE) ==> r == Err::<u64, Error>(Error::OperationNotPermitted) && final(self).v() == old(self).v(), // [C11]
        r is Err ==> final(self).fds() == old(self).fds(), // [C10]
        old(self).is_file_fd(fd) && has_right(old(self).file_of(fd).stat, RIGHTS_FD_WRITE) ==> { let f = old(self).file_of(fd); let n = f.node; let v = old(self).v();
            let off = if f.stat.flags.spec_has(FdFlags::APPEND) { active(v)[n].size } else { offset }; let all = flat(src_views(src@));
            &&& r is Ok <==> all.len() == 0 || off + all.len() <= max_size_of(active(v)[n]) // [C04]
            &&& r is Ok ==> r->Ok_0 == all.len() && wrote(v, final(self).v(), n, off as int, all) // [C01,C02,C10,C13]
            &&& r is Ok ==> final(self).fds() == old(self).fds() // [C09,C10]
            &&& r is Err ==> exists|k: int| 0 <= k < src@.len() && wrote(v, final(self).v(), n, off as int, flat(#[trigger] src_views(src@).take(k))) // [C02,C04]
        },
@@ loop FileSystem::write_vec_with_offset 1
    invariant
        0 <= buf_no <= src@.len(), self.storage.wf(), n == file.node, v.meta.dom().contains(n), v.meta[n].file_type == FileType::RegularFile, sane(v), tree(v),
        self.storage.fsv().meta.dom().contains(n), self.fd_table == tb, self.names_cache == nc, self.root_fd == 3, ss == src_views(src@),
        offset == off, mx == max_size_of(active(v)[n]), max_size_of(active(self.storage.fsv())[n]) == mx, active(self.storage.fsv()).dom().contains(n), mx <= max_file_size(),
        wrote(v, self.storage.fsv(), n, off, flat(ss.take(buf_no as int))), same_tree(v, self.storage.fsv()),
        written_size == flat(ss.take(buf_no as int)).len(), written_size > 0 ==> off + written_size <= mx,
    ensures buf_no == src@.len(),
    decreases src@.len() - buf_no,
@@ hint FileSystem::write_vec_with_offset entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost n = node_of(t[fd]); let ghost mx = max_size_of(active(v)[n]); let ghost ss = src_views(src@);
    proof { self.storage.lemma_sane(); if self.is_file_fd(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::write_vec_with_offset before "let mut written_size = 0;"
    let ghost tb = self.fd_table; let ghost nc = self.names_cache; let ghost off = offset as int;
    proof { assert(flat(ss.take(0)) =~= Seq::<u8>::empty()); }
@@ hint FileSystem::write_vec_with_offset loop1:start
    let ghost u = self.storage.fsv();
    proof {
        self.storage.lemma_sane(); lemma_node(u, n); lemma_flat_next(ss, buf_no as int); lemma_flat_len(ss, buf_no as int);
        lemma_same_tree_fds(v, u, t); lemma_same_tree(v, u);
        assert(ss[buf_no as int] == src_view(src@[buf_no as int]));
    }
@@ hint FileSystem::write_vec_with_offset loop1:end
    proof {
        let w = self.storage.fsv(); let a = flat(ss.take(buf_no - 1)); let b = ss[buf_no - 1];
        lemma_wrote_both(v, u, w, n, off, a, b); lemma_wrote_tree(v, w, n, off, a + b); lemma_wrote_active(u, w, n, off + a.len(), b);
    }
@@ hint FileSystem::write_vec_with_offset before "self.put_file(fd, file);"
    proof { lemma_flat_len(ss, ss.len() as int); lemma_flat_next_all(ss); lemma_same_tree_fds(v, self.v(), t); lemma_same_tree(v, self.v()); lemma_fd_updated(self.v(), t, fd, FdEntry::File(file)); }
@@ fn FileSystem::read_vec [C01,C10,C11]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        !old(self).is_file_fd(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor), // [C09]
        old(self).is_file_fd(fd) && !has_right(old(self).file_of(fd).stat, RIGHTS_FD_READ) ==> r == Err::<u64, Error>(Error::OperationNotPermitted), // [C11]
        r is Err ==> final(self).same(old(self)) && final(dst)@ == old(dst)@, // [C10,C11]
        r is Ok <==> old(self).is_file_fd(fd) && has_right(old(self).file_of(fd).stat, RIGHTS_FD_READ), // [C11,C20]
        r is Ok ==> { let f = old(self).file_of(fd); let n = f.node; let c = f.cursor;
            &&& final(self).fds() == old(self).fds().insert(fd, FdEntry::File(File { cursor: (c + r->Ok_0) as u64, ..f })) && c + r->Ok_0 <= u64::MAX // [C09,C10]
            &&& r->Ok_0 == read_len(active(old(self).v())[n].size as int, c as int, flat(old(dst)@).len() as int) // [C01]
            &&& scattered(old(dst)@, final(dst)@, content(final(self).v(), n), c as int, r->Ok_0 as int) // [C01,C13]
            &&& grown(old(self).v(), final(self).v(), n) // [C02]
        },
@@ loop FileSystem::read_vec 1
    invariant
        0 <= buf_no <= d0.len(), self.storage.wf(), n == file.node, n == f.node, v.meta.dom().contains(n), v.meta[n].file_type == FileType::RegularFile, sane(v), tree(v),
        self.fd_table == tb, self.names_cache == nc, self.root_fd == 3, file.stat == f.stat, file.cursor == off + read_size,
        active(self.storage.fsv()) == active(v), active(v).dom().contains(n), fsize == active(v)[n].size, fsize <= max_file_size(),
        grown(v, self.storage.fsv(), n), dst@.len() == d0.len(), forall|i: int| buf_no <= i < d0.len() ==> dst@[i] == #[trigger] d0[i],
        scattered(d0.take(buf_no as int), dst@.take(buf_no as int), content(self.storage.fsv(), n), off, read_size as int),
        0 <= read_size <= flat(d0.take(buf_no as int)).len(), read_size > 0 ==> off + read_size <= content(self.storage.fsv(), n).len() && off + read_size <= fsize,
        read_size == read_len(fsize, off, flat(d0.take(buf_no as int)).len() as int),
    ensures buf_no == d0.len(),
    decreases d0.len() - buf_no,
@@ hint FileSystem::read_vec entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost n = node_of(t[fd]); let ghost d0 = dst@; let ghost fsize = active(v)[n].size as int;
    proof { self.storage.lemma_sane(); if self.is_file_fd(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::read_vec before "let mut read_size = 0;"
    let ghost tb = self.fd_table; let ghost nc = self.names_cache; let ghost f = file; let ghost off = file.cursor as int;
    proof { assert(flat(d0.take(0)) =~= Seq::<u8>::empty()); assert(d0.take(0) =~= dst@.take(0)); }
@@ hint FileSystem::read_vec loop1:start
    let ghost u = self.storage.fsv(); let ghost d1 = dst@; let ghost r1 = read_size;
    proof { self.storage.lemma_sane(); lemma_flat_next(d0, buf_no as int); lemma_grown_tree(v, u, n); }
@@ hint FileSystem::read_vec loop1:end
    proof {
        let w = self.storage.fsv(); let k = buf_no - 1;
        lemma_grown_both(v, u, w, n);
        assert forall|i: int| 0 <= i < r1 implies content(w, n)[off + i] == #[trigger] content(u, n)[off + i] by { }
        lemma_scattered(d0, d1, dst@, content(u, n), content(w, n), off, r1 as int, k, read_size - r1);
    }
@@ hint FileSystem::read_vec before "self.put_file(fd, file);"
    proof { assert(d0.take(d0.len() as int) =~= d0); assert(dst@.take(d0.len() as int) =~= dst@); lemma_grown_tree(v, self.v(), n); lemma_same_tree_fds(v, self.v(), t); lemma_fd_updated(self.v(), t, fd, FdEntry::File(file)); }
@@ fn FileSystem::read_vec_with_offset [C01,C10,C11]
    requires old(self).wf(), old(self).fd_table.room(),
    ensures
        final(self).wf(), // [C06,C09,C14]
        !old(self).is_file_fd(fd) ==> r == Err::<u64, Error>(Error::BadFileDescriptor), // [C09]
        old(self).is_file_fd(fd) && !has_right(old(self).file_of(fd).stat, RIGHTS_FD_READ) ==> r == Err::<u64, Error>(Error::OperationNotPermitted), // [C11]
        r is Err ==> final(self).same(old(self)) && final(dst)@ == old(dst)@, // [C10,C11]
        r is Ok <==> old(self).is_file_fd(fd) && has_right(old(self).file_of(fd).stat, RIGHTS_FD_READ), // [C11,C20]
        r is Ok ==> { let f = old(self).file_of(fd); let n = f.node; let c = offset;
            &&& final(self).fds() == old(self).fds() // [C09,C10]
            &&& r->Ok_0 == read_len(active(old(self).v())[n].size as int, c as int, flat(old(dst)@).len() as int) // [C01]
            &&& scattered(old(dst)@, final(dst)@, content(final(self).v(), n), c as int, r->Ok_0 as int) // [C01,C13]
            &&& grown(old(self).v(), final(self).v(), n) // [C02]
        },
@@ loop FileSystem::read_vec_with_offset 1
    invariant
        0 <= buf_no <= d0.len(), self.storage.wf(), n == file.node, n == f.node, v.meta.dom().contains(n), v.meta[n].file_type == FileType::RegularFile, sane(v), tree(v),
        self.fd_table == tb, self.names_cache == nc, self.root_fd == 3, file == f, offset == off,
        active(self.storage.fsv()) == active(v), active(v).dom().contains(n), fsize == active(v)[n].size, fsize <= max_file_size(),
        grown(v, self.storage.fsv(), n), dst@.len() == d0.len(), forall|i: int| buf_no <= i < d0.len() ==> dst@[i] == #[trigger] d0[i],
        scattered(d0.take(buf_no as int), dst@.take(buf_no as int), content(self.storage.fsv(), n), off, read_size as int),
        0 <= read_size <= flat(d0.take(buf_no as int)).len(), read_size > 0 ==> off + read_size <= content(self.storage.fsv(), n).len() && off + read_size <= fsize,
        read_size == read_len(fsize, off, flat(d0.take(buf_no as int)).len() as int),
    ensures buf_no == d0.len(),
    decreases d0.len() - buf_no,
@@ hint FileSystem::read_vec_with_offset entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost n = node_of(t[fd]); let ghost d0 = dst@; let ghost fsize = active(v)[n].size as int;
    proof { self.storage.lemma_sane(); if self.is_file_fd(fd) { lemma_node(v, node_of(t[fd])); } }
@@ hint FileSystem::read_vec_with_offset before "let mut read_size = 0;"
    let ghost tb = self.fd_table; let ghost nc = self.names_cache; let ghost f = file; let ghost off = offset as int;
    proof { assert(flat(d0.take(0)) =~= Seq::<u8>::empty()); assert(d0.take(0) =~= dst@.take(0)); }
@@ hint FileSystem::read_vec_with_offset loop1:start
    let ghost u = self.storage.fsv(); let ghost d1 = dst@; let ghost r1 = read_size;
    proof { self.storage.lemma_sane(); lemma_flat_next(d0, buf_no as int); lemma_grown_tree(v, u, n); }
@@ hint FileSystem::read_vec_with_offset loop1:end
    proof {
        let w = self.storage.fsv(); let k = buf_no - 1;
        lemma_grown_both(v, u, w, n);
        assert forall|i: int| 0 <= i < r1 implies content(w, n)[off + i] == #[trigger] content(u, n)[off + i] by { }
        lemma_scattered(d0, d1, dst@, content(u, n), content(w, n), off, r1 as int, k, read_size - r1);
    }
@@ hint FileSystem::read_vec_with_offset before "self.put_file(fd, file);"
    proof { assert(d0.take(d0.len() as int) =~= d0); assert(dst@.take(d0.len() as int) =~= dst@); lemma_grown_tree(v, self.v(), n); lemma_same_tree_fds(v, self.v(), t); lemma_fd_updated(self.v(), t, fd, FdEntry::File(file)); }
@@ extra attr FileSystem::read_vec
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ extra attr FileSystem::read_vec_with_offset
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ extra attr FileSystem::write_vec
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ extra attr FileSystem::write_vec_with_offset
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ fn FileSystem::create_hard_link [C05,C06,C08,C09,C12,C20]
    requires old(self).wf(), old(self).room(), short_path(new_path@),
    ensures
        final(self).wf(), // [C06,C08,C12]
        r is Err ==> final(self).same(old(self)), // [C12,C20]
        !(old(self).is_dir_fd(old_fd) && old(self).is_dir_fd(new_fd)) ==> r is Err, // [C09]
        old(self).is_dir_fd(old_fd) && old(self).is_dir_fd(new_fd) ==> { let v = old(self).v(); let w = final(self).v(); let t = old(self).fds(); let t2 = final(self).fds();
            let sd = old(self).dir_of(old_fd); let d = old(self).dir_of(new_fd); let s = target(v, sd, old_path@);
            &&& r is Ok <==> leads_to_entry(v, sd, old_path@) && can_make_link(v, old(self).open_counts(), d, new_path@, s, false) // [C08,C12]
            &&& resolve(v.entries, sd, old_path@) is Err ==> r is Err && r->Err_0 == resolve(v.entries, sd, old_path@)->Err_0 // [C07]
            &&& r is Ok ==> (if resolve(v.entries, d, new_path@) == Ok::<u64, Error>(s) { w == v } else { link_made(v, w, d, new_path@, s) }) // [C02,C08]
            &&& r is Ok ==> resolve(w.entries, d, new_path@) == Ok::<u64, Error>(s) && is_new_fd(t, t2, r->Ok_0) && t2[r->Ok_0] is File && t2[r->Ok_0]->File_0.node == s && t2[r->Ok_0]->File_0.cursor == 0 // [C08,C09]
        },
@@ hint FileSystem::create_hard_link entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost c = self.open_counts(); let ghost sd = node_of(t[old_fd]); let ghost d = node_of(t[new_fd]); let ghost s = target(v, sd, old_path@);
    proof {
        lemma_flags(); self.storage.lemma_sane();
        if self.is_dir_fd(old_fd) && self.is_dir_fd(new_fd) {
            lemma_node(v, sd); lemma_node(v, d);
            if resolve(v.entries, sd, old_path@) is Ok { lemma_resolved(v, sd, old_path@); lemma_node(v, s); }
        }
    }
@@ hint FileSystem::create_hard_link before "let node = $x:any;"
    let ghost w = self.v();
    proof {
        self.storage.lemma_sane();
        if resolve(v.entries, d, new_path@) != Ok::<u64, Error>(s) {
            let (v2, p) = choose|v2: FsView, p: u64| #[trigger] link_steps(v, v2, w, p, d, new_path@, s);
            lemma_link_keeps(v, v2, w, p, d, new_path@, s);
            lemma_keeps(v, w, if resolve(v.entries, d, new_path@) is Ok { victim(v, d, new_path@) } else { None }, t, c);
            lemma_link_made(v, v2, w, p, d, new_path@, s);
        }
    }
@@ fn FileSystem::rename [C05,C06,C07,C08,C09,C12,C20]
    requires old(self).wf(), old(self).room(), short_path(new_path@),
    ensures
        final(self).wf(), // [C06,C08,C12]
        r is Err ==> final(self).same(old(self)), // [C12,C20]
        !(old(self).is_dir_fd(old_fd) && old(self).is_dir_fd(new_fd)) ==> r is Err, // [C09]
        old(self).is_dir_fd(old_fd) && old(self).is_dir_fd(new_fd) ==> { let v = old(self).v(); let w = final(self).v(); let t = old(self).fds(); let t2 = final(self).fds();
            let sd = old(self).dir_of(old_fd); let d = old(self).dir_of(new_fd); let s = target(v, sd, old_path@);
            &&& resolve(v.entries, sd, old_path@) is Err ==> r is Err && r->Err_0 == resolve(v.entries, sd, old_path@)->Err_0 // [C07]
            &&& r is Ok <==> resolve(v.entries, sd, old_path@) is Ok
                && (resolve(v.entries, d, new_path@) == Ok::<u64, Error>(s) || can_rename(v, old(self).open_counts(), sd, old_path@, d, new_path@)) // [C08,C12]
            &&& r is Ok && resolve(v.entries, d, new_path@) == Ok::<u64, Error>(s) ==> w == v // [C08]
            &&& r is Ok && resolve(v.entries, d, new_path@) != Ok::<u64, Error>(s) ==> renamed(v, w, sd, old_path@, d, new_path@)
                && !has_name(w.entries, parent_of(v, sd, old_path@), last_name(old_path@)) && w.meta[s] == v.meta[s] && w.data[s] == v.data[s] // [C02,C06,C08]
            &&& r is Ok ==> resolve(w.entries, d, new_path@) == Ok::<u64, Error>(s) // [C07,C08]
            &&& r is Ok ==> is_new_fd(t, t2, r->Ok_0) && node_of(t2[r->Ok_0]) == s // [C09]
        },
@@ hint FileSystem::rename entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost c = self.open_counts(); let ghost sd = node_of(t[old_fd]); let ghost d = node_of(t[new_fd]); let ghost s = target(v, sd, old_path@);
    let ghost np = new_path@; let ghost op = old_path@; let ghost a = parts_of(np)->Ok_0;
    proof {
        lemma_flags(); self.storage.lemma_sane();
        if self.is_dir_fd(old_fd) && self.is_dir_fd(new_fd) {
            lemma_node(v, sd); lemma_node(v, d);
            if resolve(v.entries, sd, op) is Ok { lemma_resolved(v, sd, op); lemma_node(v, s); }
            if resolve(v.entries, d, np) is Ok { lemma_resolved(v, d, np); lemma_node(v, target(v, d, np)); }
            if parts_of(np) is Err { lemma_refused_path(np); }
            lemma_deep(v.entries, d, a); assert(a.take(a.len() as int) =~= a);
        }
    }
@@ hint FileSystem::rename before "create_hard_link($x:any)?;"
    proof { assert(self.v() == v); assert(!v.mounts.dom().contains(s)); assert(not_into_itself(v, d, np, s)); }
@@ hint FileSystem::rename before "let (node, _metadata) = $x:any;"
    let ghost w1 = self.v();
    proof { self.storage.lemma_sane(); lemma_rename_mid(v, w1, t, c, sd, op, d, np); }
@@ hint FileSystem::rename after "let (node, _metadata) = $x:any;"
    proof { self.storage.lemma_sane(); lemma_rename_end(v, w1, self.v(), t, c, sd, op, d, np); lemma_node(self.v(), s); }
@@ fn FileSystem::mount_memory_file [C02,C09,C13]
    requires old(self).wf(), old(self).room(), short_path(stripped(filename@)),
    ensures
        final(self).wf(), // [C06,C09,C13,C14]
        final(self).fds() == old(self).fds(), // [C09]
        ({ let v = old(self).v(); let w = final(self).v(); let path = stripped(filename@); let mem = memory.mem();
            match resolve(v.entries, 0, path) {
                Ok(n) => {
                    &&& r is Ok <==> !is_dir_node(v, n) && can_mount(v, n, policy, mem.len() as int)
                    &&& w == (if r is Ok { mounted(v, n, policy, mem) } else { v })
                }
                Err(_) => {
                    &&& !can_create(v, 0, path) ==> r is Err && w == v
                    &&& can_create(v, 0, path) ==> exists|u: FsView, n: u64| #[trigger] created(v, u, 0, path, FileType::RegularFile, 0, n)
                        && (r is Ok <==> can_mount(u, n, policy, mem.len() as int)) && w == (if r is Ok { mounted(u, n, policy, mem) } else { u })
                }
            }
        }), // [C13]
@@ hint FileSystem::mount_memory_file entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost path = stripped(filename@);
    proof { lemma_flags(); self.storage.lemma_sane(); lemma_node(v, 0); if resolve(v.entries, 0, path) is Ok { lemma_resolved(v, 0, path); lemma_node(v, target(v, 0, path)); } }
@@ hint FileSystem::mount_memory_file before "let result = $x:any;"
    let ghost u = self.v(); let ghost t2 = self.fds();
    proof { self.storage.lemma_sane(); lemma_node(u, node_of(t2[fd])); }
@@ hint FileSystem::mount_memory_file before "let _ = self.close($x:any);"
    proof {
        let w = self.v(); let n = node_of(t2[fd]);
        assert(result is Ok ==> w == mounted(u, n, policy, memory.mem())); if w != u { lemma_mount_tree(u, w, n); }
        lemma_same_tree_fds(u, w, t2); lemma_insert_remove(t, fd, t2[fd]);
    }
@@ fn FileSystem::init_memory_file [C02,C09,C13]
    requires old(self).wf(), old(self).room(), short_path(stripped(filename@)),
    ensures
        final(self).wf(), // [C06,C09,C13,C14]
        final(self).fds() == old(self).fds(), // [C09]
        ({ let v = old(self).v(); let w = final(self).v(); let path = stripped(filename@);
            &&& r is Ok <==> resolve(v.entries, 0, path) is Ok && v.mounts.dom().contains(target(v, 0, path))
            &&& r is Err ==> w == v
            &&& r is Ok ==> init_done(v, w, target(v, 0, path))
        }), // [C13]
@@ hint FileSystem::init_memory_file entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost path = stripped(filename@);
    proof { lemma_flags(); self.storage.lemma_sane(); lemma_node(v, 0); if resolve(v.entries, 0, path) is Ok { lemma_resolved(v, 0, path); lemma_node(v, target(v, 0, path)); } }
@@ hint FileSystem::init_memory_file before "let result = $x:any;"
    let ghost u = self.v(); let ghost t2 = self.fds();
    proof { self.storage.lemma_sane(); lemma_node(u, node_of(t2[fd])); }
@@ hint FileSystem::init_memory_file before "let _ = self.close($x:any);"
    proof {
        let w = self.v(); let n = node_of(t2[fd]);
        if w != u { lemma_mount_tree(u, w, n); }
        lemma_same_tree_fds(u, w, t2); lemma_insert_remove(t, fd, t2[fd]);
    }
@@ fn FileSystem::store_memory_file [C02,C04,C09,C13]
    requires old(self).wf(), old(self).room(), short_path(stripped(filename@)),
    ensures
        final(self).wf(), // [C06,C09,C13,C14]
        final(self).fds() == old(self).fds(), // [C09]
        ({ let v = old(self).v(); let w = final(self).v(); let path = stripped(filename@);
            &&& r is Ok <==> resolve(v.entries, 0, path) is Ok && v.mounts.dom().contains(target(v, 0, path)) && v.mmeta[target(v, 0, path)].size <= max_size_of(v.meta[target(v, 0, path)])
            &&& r is Err ==> w == v
            &&& r is Ok ==> store_done(v, w, target(v, 0, path))
        }), // [C13]
@@ hint FileSystem::store_memory_file entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost path = stripped(filename@);
    proof { lemma_flags(); self.storage.lemma_sane(); lemma_node(v, 0); if resolve(v.entries, 0, path) is Ok { lemma_resolved(v, 0, path); lemma_node(v, target(v, 0, path)); } }
@@ hint FileSystem::store_memory_file before "let result = $x:any;"
    let ghost u = self.v(); let ghost t2 = self.fds();
    proof { self.storage.lemma_sane(); lemma_node(u, node_of(t2[fd])); }
@@ hint FileSystem::store_memory_file before "let _ = self.close($x:any);"
    proof {
        let w = self.v(); let n = node_of(t2[fd]);
        if w != u { lemma_mount_tree(u, w, n); }
        lemma_same_tree_fds(u, w, t2); lemma_insert_remove(t, fd, t2[fd]);
    }
@@ fn FileSystem::unmount_memory_file [C09,C13]
    requires old(self).wf(), old(self).room(), short_path(stripped(filename@)),
    ensures
        final(self).wf(), // [C06,C09,C13,C14]
        final(self).fds() == old(self).fds(), // [C09]
        ({ let v = old(self).v(); let w = final(self).v(); let path = stripped(filename@);
            &&& r is Ok <==> resolve(v.entries, 0, path) is Ok && v.mounts.dom().contains(target(v, 0, path))
            &&& r is Err ==> w == v
            &&& r is Ok ==> w == (FsView { mounts: v.mounts.remove(target(v, 0, path)), ..v }) && r->Ok_0.mem() == v.mounts[target(v, 0, path)]
        }), // [C13]
@@ hint FileSystem::unmount_memory_file entry
    let ghost v = self.v(); let ghost t = self.fds(); let ghost path = stripped(filename@);
    proof { lemma_flags(); self.storage.lemma_sane(); lemma_node(v, 0); if resolve(v.entries, 0, path) is Ok { lemma_resolved(v, 0, path); lemma_node(v, target(v, 0, path)); } }
@@ hint FileSystem::unmount_memory_file before "let result = $x:any;"
    let ghost u = self.v(); let ghost t2 = self.fds();
    proof { self.storage.lemma_sane(); lemma_node(u, node_of(t2[fd])); }
@@ hint FileSystem::unmount_memory_file before "let _ = self.close($x:any);"
    proof {
        let w = self.v(); let n = node_of(t2[fd]);
        if w != u { lemma_mount_tree(u, w, n); }
        lemma_same_tree_fds(u, w, t2); lemma_insert_remove(t, fd, t2[fd]);
    }
@@ extra attr FileSystem::rename
#[verifier::spinoff_prover]
@@ extra attr FileSystem::create_hard_link
#[verifier::spinoff_prover]
@@ extra attr FileSystem::store_mounted_memory
#[verifier::spinoff_prover]
