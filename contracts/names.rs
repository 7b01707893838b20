// ------------------------------------------------------------------------------------------------
// The vocabulary of the contracts of the name space: paths, the tree of directories, and what the
// operations on it do (specification functions and lemmas only, nothing here is executed).
// ------------------------------------------------------------------------------------------------
pub mod names {
use vstd::prelude::*;
use crate::model::*;
use crate::shim::*;
verus! {
pub type Entries = Map<(u64, u32), DirEntry>;

// ---------------------------------------------------------------- paths
/// reading the path parts from the left: the normal form of the first parts, or why the path is refused
pub open spec fn norm(segs: Seq<Seq<char>>) -> Result<Seq<Seq<char>>, Error>
    decreases segs.len(),
{
    if segs.len() == 0 {
        Ok(Seq::empty())
    } else {
        match norm(segs.drop_last()) {
            Err(e) => Err(e),
            Ok(a) => {
                let s = segs.last();
                if s == ".."@ {
                    if a.len() == 0 { Err(Error::OperationNotPermitted) } else { Ok(a.drop_last()) }
                } else if s.len() == 0 || s == "."@ {
                    Ok(a)
                } else if encode_utf8(s).len() > 255 {
                    Err(Error::FilenameTooLong)
                } else {
                    Ok(a.push(s))
                }
            },
        }
    }
}
/// the names a path consists of
pub open spec fn parts_of(path: Seq<char>) -> Result<Seq<Seq<char>>, Error> {
    if path.len() > 0 && path[0] == '/' { Err(Error::OperationNotPermitted) } else { norm(split_at_slash(path)) }
}
pub proof fn lemma_norm_err(segs: Seq<Seq<char>>, k: int)
    requires 0 <= k <= segs.len(), norm(segs.take(k)) is Err,
    ensures norm(segs) == norm(segs.take(k)),
    decreases segs.len(),
{
    if k == segs.len() {
        assert(segs.take(k) =~= segs);
    } else {
        let s = segs.drop_last();
        assert(s.take(k) =~= segs.take(k));
        lemma_norm_err(s, k);
    }
}
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }

/// a name an entry can have
pub open spec fn good_part(s: Seq<char>) -> bool {
    &&& s.len() >= 1 && s != "."@ && s != ".."@ && encode_utf8(s).len() <= 255
    &&& forall|i: int| 0 <= i < s.len() ==> s[i] != '/'
}
pub open spec fn good_name(b: Seq<u8>) -> bool { exists|s: Seq<char>| #[trigger] encode_utf8(s) == b && good_part(s) }
pub open spec fn good_parts(a: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < a.len() ==> good_part(#[trigger] a[i]) }

pub proof fn lemma_split_parts(s: Seq<char>)
    ensures
        split_at_slash(s).len() >= 1,
        forall|i: int, j: int| 0 <= i < split_at_slash(s).len() && 0 <= j < split_at_slash(s)[i].len() ==> #[trigger] split_at_slash(s)[i][j] != '/',
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_split_parts(s.drop_last());
        let r = split_at_slash(s.drop_last()); let t = split_at_slash(s);
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i].len() implies #[trigger] t[i][j] != '/' by {
            if i < t.len() - 1 { assert(t[i] == r[i]); }
            else if s.last() != '/' { assert(t[i] == r.last().push(s.last())); if j < r.last().len() { assert(t[i][j] == r[r.len() - 1][j]); } }
        }
    }
}
pub proof fn lemma_norm_parts(segs: Seq<Seq<char>>)
    requires forall|i: int, j: int| 0 <= i < segs.len() && 0 <= j < segs[i].len() ==> #[trigger] segs[i][j] != '/', norm(segs) is Ok,
    ensures good_parts(norm(segs)->Ok_0),
    decreases segs.len(),
{
    if segs.len() > 0 {
        let s = segs.drop_last();
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() implies #[trigger] s[i][j] != '/' by { assert(s[i] == segs[i]); assert(segs[i][j] != '/'); }
        lemma_norm_parts(s);
        let x = segs.last();
        assert forall|j: int| 0 <= j < x.len() implies x[j] != '/' by { assert(segs[segs.len() - 1][j] != '/'); }
        reveal_strlit(""); 
        assert(good_parts(norm(segs)->Ok_0));
    }
}
/// the names of a path are names an entry can have
pub proof fn lemma_parts_good(path: Seq<char>)
    requires parts_of(path) is Ok,
    ensures good_parts(parts_of(path)->Ok_0),
{
    lemma_split_parts(path);
    lemma_norm_parts(split_at_slash(path));
}
/// a name an entry can have is a path of one part
pub proof fn lemma_good_path(s: Seq<char>)
    requires good_part(s),
    ensures parts_of(s) == Ok::<Seq<Seq<char>>, Error>(seq![s]),
{
    lemma_split_one(s);
    assert(seq![s].drop_last() =~= Seq::<Seq<char>>::empty());
    assert(norm(seq![s].drop_last()) == Ok::<Seq<Seq<char>>, Error>(Seq::empty()));
    assert(seq![s].last() == s);
    assert(Seq::<Seq<char>>::empty().push(s) =~= seq![s]);
}
pub proof fn lemma_split_one(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '/',
    ensures split_at_slash(s) == seq![s],
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
        lemma_split_one(t);
        assert(seq![t].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(t.push(s.last()) =~= s);
        assert(split_at_slash(s) =~= seq![s]);
    } else {
        assert(s =~= Seq::<char>::empty());
    }
}

// ---------------------------------------------------------------- lookup
/// directory `d` has the entry `i` with the given name
pub open spec fn named(es: Entries, d: u64, i: u32, name: Seq<u8>) -> bool { es.dom().contains((d, i)) && es[(d, i)].name.kv() == name }
pub open spec fn has_name(es: Entries, d: u64, name: Seq<u8>) -> bool { exists|i: u32| named(es, d, i, name) }
pub open spec fn idx_of(es: Entries, d: u64, name: Seq<u8>) -> u32 { choose|i: u32| named(es, d, i, name) }
pub open spec fn step(es: Entries, d: u64, name: Seq<u8>) -> Option<u64> {
    if has_name(es, d, name) { Some(es[(d, idx_of(es, d, name))].node) } else { None }
}
/// no directory has two entries with the same name
pub open spec fn uniq(es: Entries) -> bool {
    forall|d: u64, i: u32, j: u32| #[trigger] es.dom().contains((d, i)) && #[trigger] es.dom().contains((d, j)) && es[(d, i)].name.kv() == es[(d, j)].name.kv() ==> i == j
}
/// the node the names lead to, one after the other, from `d`
pub open spec fn walk(es: Entries, d: u64, a: Seq<Seq<char>>) -> Option<u64>
    decreases a.len(),
{
    if a.len() == 0 { Some(d) } else {
        match walk(es, d, a.drop_last()) { None => None, Some(p) => step(es, p, encode_utf8(a.last())) }
    }
}
/// what a path leads to
pub open spec fn resolve(es: Entries, d: u64, path: Seq<char>) -> Result<u64, Error> {
    match parts_of(path) {
        Err(e) => Err(e),
        Ok(a) => match walk(es, d, a) { None => Err(Error::NoSuchFileOrDirectory), Some(n) => Ok(n) },
    }
}
/// what the cache remembers is true
pub open spec fn coherent(c: Map<(u64, Seq<char>), u64>, es: Entries) -> bool {
    forall|k: (u64, Seq<char>)| #[trigger] c.dom().contains(k) ==> resolve(es, k.0, k.1) == Ok::<u64, Error>(c[k])
}

pub proof fn lemma_step(es: Entries, d: u64, i: u32, name: Seq<u8>)
    requires uniq(es), named(es, d, i, name),
    ensures step(es, d, name) == Some(es[(d, i)].node), idx_of(es, d, name) == i,
{
    let j = idx_of(es, d, name);
    assert(named(es, d, j, name));
}
pub proof fn lemma_walk_none(es: Entries, d: u64, a: Seq<Seq<char>>, k: int)
    requires 0 <= k <= a.len(), walk(es, d, a.take(k)) is None,
    ensures walk(es, d, a) is None,
    decreases a.len(),
{
    if k == a.len() { assert(a.take(k) =~= a); }
    else { assert(a.drop_last().take(k) =~= a.take(k)); lemma_walk_none(es, d, a.drop_last(), k); }
}
pub proof fn lemma_walk_next(es: Entries, d: u64, a: Seq<Seq<char>>, k: int)
    requires 0 <= k < a.len(),
    ensures
        walk(es, d, a.take(k + 1)) == (match walk(es, d, a.take(k)) { None => None::<u64>, Some(p) => step(es, p, encode_utf8(a[k])) }),
        walk(es, d, a.take(0)) == Some(d), a.take(a.len() as int) == a,
{
    assert(a.take(k + 1).drop_last() =~= a.take(k));
    assert(a.take(k + 1).last() == a[k]);
    assert(a.take(a.len() as int) =~= a);
}
/// `t` has all entries of `s`
pub open spec fn more(s: Entries, t: Entries) -> bool { forall|k: (u64, u32)| #[trigger] s.dom().contains(k) ==> t.dom().contains(k) && t[k] == s[k] }
pub proof fn lemma_more_step(s: Entries, t: Entries, d: u64, name: Seq<u8>)
    requires uniq(t), more(s, t), has_name(s, d, name),
    ensures step(t, d, name) == step(s, d, name),
{
    let i = idx_of(s, d, name);
    assert(named(s, d, i, name));
    assert(named(t, d, i, name));
    lemma_step(t, d, i, name);
}
pub proof fn lemma_more_walk(s: Entries, t: Entries, d: u64, a: Seq<Seq<char>>)
    requires uniq(t), more(s, t), walk(s, d, a) is Some,
    ensures walk(t, d, a) == walk(s, d, a),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_more_walk(s, t, d, a.drop_last());
        lemma_more_step(s, t, walk(s, d, a.drop_last())->0, encode_utf8(a.last()));
    }
}
pub proof fn lemma_more_coherent(c: Map<(u64, Seq<char>), u64>, s: Entries, t: Entries)
    requires uniq(t), more(s, t), coherent(c, s),
    ensures coherent(c, t),
{
    assert forall|k: (u64, Seq<char>)| #[trigger] c.dom().contains(k) implies resolve(t, k.0, k.1) == Ok::<u64, Error>(c[k]) by {
        lemma_more_walk(s, t, k.0, parts_of(k.1)->Ok_0);
    }
}

// ---------------------------------------------------------------- the tree of directories
/// the entries that lead to node `n`
pub open spec fn names_of(es: Entries, n: u64) -> Set<(u64, u32)> { es.dom().filter(|k: (u64, u32)| es[k].node == n) }
/// the entries of directory `d`
pub open spec fn kids_of(es: Entries, d: u64) -> Set<(u64, u32)> { es.dom().filter(|k: (u64, u32)| k.0 == d) }
pub open spec fn ranked(es: Entries, rank: spec_fn(u64) -> nat) -> bool {
    forall|k: (u64, u32)| #[trigger] es.dom().contains(k) ==> rank(es[k].node) > rank(k.0)
}
/// no directory is below itself
pub open spec fn acyclic(es: Entries) -> bool { exists|rank: spec_fn(u64) -> nat| ranked(es, rank) }
/// no directory is below itself, and none would be with `n` below `p`
pub open spec fn acyclic_with(es: Entries, n: u64, p: u64) -> bool { exists|rank: spec_fn(u64) -> nat| ranked(es, rank) && rank(n) > rank(p) }

pub open spec fn is_dir_node(v: FsView, n: u64) -> bool { v.meta.dom().contains(n) && v.meta[n].file_type == FileType::Directory }

pub open spec fn entry_ok(v: FsView, k: (u64, u32), e: DirEntry) -> bool {
    &&& is_dir_node(v, k.0)
    &&& v.meta.dom().contains(e.node) && e.node != 0
    &&& 1 <= k.1 < 4294967285
    &&& good_name(e.name.kv())
    &&& e.entry_type is None || e.entry_type == Some(v.meta[e.node].file_type)
}
pub open spec fn entries_ok(v: FsView) -> bool {
    forall|k: (u64, u32)| #[trigger] v.entries.dom().contains(k) ==> entry_ok(v, k, v.entries[k])
}
/// node `x` may have any number of names, node `c` has one name less than it counts (0 stands for none)
pub open spec fn node_ok(v: FsView, n: u64, x: u64, c: u64) -> bool {
    let m = v.meta[n]; let names = names_of(v.entries, n).len();
    &&& m.link_count == names + (if n == 0 { 1int } else { 0 }) + (if n == c && c != 0 { 1int } else { 0 })
    &&& m.file_type != FileType::SymbolicLink
    &&& m.file_type == FileType::Directory ==> m.size == kids_of(v.entries, n).len() && m.maximum_size_allowed is None && !v.mounts.dom().contains(n)
    &&& n != 0 && n != x ==> names >= 1 && (m.file_type == FileType::Directory ==> names == 1)
}
pub open spec fn nodes_ok(v: FsView, x: u64, c: u64) -> bool {
    forall|n: u64| #[trigger] v.meta.dom().contains(n) ==> node_ok(v, n, x, c)
}
pub open spec fn tree_c(v: FsView, x: u64, c: u64) -> bool {
    &&& is_dir_node(v, 0)
    &&& uniq(v.entries)
    &&& entries_ok(v)
    &&& nodes_ok(v, x, c)
    &&& acyclic(v.entries)
}
/// the directories form a tree: names are unique, every entry leads to a file or directory, link counts and sizes of
/// directories are right, every file and directory (but node `x`) has a name, directories have one
pub open spec fn tree_x(v: FsView, x: u64) -> bool { tree_c(v, x, 0) }
pub open spec fn tree(v: FsView) -> bool { tree_x(v, 0) }

/// nodes, entry numbers and counts are far from exhausted
pub open spec fn room(v: FsView) -> bool {
    &&& v.next_node < 0x3fff_ffff_ffff_ffff
    &&& forall|k: (u64, u32)| #[trigger] v.entries.dom().contains(k) ==> k.1 < 4294967284
    &&& v.entries.dom().len() < 0xff_ffff_ffff
}
pub proof fn lemma_kids(es: Entries, d: u64)
    ensures kids_of(es, d).len() <= es.dom().len(), names_of(es, d).len() <= es.dom().len(),
{
    vstd::set_lib::lemma_len_subset(kids_of(es, d), es.dom());
    vstd::set_lib::lemma_len_subset(names_of(es, d), es.dom());
}
pub proof fn lemma_insert_counts(es: Entries, k: (u64, u32), e: DirEntry)
    requires !es.dom().contains(k),
    ensures
        forall|n: u64| (#[trigger] names_of(es.insert(k, e), n)).len() == names_of(es, n).len() + (if n == e.node { 1int } else { 0 }),
        forall|d: u64| (#[trigger] kids_of(es.insert(k, e), d)).len() == kids_of(es, d).len() + (if d == k.0 { 1int } else { 0 }),
{
    let t = es.insert(k, e);
    assert forall|n: u64| true implies (#[trigger] names_of(t, n)).len() == names_of(es, n).len() + (if n == e.node { 1int } else { 0 }) by {
        if n == e.node { assert(names_of(t, n) =~= names_of(es, n).insert(k)); } else { assert(names_of(t, n) =~= names_of(es, n)); }
    }
    assert forall|n: u64| true implies (#[trigger] kids_of(t, n)).len() == kids_of(es, n).len() + (if n == k.0 { 1int } else { 0 }) by {
        if n == k.0 { assert(kids_of(t, n) =~= kids_of(es, n).insert(k)); } else { assert(kids_of(t, n) =~= kids_of(es, n)); }
    }
}
pub proof fn lemma_remove_counts(es: Entries, k: (u64, u32))
    requires es.dom().contains(k),
    ensures
        forall|n: u64| (#[trigger] names_of(es.remove(k), n)).len() == names_of(es, n).len() - (if n == es[k].node { 1int } else { 0 }),
        forall|d: u64| (#[trigger] kids_of(es.remove(k), d)).len() == kids_of(es, d).len() - (if d == k.0 { 1int } else { 0 }),
{
    let t = es.remove(k);
    lemma_insert_counts(t, k, es[k]);
    assert(t.insert(k, es[k]) =~= es);
}
/// a node that only files or nothing leads out of can be put below any directory
pub proof fn lemma_acyclic_leaf(es: Entries, n: u64, p: u64)
    requires acyclic(es), forall|k: (u64, u32)| #[trigger] es.dom().contains(k) ==> k.0 != n, n != p,
    ensures acyclic_with(es, n, p),
{
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(es, rank);
    let r2 = |x: u64| if x == n { rank(n) + rank(p) + 1 } else { rank(x) };
    assert(ranked(es, r2));
    assert(r2(n) > r2(p));
}

/// the record of a new node
pub open spec fn new_meta(v: FsView, t: FileType, ctime: u64) -> Metadata {
    Metadata { node: v.next_node, file_type: t, link_count: 1, size: 0, times: Times { accessed: ctime, modified: ctime, created: ctime },
        chunk_type: if t == FileType::RegularFile { Some(v.chunk_type) } else { None }, maximum_size_allowed: None, first_dir_entry: None, last_dir_entry: None }
}
pub open spec fn fresh_node(v: FsView, t: FileType, ctime: u64) -> FsView {
    with_meta(FsView { next_node: (v.next_node + 1) as u64, ..v }, v.next_node, new_meta(v, t, ctime))
}
/// `w` is `v` with one more entry in directory `p`: a name of node `n`
pub open spec fn linked(v: FsView, w: FsView, p: u64, n: u64, name: Seq<u8>, t: FileType) -> bool {
    let k = (p, next_idx(v.entries, p)); let e = w.entries[k];
    &&& e.node == n && e.name.kv() == name && e.entry_type == Some(t)
    &&& w == with_meta(FsView { entries: v.entries.insert(k, e), ..v }, p, Metadata { size: (v.meta[p].size + 1) as u64, ..v.meta[p] })
}
/// directory `p` can get an entry of the given name
pub open spec fn can_link(v: FsView, p: u64, name: Seq<u8>) -> bool {
    &&& v.meta.dom().contains(p) && !v.mounts.dom().contains(p)
    &&& name.len() <= 255 && !has_name(v.entries, p, name)
    &&& v.meta[p].size + 1 <= max_size_of(v.meta[p])
    &&& forall|i: u32| #[trigger] v.entries.dom().contains((p, i)) ==> i < 4294967284
}
pub proof fn lemma_can_link(v: FsView, p: u64, name: Seq<u8>, x: u64, c: u64)
    requires tree_c(v, x, c), v.entries.dom().len() < 0x1ff_ffff_ffff, is_dir_node(v, p), good_name(name), !has_name(v.entries, p, name),
        forall|i: u32| #[trigger] v.entries.dom().contains((p, i)) ==> i < 4294967284,
    ensures can_link(v, p, name),
{
    lemma_kids(v.entries, p);
    assert(node_ok(v, p, x, c));
}
pub proof fn lemma_next_fresh(es: Entries, p: u64)
    requires forall|i: u32| #[trigger] es.dom().contains((p, i)) ==> i < 4294967284,
    ensures is_next(es, p, next_idx(es, p)), !es.dom().contains((p, next_idx(es, p))), 1 <= next_idx(es, p) < 4294967285,
{
    lemma_has_next(es, p, 4294967284);
    assert(is_next(es, p, next_idx(es, p)));
}
pub proof fn lemma_has_next(es: Entries, p: u64, b: u32)
    requires forall|i: u32| #[trigger] es.dom().contains((p, i)) ==> i < b,
    ensures exists|i: u32| is_next(es, p, i),
    decreases b,
{
    if b <= 1 {
        assert(is_next(es, p, 1));
    } else if es.dom().contains((p, (b - 1) as u32)) {
        assert(is_next(es, p, b));
    } else {
        lemma_has_next(es, p, (b - 1) as u32);
    }
}
pub proof fn lemma_fresh(v: FsView, w: FsView, t: FileType, ctime: u64)
    requires tree(v), sane(v), v.next_node < 0x7fff_ffff_ffff_ffff, t != FileType::SymbolicLink, w == fresh_node(v, t, ctime),
    ensures tree_c(w, v.next_node, v.next_node), w.entries == v.entries, is_dir_node(w, 0),
        forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) ==> k.0 != v.next_node && w.entries[k].node != v.next_node,
        !v.meta.dom().contains(v.next_node), names_of(w.entries, v.next_node).len() == 0,
{
    let n = v.next_node;
    assert(!v.meta.dom().contains(n) && !v.mounts.dom().contains(n));
    assert forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) implies k.0 != n && w.entries[k].node != n by { assert(entry_ok(v, k, v.entries[k])); }
    assert(names_of(w.entries, n) =~= Set::<(u64, u32)>::empty());
    assert(kids_of(w.entries, n) =~= Set::<(u64, u32)>::empty());
    assert(entries_ok(w)) by {
        assert forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) implies entry_ok(w, k, w.entries[k]) by { assert(entry_ok(v, k, v.entries[k])); }
    }
    assert(nodes_ok(w, n, n)) by {
        assert forall|q: u64| #[trigger] w.meta.dom().contains(q) implies node_ok(w, q, n, n) by { if q != n { assert(v.meta.dom().contains(q)); assert(node_ok(v, q, 0, 0)); } }
    }
}
pub proof fn lemma_linked(v: FsView, w: FsView, p: u64, n: u64, name: Seq<u8>, t: FileType)
    requires tree_c(v, n, n), n != 0, p != n, v.meta.dom().contains(n), t == v.meta[n].file_type, is_dir_node(v, p), good_name(name),
        can_link(v, p, name), linked(v, w, p, n, name, t), acyclic_with(v.entries, n, p),
    ensures tree_c(w, n, 0), more(v.entries, w.entries), step(w.entries, p, name) == Some(n),
        names_of(w.entries, n).len() == names_of(v.entries, n).len() + 1,
        w.entries.dom().len() == v.entries.dom().len() + 1,
        w.meta.dom() == v.meta.dom(), forall|q: u64| q != p && v.meta.dom().contains(q) ==> #[trigger] w.meta[q] == v.meta[q],
        w.meta[p] == (Metadata { size: (v.meta[p].size + 1) as u64, ..v.meta[p] }),
        named(w.entries, p, next_idx(v.entries, p), name),
{
    lemma_next_fresh(v.entries, p);
    let i = next_idx(v.entries, p); let k = (p, i); let e = w.entries[k];
    assert(w.entries == v.entries.insert(k, e));
    lemma_insert_counts(v.entries, k, e);
    assert(node_ok(v, p, n, n));
    assert(w.meta.dom() =~= v.meta.dom());
    assert(uniq(w.entries)) by {
        assert forall|d: u64, a: u32, b: u32| #[trigger] w.entries.dom().contains((d, a)) && #[trigger] w.entries.dom().contains((d, b)) && w.entries[(d, a)].name.kv() == w.entries[(d, b)].name.kv() implies a == b by {
            if (d, a) == k && b != a { assert(v.entries.dom().contains((d, b))); assert(named(v.entries, p, b, name)); }
            if (d, b) == k && b != a { assert(v.entries.dom().contains((d, a))); assert(named(v.entries, p, a, name)); }
        }
    }
    assert(entries_ok(w)) by {
        assert forall|q: (u64, u32)| #[trigger] w.entries.dom().contains(q) implies entry_ok(w, q, w.entries[q]) by {
            if q != k { assert(v.entries.dom().contains(q)); assert(entry_ok(v, q, v.entries[q])); }
        }
    }
    assert(nodes_ok(w, n, 0)) by {
        assert forall|q: u64| #[trigger] w.meta.dom().contains(q) implies node_ok(w, q, n, 0) by { assert(v.meta.dom().contains(q)); assert(node_ok(v, q, n, n)); }
    }
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(v.entries, rank) && rank(n) > rank(p);
    assert(ranked(w.entries, rank));
    assert(named(w.entries, p, i, name));
    lemma_step(w.entries, p, i, name);
}

/// what the path leads to, 0 if nowhere
pub open spec fn target(v: FsView, d: u64, path: Seq<char>) -> u64 { match resolve(v.entries, d, path) { Ok(n) => n, Err(_) => 0 } }
/// the directory that holds the last name of the path
pub open spec fn parent_of(v: FsView, d: u64, path: Seq<char>) -> u64 {
    match walk(v.entries, d, parts_of(path)->Ok_0.drop_last()) { Some(p) => p, None => 0 }
}
pub open spec fn last_name(path: Seq<char>) -> Seq<u8> { encode_utf8(parts_of(path)->Ok_0.last()) }
/// the last name of the path is an entry of some directory
pub open spec fn leads_to_entry(v: FsView, d: u64, path: Seq<char>) -> bool {
    parts_of(path) is Ok && parts_of(path)->Ok_0.len() > 0 && resolve(v.entries, d, path) is Ok
}
/// the entry the path leads to can be removed
pub open spec fn can_unlink(v: FsView, open: Map<u64, usize>, d: u64, path: Seq<char>, expect_dir: Option<bool>, is_renaming: bool) -> bool {
    let n = target(v, d, path); let m = v.meta[n];
    &&& leads_to_entry(v, d, path)
    &&& !v.mounts.dom().contains(n)
    &&& m.file_type == FileType::Directory ==> expect_dir != Some(false) && (is_renaming || m.size == 0)
    &&& m.file_type != FileType::Directory ==> expect_dir != Some(true)
    &&& !(open.dom().contains(n) && open[n] > 0 && m.link_count == 1)
}
/// `w` is `v` without the entry `i` of directory `p`, which was a name of node `n`
pub open spec fn unlink(v: FsView, p: u64, i: u32, n: u64) -> FsView {
    let v1 = with_meta(v, p, Metadata { size: (v.meta[p].size - 1) as u64, ..v.meta[p] });
    with_meta(FsView { entries: v1.entries.remove((p, i)), ..v1 }, n, Metadata { link_count: (v.meta[n].link_count - 1) as u64, ..v.meta[n] })
}
pub open spec fn unlinked(v: FsView, w: FsView, p: u64, i: u32, n: u64) -> bool { w == unlink(v, p, i, n) }
pub open spec fn drop_node(v: FsView, n: u64) -> FsView { FsView { meta: v.meta.remove(n), mmeta: v.mmeta.remove(n), data: v.data.remove(n), ..v } }
/// the state after the last name of the path was unlinked
pub open spec fn unlinked_at(v: FsView, d: u64, path: Seq<char>) -> FsView {
    let p = parent_of(v, d, path);
    unlink(v, p, idx_of(v.entries, p, last_name(path)), target(v, d, path))
}
/// the state after the last name of the path was removed, and what it named with it if that was its only name
pub open spec fn removed_at(v: FsView, d: u64, path: Seq<char>) -> FsView {
    let u = unlinked_at(v, d, path); let n = target(v, d, path);
    if u.meta[n].link_count == 0 { drop_node(u, n) } else { u }
}
pub proof fn lemma_entry(v: FsView, p: u64, i: u32, x: u64, c: u64)
    requires tree_c(v, x, c), v.entries.dom().contains((p, i)),
    ensures ({ let n = v.entries[(p, i)].node;
        &&& is_dir_node(v, p) && v.meta.dom().contains(n) && n != 0 && n != p
        &&& v.meta[p].size >= 1 && v.meta[n].link_count >= 1 && !v.mounts.dom().contains(p)
        &&& names_of(v.entries, n).len() >= 1
    }),
{
    let k = (p, i); let n = v.entries[k].node;
    assert(entry_ok(v, k, v.entries[k]));
    assert(node_ok(v, p, x, c)); assert(node_ok(v, n, x, c));
    assert(names_of(v.entries, n).contains(k)); assert(kids_of(v.entries, p).contains(k));
    assert(names_of(v.entries, n).len() != 0); assert(kids_of(v.entries, p).len() != 0);
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(v.entries, rank);
    assert(rank(v.entries[k].node) > rank(k.0));
}
pub proof fn lemma_unlinked(v: FsView, w: FsView, p: u64, i: u32, n: u64)
    requires tree_x(v, n), v.entries.dom().contains((p, i)), v.entries[(p, i)].node == n, !v.mounts.dom().contains(n), unlinked(v, w, p, i, n),
    ensures tree_x(w, n), w.entries == v.entries.remove((p, i)), names_of(w.entries, n).len() == names_of(v.entries, n).len() - 1,
        w.meta.dom() == v.meta.dom(), forall|q: u64| q != p && q != n && v.meta.dom().contains(q) ==> #[trigger] w.meta[q] == v.meta[q],
        w.meta[p] == (Metadata { size: (v.meta[p].size - 1) as u64, ..v.meta[p] }),
        w.meta[n] == (Metadata { link_count: (v.meta[n].link_count - 1) as u64, ..v.meta[n] }),
        n != 0, n != p, w.next_node == v.next_node, w.mounts == v.mounts, w.mmeta == v.mmeta,
{
    let k = (p, i);
    lemma_entry(v, p, i, n, 0);
    lemma_remove_counts(v.entries, k);
    assert(w.meta.dom() =~= v.meta.dom());
    assert(uniq(w.entries));
    assert(entries_ok(w)) by {
        assert forall|q: (u64, u32)| #[trigger] w.entries.dom().contains(q) implies entry_ok(w, q, w.entries[q]) by {
            assert(v.entries.dom().contains(q)); assert(entry_ok(v, q, v.entries[q]));
        }
    }
    assert(nodes_ok(w, n, 0)) by {
        assert forall|q: u64| #[trigger] w.meta.dom().contains(q) implies node_ok(w, q, n, 0) by { assert(v.meta.dom().contains(q)); assert(node_ok(v, q, n, 0)); }
    }
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(v.entries, rank);
    assert(ranked(w.entries, rank));
}

// ---------------------------------------------------------------- creating a path
/// how many of the names exist, from the first one on
pub open spec fn deep(es: Entries, d: u64, a: Seq<Seq<char>>) -> int
    decreases a.len(),
{
    if a.len() == 0 || walk(es, d, a) is Some { a.len() as int } else { deep(es, d, a.drop_last()) }
}
/// the last node that exists on the way
pub open spec fn deepest(es: Entries, d: u64, a: Seq<Seq<char>>) -> u64 { walk(es, d, a.take(deep(es, d, a)))->0 }
pub proof fn lemma_deep(es: Entries, d: u64, a: Seq<Seq<char>>)
    ensures 0 <= deep(es, d, a) <= a.len(), walk(es, d, a.take(deep(es, d, a))) is Some, deep(es, d, a) == a.len() <==> walk(es, d, a) is Some,
    decreases a.len(),
{
    if a.len() == 0 || walk(es, d, a) is Some {
        assert(a.take(a.len() as int) =~= a);
    } else {
        let b = a.drop_last();
        lemma_deep(es, d, b);
        assert(b.take(deep(es, d, b)) =~= a.take(deep(es, d, b)));
    }
}
pub proof fn lemma_deep_is(es: Entries, d: u64, a: Seq<Seq<char>>, j: int)
    requires 0 <= j <= a.len(), walk(es, d, a.take(j)) is Some, j < a.len() ==> walk(es, d, a.take(j + 1)) is None,
    ensures deep(es, d, a) == j, deepest(es, d, a) == walk(es, d, a.take(j))->0,
    decreases a.len(),
{
    if j == a.len() {
        assert(a.take(j) =~= a);
    } else {
        lemma_walk_none(es, d, a, j + 1);
        let b = a.drop_last();
        assert(b.take(j) =~= a.take(j));
        if j + 1 < a.len() { assert(b.take(j + 1) =~= a.take(j + 1)); }
        lemma_deep_is(es, d, b, j);
        assert(b.take(j) =~= a.take(j));
    }
}
/// `w` is `v` with new files and directories below directory `q` and below each other
pub open spec fn extended(v: FsView, w: FsView, q: u64, ctime: u64) -> bool {
    &&& w.mmeta == v.mmeta && w.mounts == v.mounts && w.chunk_size == v.chunk_size && w.chunk_type == v.chunk_type && w.next_node >= v.next_node
    &&& more(v.entries, w.entries)
    &&& forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) && !v.entries.dom().contains(k) ==> (k.0 == q || k.0 >= v.next_node) && w.entries[k].node >= v.next_node
    &&& forall|n: u64| #[trigger] v.meta.dom().contains(n) ==> w.meta.dom().contains(n)
            && (n != q ==> w.meta[n] == v.meta[n] && w.data[n] == v.data[n]) && (n == q ==> w.meta[n] == (Metadata { size: w.meta[n].size, ..v.meta[n] }))
    &&& forall|n: u64| #[trigger] w.meta.dom().contains(n) && !v.meta.dom().contains(n) ==> v.next_node <= n < w.next_node && {
            let m = w.meta[n];
            &&& m.file_type == FileType::Directory || m.size == 0
            &&& m == (Metadata { size: m.size, node: n, ..new_meta(v, m.file_type, ctime) })
        }
}
pub proof fn lemma_create(v0: FsView, v: FsView, w: FsView, q: u64, p: u64, name: Seq<u8>, t: FileType, ctime: u64)
    requires extended(v0, v, q, ctime), tree(v), sane(v0), sane(v), can_link(v, p, name), good_name(name), is_dir_node(v, p), p == q || p >= v0.next_node, t != FileType::SymbolicLink,
        v.next_node < 0x7fff_ffff_ffff_ffff, v.entries.dom().len() < 0x1ff_ffff_ffff,
        linked(fresh_node(v, t, ctime), w, p, v.next_node, name, t),
    ensures tree(w), extended(v0, w, q, ctime), step(w.entries, p, name) == Some(v.next_node), more(v.entries, w.entries), w.next_node == v.next_node + 1,
        w.entries.dom().len() == v.entries.dom().len() + 1,
        forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) ==> k.0 != v.next_node,
        is_dir_node(w, p), w.meta.dom().contains(v.next_node), w.meta[v.next_node] == new_meta(v, t, ctime),
        v0 == v && p == q ==> w.meta == v.meta.insert(v.next_node, new_meta(v, t, ctime)).insert(p, Metadata { size: (v.meta[p].size + 1) as u64, ..v.meta[p] }),
{
    let n = v.next_node; let u = fresh_node(v, t, ctime);
    lemma_fresh(v, u, t, ctime);
    lemma_acyclic_leaf(u.entries, n, p);
    assert(can_link(u, p, name));
    lemma_linked(u, w, p, n, name, t);
    assert(node_ok(w, n, n, 0));
    assert(nodes_ok(w, 0, 0)) by {
        assert forall|x: u64| #[trigger] w.meta.dom().contains(x) implies node_ok(w, x, 0, 0) by { assert(node_ok(w, x, n, 0)); }
    }
    let k = (p, next_idx(u.entries, p));
    lemma_next_fresh(v.entries, p);
    assert(w.entries == v.entries.insert(k, w.entries[k]));
    assert forall|x: u64| #[trigger] v0.meta.dom().contains(x) implies w.meta.dom().contains(x)
            && (x != q ==> w.meta[x] == v0.meta[x] && w.data[x] == v0.data[x]) && (x == q ==> w.meta[x] == (Metadata { size: w.meta[x].size, ..v0.meta[x] })) by {
        assert(v.meta.dom().contains(x)); assert(x != n);
    }
    assert forall|x: u64| #[trigger] w.meta.dom().contains(x) && !v0.meta.dom().contains(x) implies v0.next_node <= x < w.next_node && {
            let m = w.meta[x];
            &&& m.file_type == FileType::Directory || m.size == 0
            &&& m == (Metadata { size: m.size, node: x, ..new_meta(v0, m.file_type, ctime) })
        } by {
        if x != n { assert(v.meta.dom().contains(x)); }
    }
}

// ---------------------------------------------------------------- what is below a directory
pub open spec fn closed(es: Entries, c: spec_fn(u64) -> bool) -> bool {
    forall|k: (u64, u32)| #[trigger] es.dom().contains(k) && c(k.0) ==> c(es[k].node)
}
/// `x` is `s`, or an entry of something that is inside of `s`
pub open spec fn inside(es: Entries, s: u64, x: u64) -> bool {
    forall|c: spec_fn(u64) -> bool| c(s) && #[trigger] closed(es, c) ==> c(x)
}
pub proof fn lemma_inside_step(es: Entries, s: u64, k: (u64, u32))
    requires inside(es, s, k.0), es.dom().contains(k),
    ensures inside(es, s, es[k].node),
{
    assert forall|c: spec_fn(u64) -> bool| c(s) && #[trigger] closed(es, c) implies c(es[k].node) by { assert(c(k.0)); }
}
/// putting `n` below `p` makes no cycle if `p` is not inside of `n`
pub proof fn lemma_acyclic_outside(es: Entries, n: u64, p: u64)
    requires acyclic(es), !inside(es, n, p),
    ensures acyclic_with(es, n, p),
{
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(es, rank);
    let c = choose|c: spec_fn(u64) -> bool| c(n) && #[trigger] closed(es, c) && !c(p);
    let r2 = |x: u64| if c(x) { rank(x) + rank(p) + 1 } else { rank(x) };
    assert(ranked(es, r2));
    assert(r2(n) > r2(p));
}

// ---------------------------------------------------------------- walking through everything below a directory
/// one of the entries in `used` leads to `x`
pub open spec fn reached(es: Entries, used: Set<(u64, u32)>, x: u64) -> bool {
    exists|k: (u64, u32)| #[trigger] used.contains(k) && es[k].node == x
}
/// the entries in `used` have been followed from `n` on, the nodes in `pending` are still to be looked at, those in `done`
/// are not: no directory is looked at twice
#[verifier::opaque]
pub open spec fn searching(v: FsView, n: u64, pending: Seq<u64>, done: Set<u64>, used: Set<(u64, u32)>) -> bool {
    &&& used.subset_of(v.entries.dom()) && used.len() <= v.entries.dom().len()
    &&& forall|k: (u64, u32)| #[trigger] used.contains(k) ==> done.contains(k.0)
    &&& forall|i: int, j: int| 0 <= i < j < pending.len() && #[trigger] pending[i] == #[trigger] pending[j] ==> !is_dir_node(v, pending[i])
    &&& forall|i: int| 0 <= i < pending.len() ==> (done.contains(#[trigger] pending[i]) ==> !is_dir_node(v, pending[i])) && (pending[i] == n || reached(v.entries, used, pending[i]))
    &&& forall|x: u64| #[trigger] done.contains(x) ==> x == n || reached(v.entries, used, x)
}
pub proof fn lemma_search_start(v: FsView, n: u64)
    ensures searching(v, n, seq![n], Set::empty(), Set::empty()), Set::<(u64, u32)>::empty().len() <= v.entries.dom().len(),
{
    reveal(searching);
    vstd::set_lib::lemma_len_subset(Set::<(u64, u32)>::empty(), v.entries.dom());
}
pub proof fn lemma_search_room(v: FsView, n: u64, pending: Seq<u64>, done: Set<u64>, used: Set<(u64, u32)>)
    requires searching(v, n, pending, done, used),
    ensures used.len() <= v.entries.dom().len(),
{
    reveal(searching);
}
/// the next node is taken from the end of the list
pub proof fn lemma_search_pop(v: FsView, n: u64, pending: Seq<u64>, done: Set<u64>, used: Set<(u64, u32)>)
    requires searching(v, n, pending, done, used), pending.len() > 0,
    ensures
        searching(v, n, pending.drop_last(), done.insert(pending.last()), used),
        is_dir_node(v, pending.last()) ==> forall|i: u32| !#[trigger] used.contains((pending.last(), i)),
{
    reveal(searching);
    let p = pending.drop_last();
    assert forall|i: int| 0 <= i < p.len() implies (done.insert(pending.last()).contains(#[trigger] p[i]) ==> !is_dir_node(v, p[i])) && (p[i] == n || reached(v.entries, used, p[i])) by {
        assert(p[i] == pending[i]);
    }
}
/// one more entry of a node in `done` is followed
pub proof fn lemma_search_entry(v: FsView, n: u64, pending: Seq<u64>, done: Set<u64>, used: Set<(u64, u32)>, k: (u64, u32))
    requires tree(v), searching(v, n, pending, done, used), v.entries.dom().contains(k), done.contains(k.0), !used.contains(k), inside(v.entries, n, k.0),
    ensures
        searching(v, n, pending, done, used.insert(k)), searching(v, n, pending.push(v.entries[k].node), done, used.insert(k)),
        used.insert(k).len() == used.len() + 1,
{
    reveal(searching);
    let es = v.entries; let x = es[k].node; let u2 = used.insert(k); let p2 = pending.push(x);
    vstd::set_lib::lemma_len_subset(u2, es.dom());
    assert forall|y: u64| reached(es, used, y) implies #[trigger] reached(es, u2, y) by {
        let q = choose|q: (u64, u32)| #[trigger] used.contains(q) && es[q].node == y; assert(u2.contains(q));
    }
    assert(u2.contains(k)); assert(reached(es, u2, x));
    assert(entry_ok(v, k, es[k]));
    if is_dir_node(v, x) {
        if reached(es, used, x) {
            let q = choose|q: (u64, u32)| #[trigger] used.contains(q) && es[q].node == x;
            lemma_only_name(v, q, k);
        }
        let rank = choose|rank: spec_fn(u64) -> nat| ranked(es, rank);
        lemma_inside_rank(es, rank, n, k.0);
        assert(rank(x) > rank(k.0));
        assert(x != n);
    }
}
/// a directory has one name
pub proof fn lemma_only_name(v: FsView, q: (u64, u32), k: (u64, u32))
    requires tree(v), v.entries.dom().contains(q), v.entries.dom().contains(k), v.entries[q].node == v.entries[k].node, is_dir_node(v, v.entries[k].node),
    ensures q == k,
{
    let n = v.entries[k].node;
    assert(entry_ok(v, k, v.entries[k])); assert(node_ok(v, n, 0, 0));
    let s = names_of(v.entries, n);
    assert(s.contains(q) && s.contains(k));
    if q != k {
        vstd::set_lib::lemma_len_subset(set![q, k], s);
        assert(set![q, k].len() == 2);
    }
}

// ---------------------------------------------------------------- removing a name
/// what the path leads to is the node of its last entry
pub proof fn lemma_leads(v: FsView, d: u64, path: Seq<char>, x: u64)
    requires tree_x(v, x), leads_to_entry(v, d, path),
    ensures ({
        let p = parent_of(v, d, path); let i = idx_of(v.entries, p, last_name(path)); let n = target(v, d, path); let a = parts_of(path)->Ok_0;
        &&& walk(v.entries, d, a.drop_last()) == Some(p) && walk(v.entries, d, a) == Some(n)
        &&& named(v.entries, p, i, last_name(path)) && v.entries[(p, i)].node == n
        &&& is_dir_node(v, p) && v.meta.dom().contains(n) && n != 0 && n != p && n != d
        &&& good_name(last_name(path))
    }),
{
    let a = parts_of(path)->Ok_0; let p = parent_of(v, d, path); let name = last_name(path);
    lemma_parts_good(path);
    assert(good_part(a[a.len() - 1]));
    assert(good_name(name));
    let i = idx_of(v.entries, p, name);
    assert(named(v.entries, p, i, name));
    lemma_entry(v, p, i, x, 0);
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(v.entries, rank);
    lemma_walk_rank(v.entries, rank, d, a.drop_last());
    assert(rank(v.entries[(p, i)].node) > rank(p));
}
pub proof fn lemma_walk_rank(es: Entries, rank: spec_fn(u64) -> nat, d: u64, a: Seq<Seq<char>>)
    requires ranked(es, rank), walk(es, d, a) is Some,
    ensures rank(walk(es, d, a)->0) >= rank(d), a.len() > 0 ==> rank(walk(es, d, a)->0) > rank(d),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_walk_rank(es, rank, d, a.drop_last());
        let p = walk(es, d, a.drop_last())->0; let i = idx_of(es, p, encode_utf8(a.last()));
        assert(named(es, p, i, encode_utf8(a.last())));
        assert(rank(es[(p, i)].node) > rank(p));
    }
}
/// a path that does not lead to `t` does not need a name of `t` if `t` has no entries
pub proof fn lemma_walk_removed(es: Entries, k: (u64, u32), d: u64, a: Seq<Seq<char>>)
    requires uniq(es), es.dom().contains(k), forall|q: (u64, u32)| #[trigger] es.dom().contains(q) ==> q.0 != es[k].node,
        walk(es, d, a) is Some, walk(es, d, a) != Some(es[k].node),
    ensures walk(es.remove(k), d, a) == walk(es, d, a),
    decreases a.len(),
{
    if a.len() > 0 {
        let p = walk(es, d, a.drop_last())->0; let name = encode_utf8(a.last()); let i = idx_of(es, p, name);
        assert(named(es, p, i, name));
        assert(es.dom().contains((p, i)));
        lemma_walk_removed(es, k, d, a.drop_last());
        assert((p, i) != k);
        assert(named(es.remove(k), p, i, name));
        lemma_step(es.remove(k), p, i, name);
    }
}
/// removing entries makes no path lead anywhere else
pub proof fn lemma_walk_less(es: Entries, k: (u64, u32), d: u64, a: Seq<Seq<char>>)
    requires uniq(es), walk(es.remove(k), d, a) is Some,
    ensures walk(es.remove(k), d, a) == walk(es, d, a),
{
    lemma_more_walk(es.remove(k), es, d, a);
}
pub proof fn lemma_no_kids(v: FsView, n: u64, x: u64, c: u64)
    requires tree_c(v, x, c), v.meta.dom().contains(n), v.meta[n].file_type == FileType::Directory ==> v.meta[n].size == 0,
    ensures forall|q: (u64, u32)| #[trigger] v.entries.dom().contains(q) ==> q.0 != n,
{
    assert(node_ok(v, n, x, c));
    assert forall|q: (u64, u32)| #[trigger] v.entries.dom().contains(q) implies q.0 != n by {
        assert(entry_ok(v, q, v.entries[q]));
        if q.0 == n { assert(kids_of(v.entries, n).contains(q)); }
    }
}
pub proof fn lemma_removed_at(v: FsView, d: u64, path: Seq<char>)
    requires tree(v), sane(v), leads_to_entry(v, d, path), !v.mounts.dom().contains(target(v, d, path)),
        v.meta[target(v, d, path)].file_type == FileType::Directory ==> v.meta[target(v, d, path)].size == 0,
    ensures ({
        let p = parent_of(v, d, path); let n = target(v, d, path); let i = idx_of(v.entries, p, last_name(path)); let w = removed_at(v, d, path); let a = parts_of(path)->Ok_0;
        &&& tree(w) && (room(v) ==> room(w)) && w.entries == v.entries.remove((p, i)) && w.mounts == v.mounts && w.next_node == v.next_node
        &&& w.chunk_type == v.chunk_type && w.chunk_size == v.chunk_size
        &&& walk(w.entries, d, a.drop_last()) == Some(p) && is_dir_node(w, p) && !has_name(w.entries, p, last_name(path)) && walk(w.entries, d, a) is None
        &&& deep(w.entries, d, a) == a.len() - 1 && deepest(w.entries, d, a) == p
        &&& forall|x: u64| v.meta.dom().contains(x) && x != n && x != p ==> #[trigger] w.meta.dom().contains(x) && w.meta[x] == v.meta[x] && w.data[x] == v.data[x]
        &&& forall|x: u64| #[trigger] w.meta.dom().contains(x) ==> v.meta.dom().contains(x)
        &&& forall|x: u64| x != n ==> (#[trigger] w.mmeta.dom().contains(x) <==> v.mmeta.dom().contains(x)) && w.mmeta[x] == v.mmeta[x]
        &&& forall|x: u64, b: Seq<Seq<char>>| walk(v.entries, x, b) is Some && walk(v.entries, x, b) != Some(n) ==> #[trigger] walk(w.entries, x, b) == walk(v.entries, x, b)
        &&& n != d && n != p
    }),
{
    let p = parent_of(v, d, path); let n = target(v, d, path); let i = idx_of(v.entries, p, last_name(path)); let u = unlinked_at(v, d, path); let w = removed_at(v, d, path);
    let k = (p, i); let a = parts_of(path)->Ok_0;
    lemma_leads(v, d, path, 0);
    lemma_unlinked(v, u, p, i, n);
    lemma_no_kids(v, n, 0, 0);
    assert(node_ok(v, n, 0, 0)); assert(node_ok(u, n, n, 0));
    lemma_entry(v, p, i, 0, 0);
    assert forall|x: u64, b: Seq<Seq<char>>| walk(v.entries, x, b) is Some && walk(v.entries, x, b) != Some(n) implies #[trigger] walk(w.entries, x, b) == walk(v.entries, x, b) by { lemma_walk_removed(v.entries, k, x, b); }
    assert(walk(w.entries, d, a.drop_last()) == Some(p));
    assert(!has_name(w.entries, p, last_name(path))) by {
        if has_name(w.entries, p, last_name(path)) {
            let j = idx_of(w.entries, p, last_name(path));
            assert(named(w.entries, p, j, last_name(path)));
            assert(v.entries.dom().contains((p, j)) && v.entries.dom().contains((p, i)));
        }
    }
    assert(walk(w.entries, d, a) is None);
    assert(a.take(a.len() - 1) =~= a.drop_last()); assert(a.take(a.len() as int) =~= a);
    lemma_deep_is(w.entries, d, a, a.len() - 1);
    assert(room(v) ==> room(w)) by {
        vstd::set_lib::lemma_len_subset(w.entries.dom(), v.entries.dom());
    }
    if u.meta[n].link_count == 0 {
        assert(names_of(u.entries, n) =~= Set::<(u64, u32)>::empty());
        assert(entries_ok(w)) by {
            assert forall|q: (u64, u32)| #[trigger] w.entries.dom().contains(q) implies entry_ok(w, q, w.entries[q]) by {
                assert(entry_ok(u, q, u.entries[q]));
                if u.entries[q].node == n { assert(names_of(u.entries, n).contains(q)); }
                assert(v.entries.dom().contains(q));
            }
        }
        assert(nodes_ok(w, 0, 0)) by {
            assert forall|x: u64| #[trigger] w.meta.dom().contains(x) implies node_ok(w, x, 0, 0) by { assert(node_ok(u, x, n, 0)); }
        }
    } else {
        assert(nodes_ok(w, 0, 0)) by {
            assert forall|x: u64| #[trigger] w.meta.dom().contains(x) implies node_ok(w, x, 0, 0) by { assert(node_ok(u, x, n, 0)); assert(v.meta.dom().contains(x)); assert(node_ok(v, x, 0, 0)); }
        }
    }
}

// ---------------------------------------------------------------- hard links
/// the state after what the path leads to (if anything) was removed
pub open spec fn cleared(v: FsView, d: u64, path: Seq<char>) -> FsView {
    if resolve(v.entries, d, path) is Ok { removed_at(v, d, path) } else { v }
}
pub open spec fn more_links(v: FsView, s: u64) -> FsView {
    with_meta(v, s, Metadata { link_count: (active(v)[s].link_count + 1) as u64, ..active(v)[s] })
}
/// `w` is `v` after the path was cleared, the missing directories on the way were created (this is `v2`), and directory `p`, the last on the way,
/// got an entry with the last name of the path that leads to node `s`
pub open spec fn link_steps(v: FsView, v2: FsView, w: FsView, p: u64, d: u64, path: Seq<char>, s: u64) -> bool {
    let v1 = cleared(v, d, path); let a = parts_of(path)->Ok_0; let q = deepest(v1.entries, d, a); let j = deep(v1.entries, d, a);
    &&& extended(v1, v2, q, active(v)[s].times.created) && tree(v2)
    &&& v2.next_node == v1.next_node + a.len() - 1 - j && (p == q || p >= v1.next_node) && (a.len() - 1 == j ==> v2 == v1)
    &&& walk(v2.entries, d, a.drop_last()) == Some(p)
    &&& linked(more_links(v2, s), w, p, s, last_name(path), active(v)[s].file_type)
    // and what follows from it
    &&& sane(v2) && is_dir_node(v2, p) && v2.meta.dom().contains(s) && s != 0 && s != p
    &&& active(v2)[s] == active(v)[s] && v2.meta[s] == v.meta[s] && active(v)[s].file_type == v.meta[s].file_type && v2.meta[s].link_count < u64::MAX
    &&& v2.mounts == v.mounts && (!v.mounts.dom().contains(s) ==> v2.data[s] == v.data[s])
    &&& can_link(v2, p, last_name(path)) && good_name(last_name(path)) && acyclic_with(v2.entries, s, p)
    &&& parts_of(path) is Ok && a.len() > 0
}
pub open spec fn link_made(v: FsView, w: FsView, d: u64, path: Seq<char>, s: u64) -> bool {
    exists|v2: FsView, p: u64| #[trigger] link_steps(v, v2, w, p, d, path, s)
}
/// a link to node `s` can be made
pub open spec fn can_make_link(v: FsView, open: Map<u64, usize>, d: u64, path: Seq<char>, s: u64, is_renaming: bool) -> bool {
    let t = active(v)[s].file_type;
    &&& is_renaming || t != FileType::Directory
    &&& match resolve(v.entries, d, path) {
        Ok(n) => n == s || active(v)[n].file_type == t && can_unlink(v, open, d, path, None, false),
        Err(e) => e == Error::NoSuchFileOrDirectory && is_dir_node(v, deepest(v.entries, d, parts_of(path)->Ok_0)),
    }
}
/// where a directory is moved to is not inside of it
pub open spec fn not_into_itself(v: FsView, d: u64, path: Seq<char>, s: u64) -> bool {
    let x = deepest(v.entries, d, parts_of(path)->Ok_0);
    is_dir_node(v, s) && parts_of(path) is Ok ==> !is_dir_node(v, x) || !inside(v.entries, s, x)
}
pub proof fn lemma_inside_less(s: Entries, t: Entries, n: u64, x: u64)
    requires more(s, t), inside(s, n, x),
    ensures inside(t, n, x),
{
    assert forall|c: spec_fn(u64) -> bool| c(n) && #[trigger] closed(t, c) implies c(x) by { assert(closed(s, c)); }
}
/// new directories are not inside of what was there before, unless the directory that holds them is
pub proof fn lemma_outside_extended(v: FsView, w: FsView, q: u64, ctime: u64, s: u64, p: u64)
    requires sane(v), tree(v), extended(v, w, q, ctime), !inside(v.entries, s, q), s < v.next_node, p == q || p >= v.next_node,
    ensures !inside(w.entries, s, p),
{
    let c = choose|c: spec_fn(u64) -> bool| c(s) && #[trigger] closed(v.entries, c) && !c(q);
    let c2 = |x: u64| c(x) && x < v.next_node;
    assert forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) && c2(k.0) implies c2(w.entries[k].node) by {
        if v.entries.dom().contains(k) { assert(entry_ok(v, k, v.entries[k])); }
    }
    assert(closed(w.entries, c2) && c2(s) && !c2(p));
}
/// before a link is made: what is known of the cleared state
pub proof fn lemma_cleared(v: FsView, open: Map<u64, usize>, d: u64, path: Seq<char>, s: u64, is_renaming: bool)
    requires tree(v), sane(v), room(v), is_dir_node(v, d), v.meta.dom().contains(s), s != 0, parts_of(path) is Ok,
        can_make_link(v, open, d, path, s, is_renaming), not_into_itself(v, d, path, s), resolve(v.entries, d, path) != Ok::<u64, Error>(s),
    ensures ({
        let v1 = cleared(v, d, path); let a = parts_of(path)->Ok_0; let q = deepest(v1.entries, d, a);
        &&& tree(v1) && room(v1) && is_dir_node(v1, d) && walk(v1.entries, d, a) is None && is_dir_node(v1, q)
        &&& v1.next_node == v.next_node && v1.mounts == v.mounts
        &&& v1.meta.dom().contains(s) && v1.meta[s] == v.meta[s] && active(v1)[s] == active(v)[s] && v1.mmeta.dom().contains(s) == v.mmeta.dom().contains(s) && v1.mmeta[s] == v.mmeta[s]
        &&& is_dir_node(v, s) ==> !inside(v1.entries, s, q)
        &&& is_dir_node(v, s) || v.meta[s].file_type == FileType::RegularFile
        &&& s != q && a.len() > 0 && v1.data[s] == v.data[s]
    }),
{
    let v1 = cleared(v, d, path); let a = parts_of(path)->Ok_0; let q = deepest(v1.entries, d, a);
    assert(node_ok(v, s, 0, 0));
    lemma_deep(v.entries, d, a);
    if resolve(v.entries, d, path) is Ok {
        let n = target(v, d, path); let p = parent_of(v, d, path);
        lemma_removed_at(v, d, path);
        lemma_leads(v, d, path, 0);
        let i = idx_of(v.entries, p, last_name(path));
        assert(deepest(v.entries, d, a) == n) by { assert(a.take(a.len() as int) =~= a); }
        assert(node_ok(v, n, 0, 0));
        if is_dir_node(v, s) {
            assert(v.meta[n].file_type == FileType::Directory);
            if inside(v1.entries, s, p) {
                assert(more(v1.entries, v.entries));
                lemma_inside_less(v1.entries, v.entries, s, p);
                lemma_inside_step(v.entries, s, (p, i));
            }
        }
        if s == p {
            assert(is_dir_node(v, s));
            assert(inside(v.entries, s, p));
            lemma_inside_step(v.entries, s, (p, i));
        }
    } else {
        if s == q { assert(inside(v.entries, s, s)); }
    }
}
pub proof fn lemma_link_made(v: FsView, v2: FsView, w: FsView, p: u64, d: u64, path: Seq<char>, s: u64)
    requires link_steps(v, v2, w, p, d, path, s),
    ensures tree_x(w, s), more(v2.entries, w.entries), resolve(w.entries, d, path) == Ok::<u64, Error>(s), parent_of(w, d, path) == p,
        names_of(w.entries, s).len() == names_of(v2.entries, s).len() + 1,
        w.meta.dom() =~= v2.meta.dom(), w.meta[s] == (Metadata { link_count: (v2.meta[s].link_count + 1) as u64, ..v2.meta[s] }),
        v2.meta[s].file_type == FileType::RegularFile ==> tree(w), w.mounts == v2.mounts, w.next_node == v2.next_node,
        forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) && !v2.entries.dom().contains(k) ==> k == (p, next_idx(v2.entries, p)),
        idx_of(w.entries, p, last_name(path)) == next_idx(v2.entries, p), named(w.entries, p, next_idx(v2.entries, p), last_name(path)),
        w.entries[(p, next_idx(v2.entries, p))].node == s, walk(w.entries, d, parts_of(path)->Ok_0.drop_last()) == Some(p), !v2.entries.dom().contains((p, next_idx(v2.entries, p))),
{
    let v3 = more_links(v2, s); let name = last_name(path); let a = parts_of(path)->Ok_0;
    assert(node_ok(v2, s, 0, 0));
    assert(entries_ok(v3)) by {
        assert forall|k: (u64, u32)| #[trigger] v3.entries.dom().contains(k) implies entry_ok(v3, k, v3.entries[k]) by { assert(entry_ok(v2, k, v2.entries[k])); }
    }
    assert(nodes_ok(v3, s, s)) by {
        assert forall|n: u64| #[trigger] v3.meta.dom().contains(n) implies node_ok(v3, n, s, s) by { assert(node_ok(v2, n, 0, 0)); }
    }
    assert(tree_c(v3, s, s));
    assert(can_link(v3, p, name));
    lemma_linked(v3, w, p, s, name, v3.meta[s].file_type);
    lemma_next_fresh(v2.entries, p);
    lemma_more_walk(v2.entries, w.entries, d, a.drop_last());
    lemma_step(w.entries, p, next_idx(v2.entries, p), name);
    if v2.meta[s].file_type == FileType::RegularFile {
        assert(nodes_ok(w, 0, 0)) by {
            assert forall|n: u64| #[trigger] w.meta.dom().contains(n) implies node_ok(w, n, 0, 0) by { assert(node_ok(w, n, s, 0)); }
        }
    }
}
pub proof fn lemma_tree_x(v: FsView, x: u64)
    requires tree(v),
    ensures tree_x(v, x),
{
    assert forall|n: u64| #[trigger] v.meta.dom().contains(n) implies node_ok(v, n, x, 0) by { assert(node_ok(v, n, 0, 0)); }
}
pub proof fn lemma_norm_errs(segs: Seq<Seq<char>>)
    requires norm(segs) is Err,
    ensures norm(segs)->Err_0 == Error::OperationNotPermitted || norm(segs)->Err_0 == Error::FilenameTooLong,
    decreases segs.len(),
{
    if segs.len() > 0 && norm(segs.drop_last()) is Err { lemma_norm_errs(segs.drop_last()); }
}
/// why a path is refused
pub proof fn lemma_refused_path(path: Seq<char>)
    requires parts_of(path) is Err,
    ensures parts_of(path)->Err_0 == Error::OperationNotPermitted || parts_of(path)->Err_0 == Error::FilenameTooLong,
{
    if !(path.len() > 0 && path[0] == '/') { lemma_norm_errs(split_at_slash(path)); }
}

// ---------------------------------------------------------------- creating and removing by path
/// a file or directory can be created at the path
pub open spec fn can_create(v: FsView, d: u64, path: Seq<char>) -> bool {
    parts_of(path) is Ok && walk(v.entries, d, parts_of(path)->Ok_0) is None && is_dir_node(v, deepest(v.entries, d, parts_of(path)->Ok_0))
}
/// why it cannot be created
pub open spec fn create_error(v: FsView, d: u64, path: Seq<char>) -> Error {
    match resolve(v.entries, d, path) {
        Ok(_) => Error::FileExists,
        Err(Error::NoSuchFileOrDirectory) => Error::InvalidArgument,
        Err(e) => e,
    }
}
/// `w` is `v` with the new file or directory `n` (of type `t`) at the path, and the directories on the way
pub open spec fn created(v: FsView, w: FsView, d: u64, path: Seq<char>, t: FileType, ctime: u64, n: u64) -> bool {
    let a = parts_of(path)->Ok_0; let q = deepest(v.entries, d, a);
    &&& tree(w) && extended(v, w, q, ctime)
    &&& resolve(w.entries, d, path) == Ok::<u64, Error>(n) && v.next_node <= n < w.next_node
    &&& w.next_node == v.next_node + a.len() - deep(v.entries, d, a)
    &&& w.meta.dom().contains(n) && w.meta[n] == (Metadata { node: n, ..new_meta(v, t, ctime) })
}
pub proof fn lemma_coherent_add(c: Map<(u64, Seq<char>), u64>, c2: Map<(u64, Seq<char>), u64>, es: Entries, key: (u64, Seq<char>), value: u64)
    requires coherent(c, es), resolve(es, key.0, key.1) == Ok::<u64, Error>(value),
        forall|k: (u64, Seq<char>)| #[trigger] c2.dom().contains(k) ==> (k == key && c2[k] == value) || (k != key && c.dom().contains(k) && c2[k] == c[k]),
    ensures coherent(c2, es),
{
}

// ---------------------------------------------------------------- changes that leave the tree as it is
/// nothing the tree of directories depends on changes
pub open spec fn same_tree(v: FsView, w: FsView) -> bool {
    &&& w.entries == v.entries
    &&& forall|n: u64| #[trigger] v.meta.dom().contains(n) <==> w.meta.dom().contains(n)
    &&& forall|n: u64| #[trigger] v.meta.dom().contains(n) ==> w.meta[n].link_count == v.meta[n].link_count && w.meta[n].file_type == v.meta[n].file_type
            && (v.meta[n].file_type == FileType::Directory ==> w.meta[n].size == v.meta[n].size && w.meta[n].maximum_size_allowed == v.meta[n].maximum_size_allowed
                && (w.mounts.dom().contains(n) ==> v.mounts.dom().contains(n)))
}
pub proof fn lemma_same_tree(v: FsView, w: FsView)
    requires tree(v), same_tree(v, w),
    ensures tree(w),
{
    assert(v.meta.dom().contains(0));
    assert forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) implies entry_ok(w, k, w.entries[k]) by { assert(entry_ok(v, k, v.entries[k])); }
    assert forall|n: u64| #[trigger] w.meta.dom().contains(n) implies node_ok(w, n, 0, 0) by { assert(v.meta.dom().contains(n)); assert(node_ok(v, n, 0, 0)); }
}
/// what holds of the record of a node of a tree
pub proof fn lemma_node(v: FsView, n: u64)
    requires tree(v), sane(v), v.meta.dom().contains(n),
    ensures is_dir_node(v, n) || v.meta[n].file_type == FileType::RegularFile, is_dir_node(v, n) ==> !v.mounts.dom().contains(n) && v.meta[n].maximum_size_allowed is None,
        active(v).dom().contains(n), active(v)[n].file_type == v.meta[n].file_type, active(v)[n].link_count == v.meta[n].link_count, active(v)[n].node == n,
        active(v)[n].chunk_type == v.meta[n].chunk_type, active(v)[n].size <= max_size_of(active(v)[n]), n < v.next_node,
        n != 0 ==> v.meta[n].link_count >= 1,
{
    assert(node_ok(v, n, 0, 0));
}
/// writing to a file, changing its record, or mounting a memory on it leaves the tree as it is
pub proof fn lemma_wrote_tree(v: FsView, w: FsView, n: u64, off: int, b: Seq<u8>)
    requires tree(v), sane(v), v.meta.dom().contains(n), v.meta[n].file_type == FileType::RegularFile, wrote(v, w, n, off, b),
    ensures same_tree(v, w), tree(w),
{
    lemma_same_tree(v, w);
}
pub proof fn lemma_meta_tree(v: FsView, n: u64, m: Metadata)
    requires tree(v), sane(v), v.meta.dom().contains(n), m.file_type == v.meta[n].file_type, m.link_count == v.meta[n].link_count,
        is_dir_node(v, n) ==> m.size == v.meta[n].size && m.maximum_size_allowed == v.meta[n].maximum_size_allowed,
    ensures same_tree(v, with_meta(v, n, m)), tree(with_meta(v, n, m)),
{
    lemma_node(v, n);
    lemma_same_tree(v, with_meta(v, n, m));
}
pub proof fn lemma_grown_tree(v: FsView, w: FsView, n: u64)
    requires tree(v), sane(v), grown(v, w, n),
    ensures same_tree(v, w), tree(w),
{
    lemma_same_tree(v, w);
}
pub proof fn lemma_mount_tree(v: FsView, w: FsView, n: u64)
    requires tree(v), sane(v), v.meta.dom().contains(n), v.meta[n].file_type == FileType::RegularFile,
        w.entries == v.entries, w.mounts.dom().subset_of(v.mounts.dom().insert(n)),
        w.meta == v.meta || w.meta == v.meta.insert(n, Metadata { link_count: v.meta[n].link_count, file_type: v.meta[n].file_type, ..w.meta[n] }),
    ensures same_tree(v, w), tree(w),
{
    lemma_same_tree(v, w);
}
/// the same holds for opening the storage anew: nothing is mounted then
pub proof fn lemma_reopened_tree(v: FsView, w: FsView)
    requires tree(v), w == (FsView { mounts: IMap::empty(), chunk_type: w.chunk_type, ..v }),
    ensures tree(w),
{
    lemma_same_tree(v, w);
}

// ---------------------------------------------------------------- removing recursively
pub open spec fn same_file(v: FsView, w: FsView, x: u64) -> bool {
    &&& w.meta[x] == (Metadata { link_count: w.meta[x].link_count, size: if is_dir_node(v, x) { w.meta[x].size } else { v.meta[x].size }, ..v.meta[x] })
    &&& (is_dir_node(v, x) || w.data[x] == v.data[x]) && (w.mmeta.dom().contains(x) <==> v.mmeta.dom().contains(x)) && w.mmeta[x] == v.mmeta[x]
}
/// `w` is `v` without some of the names below `s`, and without some of the files and directories they named; nothing else changed
pub open spec fn pruned(v: FsView, w: FsView, s: u64) -> bool {
    &&& more(w.entries, v.entries)
    &&& forall|k: (u64, u32)| #[trigger] v.entries.dom().contains(k) && !w.entries.dom().contains(k) ==> inside(v.entries, s, k.0)
    &&& w.next_node == v.next_node && w.mounts == v.mounts && w.chunk_type == v.chunk_type && w.chunk_size == v.chunk_size
    &&& forall|x: u64| #[trigger] w.meta.dom().contains(x) ==> v.meta.dom().contains(x) && same_file(v, w, x)
    &&& forall|x: u64| #[trigger] v.meta.dom().contains(x) && !inside(v.entries, s, x) ==> w.meta.dom().contains(x) && w.meta[x] == v.meta[x] && w.data[x] == v.data[x]
}
pub proof fn lemma_pruned_same(v: FsView, s: u64)
    ensures pruned(v, v, s),
{
}
pub proof fn lemma_inside_trans(es: Entries, s: u64, c: u64, x: u64)
    requires inside(es, s, c), inside(es, c, x),
    ensures inside(es, s, x),
{
    assert forall|f: spec_fn(u64) -> bool| f(s) && #[trigger] closed(es, f) implies f(x) by { assert(f(c)); }
}
pub proof fn lemma_inside_rank(es: Entries, rank: spec_fn(u64) -> nat, s: u64, x: u64)
    requires ranked(es, rank), inside(es, s, x),
    ensures rank(x) >= rank(s), rank(x) == rank(s) ==> x == s,
{
    let c = |y: u64| y == s || rank(y) > rank(s);
    assert(closed(es, c));
    assert(c(x));
}
pub proof fn lemma_pruned_trans(v: FsView, u: FsView, w: FsView, s: u64)
    requires pruned(v, u, s), pruned(u, w, s),
    ensures pruned(v, w, s),
{
    assert forall|k: (u64, u32)| #[trigger] v.entries.dom().contains(k) && !w.entries.dom().contains(k) implies inside(v.entries, s, k.0) by {
        if u.entries.dom().contains(k) { lemma_inside_less(u.entries, v.entries, s, k.0); }
    }
    assert forall|x: u64| #[trigger] v.meta.dom().contains(x) && !inside(v.entries, s, x) implies w.meta.dom().contains(x) && w.meta[x] == v.meta[x] && w.data[x] == v.data[x] by {
        if inside(u.entries, s, x) { lemma_inside_less(u.entries, v.entries, s, x); }
        assert(u.meta.dom().contains(x));
    }
    assert forall|x: u64| #[trigger] w.meta.dom().contains(x) implies v.meta.dom().contains(x) && same_file(v, w, x) by { assert(u.meta.dom().contains(x)); }
}
pub proof fn lemma_pruned_below(v: FsView, w: FsView, c: u64, s: u64)
    requires pruned(v, w, c), inside(v.entries, s, c),
    ensures pruned(v, w, s),
{
    assert forall|k: (u64, u32)| #[trigger] v.entries.dom().contains(k) && !w.entries.dom().contains(k) implies inside(v.entries, s, k.0) by { lemma_inside_trans(v.entries, s, c, k.0); }
    assert forall|x: u64| #[trigger] v.meta.dom().contains(x) && !inside(v.entries, s, x) implies w.meta.dom().contains(x) && w.meta[x] == v.meta[x] && w.data[x] == v.data[x] by {
        if inside(v.entries, c, x) { lemma_inside_trans(v.entries, s, c, x); }
    }
}
/// removing one name only removes what is below the directory that holds it
pub proof fn lemma_pruned_removed(v: FsView, d: u64, path: Seq<char>)
    requires tree(v), sane(v), leads_to_entry(v, d, path), !v.mounts.dom().contains(target(v, d, path)),
        v.meta[target(v, d, path)].file_type == FileType::Directory ==> v.meta[target(v, d, path)].size == 0,
    ensures pruned(v, removed_at(v, d, path), parent_of(v, d, path)),
{
    let p = parent_of(v, d, path); let n = target(v, d, path); let i = idx_of(v.entries, p, last_name(path)); let w = removed_at(v, d, path); let k = (p, i);
    lemma_removed_at(v, d, path);
    lemma_leads(v, d, path, 0);
    lemma_entry(v, p, i, 0, 0);
    assert(inside(v.entries, p, p));
    lemma_inside_step(v.entries, p, k);
    assert(node_ok(v, n, 0, 0)); assert(node_ok(v, p, 0, 0));
    assert forall|x: u64| #[trigger] w.meta.dom().contains(x) implies v.meta.dom().contains(x) && same_file(v, w, x) by {
        if x == n {
            let u = unlinked_at(v, d, path);
            assert(w == u);
            assert(u.data[n] =~= v.data[n]);
        } else if x != p { assert(v.meta.dom().contains(x)); }
    }
    assert forall|x: u64| #[trigger] v.meta.dom().contains(x) && !inside(v.entries, p, x) implies w.meta.dom().contains(x) && w.meta[x] == v.meta[x] && w.data[x] == v.data[x] by {
        assert(x != n && x != p);
    }
}
/// what is below `s` is nested at most `left` deep
pub open spec fn nested(es: Entries, s: u64, left: int, rank: spec_fn(u64) -> nat) -> bool {
    ranked(es, rank) && forall|x: u64| #[trigger] inside(es, s, x) ==> rank(x) <= rank(s) + left
}
pub open spec fn fits(es: Entries, s: u64, left: int) -> bool { exists|rank: spec_fn(u64) -> nat| #[trigger] nested(es, s, left, rank) }
pub proof fn lemma_fits_less(es: Entries, t: Entries, s: u64, left: int)
    requires fits(es, s, left), more(t, es),
    ensures fits(t, s, left),
{
    let rank = choose|rank: spec_fn(u64) -> nat| #[trigger] nested(es, s, left, rank);
    assert forall|x: u64| #[trigger] inside(t, s, x) implies rank(x) <= rank(s) + left by { lemma_inside_less(t, es, s, x); assert(inside(es, s, x)); }
    assert(nested(t, s, left, rank));
}
pub proof fn lemma_fits_child(es: Entries, k: (u64, u32), left: int)
    requires fits(es, k.0, left), es.dom().contains(k),
    ensures fits(es, es[k].node, left - 1), left >= 1,
{
    let s = k.0; let c = es[k].node;
    let rank = choose|rank: spec_fn(u64) -> nat| #[trigger] nested(es, s, left, rank);
    assert(inside(es, s, s));
    lemma_inside_step(es, s, k);
    assert(rank(c) > rank(s));
    assert forall|x: u64| #[trigger] inside(es, c, x) implies rank(x) <= rank(c) + (left - 1) by { lemma_inside_trans(es, s, c, x); assert(inside(es, s, x)); }
    assert(nested(es, c, left - 1, rank));
    assert(inside(es, s, c));
}
/// the path to `s` is not changed by what is removed below `s`
pub proof fn lemma_walk_pruned(es: Entries, t: Entries, rank: spec_fn(u64) -> nat, s: u64, d: u64, a: Seq<Seq<char>>)
    requires uniq(es), ranked(es, rank), more(t, es), forall|k: (u64, u32)| #[trigger] es.dom().contains(k) && !t.dom().contains(k) ==> inside(es, s, k.0),
        walk(es, d, a) is Some, rank(walk(es, d, a)->0) <= rank(s),
    ensures walk(t, d, a) == walk(es, d, a),
    decreases a.len(),
{
    if a.len() > 0 {
        let p = walk(es, d, a.drop_last())->0; let name = encode_utf8(a.last()); let i = idx_of(es, p, name);
        assert(named(es, p, i, name));
        assert(rank(es[(p, i)].node) > rank(p));
        lemma_walk_pruned(es, t, rank, s, d, a.drop_last());
        if !t.dom().contains((p, i)) { lemma_inside_rank(es, rank, s, p); }
        assert(named(t, p, i, name));
        lemma_more_step(t, es, p, name);
    }
}
pub proof fn lemma_path_pruned(v: FsView, w: FsView, d: u64, path: Seq<char>)
    requires tree(v), tree(w), leads_to_entry(v, d, path), pruned(v, w, target(v, d, path)),
    ensures leads_to_entry(w, d, path), target(w, d, path) == target(v, d, path), parent_of(w, d, path) == parent_of(v, d, path),
        idx_of(w.entries, parent_of(v, d, path), last_name(path)) == idx_of(v.entries, parent_of(v, d, path), last_name(path)),
{
    let a = parts_of(path)->Ok_0; let s = target(v, d, path); let p = parent_of(v, d, path); let i = idx_of(v.entries, p, last_name(path));
    lemma_leads(v, d, path, 0);
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(v.entries, rank);
    assert(rank(v.entries[(p, i)].node) > rank(p));
    lemma_walk_pruned(v.entries, w.entries, rank, s, d, a);
    lemma_walk_pruned(v.entries, w.entries, rank, s, d, a.drop_last());
    if !w.entries.dom().contains((p, i)) { lemma_inside_rank(v.entries, rank, s, p); }
    assert(named(w.entries, p, i, last_name(path)));
    lemma_step(w.entries, p, i, last_name(path));
}
/// what removing recursively did: the names below `s` are gone, then the name of `s`
pub open spec fn removed_all(v: FsView, w: FsView, d: u64, path: Seq<char>) -> bool {
    exists|u: FsView| #[trigger] pruned(v, u, target(v, d, path)) && tree(u) && sane(u) && leads_to_entry(u, d, path) && w == removed_at(u, d, path)
        && !u.mounts.dom().contains(target(v, d, path)) && target(u, d, path) == target(v, d, path)
        && (is_dir_node(u, target(v, d, path)) ==> u.meta[target(v, d, path)].size == 0)
        && parent_of(u, d, path) == parent_of(v, d, path)
        && idx_of(u.entries, parent_of(v, d, path), last_name(path)) == idx_of(v.entries, parent_of(v, d, path), last_name(path))
}
/// the path of one entry of directory `d`
pub proof fn lemma_entry_path(v: FsView, d: u64, i: u32, name: Seq<char>)
    requires tree(v), v.entries.dom().contains((d, i)), encode_utf8(name) == v.entries[(d, i)].name.kv(),
    ensures parts_of(name) == Ok::<Seq<Seq<char>>, Error>(seq![name]), leads_to_entry(v, d, name), target(v, d, name) == v.entries[(d, i)].node, parent_of(v, d, name) == d,
        idx_of(v.entries, d, last_name(name)) == i, resolve(v.entries, d, name) == Ok::<u64, Error>(v.entries[(d, i)].node),
{
    let b = v.entries[(d, i)].name.kv();
    assert(entry_ok(v, (d, i), v.entries[(d, i)]));
    let g = choose|g: Seq<char>| #[trigger] encode_utf8(g) == b && good_part(g);
    vstd::utf8::encode_utf8_decode_utf8(g); vstd::utf8::encode_utf8_decode_utf8(name);
    assert(g == name);
    lemma_good_path(name);
    assert(seq![name].drop_last() =~= Seq::<Seq<char>>::empty());
    assert(seq![name].last() == name);
    assert(named(v.entries, d, i, b));
    lemma_step(v.entries, d, i, b);
    assert(walk(v.entries, d, seq![name].drop_last()) == Some(d));
}
/// one entry of directory `d` was removed recursively
pub proof fn lemma_child_removed(v: FsView, w: FsView, d: u64, i: u32, name: Seq<char>)
    requires tree(v), sane(v), v.entries.dom().contains((d, i)), encode_utf8(name) == v.entries[(d, i)].name.kv(), removed_all(v, w, d, name),
    ensures pruned(v, w, d), !w.entries.dom().contains((d, i)), forall|j: u32| j != i && v.entries.dom().contains((d, j)) ==> #[trigger] w.entries.dom().contains((d, j)),
{
    lemma_entry_path(v, d, i, name);
    let c = v.entries[(d, i)].node;
    let u = choose|u: FsView| #[trigger] pruned(v, u, c) && tree(u) && sane(u) && leads_to_entry(u, d, name) && w == removed_at(u, d, name)
        && !u.mounts.dom().contains(c) && target(u, d, name) == c && (is_dir_node(u, c) ==> u.meta[c].size == 0)
        && parent_of(u, d, name) == d && idx_of(u.entries, d, last_name(name)) == i;
    assert(inside(v.entries, d, d));
    lemma_inside_step(v.entries, d, (d, i));
    lemma_pruned_below(v, u, c, d);
    lemma_leads(u, d, name, 0);
    lemma_pruned_removed(u, d, name);
    lemma_removed_at(u, d, name);
    lemma_pruned_trans(v, u, w, d);
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(v.entries, rank);
    assert(rank(v.entries[(d, i)].node) > rank(d));
    assert forall|j: u32| j != i && v.entries.dom().contains((d, j)) implies #[trigger] w.entries.dom().contains((d, j)) by {
        if !u.entries.dom().contains((d, j)) { lemma_inside_rank(v.entries, rank, c, d); }
    }
}
/// removing below an entry leaves the entry itself
pub proof fn lemma_child_kept(v: FsView, w: FsView, k: (u64, u32))
    requires tree(v), v.entries.dom().contains(k), pruned(v, w, v.entries[k].node),
    ensures pruned(v, w, k.0), forall|j: u32| v.entries.dom().contains((k.0, j)) ==> #[trigger] w.entries.dom().contains((k.0, j)),
{
    let c = v.entries[k].node;
    assert(inside(v.entries, k.0, k.0));
    lemma_inside_step(v.entries, k.0, k);
    lemma_pruned_below(v, w, c, k.0);
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(v.entries, rank);
    assert(rank(v.entries[k].node) > rank(k.0));
    assert forall|j: u32| v.entries.dom().contains((k.0, j)) implies #[trigger] w.entries.dom().contains((k.0, j)) by {
        if !w.entries.dom().contains((k.0, j)) { lemma_inside_rank(v.entries, rank, c, k.0); }
    }
}
pub proof fn lemma_pruned_room(v: FsView, w: FsView, s: u64)
    requires pruned(v, w, s), room(v),
    ensures room(w),
{
    assert forall|k: (u64, u32)| #[trigger] w.entries.dom().contains(k) implies k.1 < 4294967284 by { assert(v.entries.dom().contains(k)); }
    assert(w.entries.dom().subset_of(v.entries.dom()));
    vstd::set_lib::lemma_len_subset(w.entries.dom(), v.entries.dom());
}
/// a directory without entries counts none
pub proof fn lemma_emptied(v: FsView, d: u64)
    requires tree(v), is_dir_node(v, d), forall|j: u32| !#[trigger] v.entries.dom().contains((d, j)),
    ensures v.meta[d].size == 0,
{
    assert(node_ok(v, d, 0, 0));
    assert(kids_of(v.entries, d) =~= Set::<(u64, u32)>::empty()) by {
        assert forall|k: (u64, u32)| !kids_of(v.entries, d).contains(k) by { if kids_of(v.entries, d).contains(k) { assert(v.entries.dom().contains((d, k.1))); } }
    }
}
pub proof fn lemma_not_empty(v: FsView, d: u64, i: u32)
    requires tree(v), is_dir_node(v, d), v.entries.dom().contains((d, i)),
    ensures v.meta[d].size != 0,
{
    assert(node_ok(v, d, 0, 0));
    assert(kids_of(v.entries, d).contains((d, i)));
    assert(kids_of(v.entries, d).len() != 0);
}

// ---------------------------------------------------------------- open descriptors
/// every node but `n` keeps its kind
pub open spec fn keeps_but(v: FsView, w: FsView, n: Option<u64>) -> bool {
    forall|x: u64| #[trigger] v.meta.dom().contains(x) && Some(x) != n ==> w.meta.dom().contains(x) && w.meta[x].file_type == v.meta[x].file_type
}
/// the node that goes away when what the path leads to is removed
pub open spec fn victim(v: FsView, d: u64, path: Seq<char>) -> Option<u64> {
    let n = target(v, d, path);
    if leads_to_entry(v, d, path) && v.meta[n].link_count == 1 { Some(n) } else { None }
}
pub proof fn lemma_removed_keeps(v: FsView, d: u64, path: Seq<char>)
    requires tree(v), sane(v), leads_to_entry(v, d, path), !v.mounts.dom().contains(target(v, d, path)),
    ensures keeps_but(v, removed_at(v, d, path), victim(v, d, path)),
{
    lemma_leads(v, d, path, 0);
    assert(node_ok(v, target(v, d, path), 0, 0));
    lemma_entry(v, parent_of(v, d, path), idx_of(v.entries, parent_of(v, d, path), last_name(path)), 0, 0);
}
pub proof fn lemma_link_keeps(v: FsView, v2: FsView, w: FsView, p: u64, d: u64, path: Seq<char>, s: u64)
    requires tree(v), sane(v), link_steps(v, v2, w, p, d, path, s), v.meta.dom().contains(s),
        resolve(v.entries, d, path) is Ok ==> leads_to_entry(v, d, path) && !v.mounts.dom().contains(target(v, d, path)),
    ensures keeps_but(v, w, if resolve(v.entries, d, path) is Ok { victim(v, d, path) } else { None }),
{
    let v1 = cleared(v, d, path);
    if resolve(v.entries, d, path) is Ok { lemma_removed_keeps(v, d, path); }
    assert(keeps_but(v1, v2, None));
    let v3 = more_links(v2, s);
    assert(keeps_but(v2, v3, None));
    assert(keeps_but(v3, w, None));
    let n = if resolve(v.entries, d, path) is Ok { victim(v, d, path) } else { None };
    assert forall|x: u64| #[trigger] v.meta.dom().contains(x) && Some(x) != n implies w.meta.dom().contains(x) && w.meta[x].file_type == v.meta[x].file_type by {
        assert(v1.meta.dom().contains(x)); assert(v2.meta.dom().contains(x)); assert(v3.meta.dom().contains(x));
    }
}

// ---------------------------------------------------------------- renaming
/// the entry at the old path can be moved to the new path
pub open spec fn can_rename(v: FsView, open: Map<u64, usize>, sd: u64, old_path: Seq<char>, d: u64, new_path: Seq<char>) -> bool {
    let s = target(v, sd, old_path);
    &&& leads_to_entry(v, sd, old_path) && !v.mounts.dom().contains(s)
    &&& can_make_link(v, open, d, new_path, s, true)
    &&& is_dir_node(v, s) ==> !inside(v.entries, s, deepest(v.entries, d, parts_of(new_path)->Ok_0))
}
/// `w` is `v` with the entry at the old path moved to the new path
pub open spec fn renamed(v: FsView, w: FsView, sd: u64, old_path: Seq<char>, d: u64, new_path: Seq<char>) -> bool {
    let s = target(v, sd, old_path); let p = parent_of(v, sd, old_path); let i = idx_of(v.entries, p, last_name(old_path));
    exists|w1: FsView| #[trigger] link_made(v, w1, d, new_path, s) && w == unlink(w1, p, i, s)
}
/// an entry that leads to a node which is not on the way is not needed
pub proof fn lemma_walk_not_via(es: Entries, rank: spec_fn(u64) -> nat, k: (u64, u32), d: u64, a: Seq<Seq<char>>)
    requires uniq(es), ranked(es, rank), es.dom().contains(k), walk(es, d, a) is Some, rank(es[k].node) > rank(walk(es, d, a)->0),
    ensures walk(es.remove(k), d, a) == walk(es, d, a),
    decreases a.len(),
{
    if a.len() > 0 {
        let p = walk(es, d, a.drop_last())->0; let name = encode_utf8(a.last()); let i = idx_of(es, p, name);
        assert(named(es, p, i, name));
        assert(rank(es[(p, i)].node) > rank(p));
        lemma_walk_not_via(es, rank, k, d, a.drop_last());
        assert((p, i) != k);
        assert(named(es.remove(k), p, i, name));
        lemma_step(es.remove(k), p, i, name);
    }
}
/// a path that does not go through an entry does not need it
pub proof fn lemma_old_path_kept(v: FsView, v2: FsView, w: FsView, p: u64, sd: u64, old_path: Seq<char>, d: u64, new_path: Seq<char>)
    requires tree(v), sane(v), leads_to_entry(v, sd, old_path), resolve(v.entries, d, new_path) != Ok::<u64, Error>(target(v, sd, old_path)),
        resolve(v.entries, d, new_path) is Ok ==> leads_to_entry(v, d, new_path) && !v.mounts.dom().contains(target(v, d, new_path))
            && (is_dir_node(v, target(v, d, new_path)) ==> v.meta[target(v, d, new_path)].size == 0),
        link_steps(v, v2, w, p, d, new_path, target(v, sd, old_path)), uniq(w.entries), more(v2.entries, w.entries),
    ensures ({
        let s = target(v, sd, old_path); let ps = parent_of(v, sd, old_path); let i = idx_of(v.entries, ps, last_name(old_path));
        &&& leads_to_entry(w, sd, old_path) && target(w, sd, old_path) == s && parent_of(w, sd, old_path) == ps
        &&& idx_of(w.entries, ps, last_name(old_path)) == i && w.entries.dom().contains((ps, i)) && w.entries[(ps, i)].node == s && v2.entries.dom().contains((ps, i))
        &&& named(w.entries, ps, i, last_name(old_path))
    }),
{
    let s = target(v, sd, old_path); let ps = parent_of(v, sd, old_path); let i = idx_of(v.entries, ps, last_name(old_path)); let a = parts_of(old_path)->Ok_0;
    let v1 = cleared(v, d, new_path);
    lemma_leads(v, sd, old_path, 0);
    if resolve(v.entries, d, new_path) is Ok {
        let t = target(v, d, new_path);
        lemma_leads(v, d, new_path, 0);
        assert(node_ok(v, t, 0, 0));
        lemma_removed_at(v, d, new_path);
        lemma_no_kids(v, t, 0, 0);
        assert(ps != t);
        assert(walk(v1.entries, sd, a.drop_last()) == Some(ps));
        assert(v1.entries.dom().contains((ps, i)));
    }
    assert(named(v1.entries, ps, i, last_name(old_path)));
    assert(named(v2.entries, ps, i, last_name(old_path)));
    assert(more(v1.entries, w.entries));
    assert(named(w.entries, ps, i, last_name(old_path)));
    lemma_more_walk(v1.entries, w.entries, sd, a.drop_last());
    lemma_step(w.entries, ps, i, last_name(old_path));
}
pub proof fn lemma_renamed(v: FsView, v2: FsView, w1: FsView, w: FsView, p: u64, sd: u64, old_path: Seq<char>, d: u64, new_path: Seq<char>)
    requires ({
            let s = target(v, sd, old_path); let ps = parent_of(v, sd, old_path); let i = idx_of(v.entries, ps, last_name(old_path));
            &&& tree(v2) && tree_x(w1, s) && s != 0 && v2.meta.dom().contains(s) && !w1.mounts.dom().contains(s)
            &&& w1.entries.dom().contains((ps, i)) && w1.entries[(ps, i)].node == s && named(w1.entries, ps, i, last_name(old_path))
            &&& v2.entries.dom().contains((ps, i)) && !v2.entries.dom().contains((p, next_idx(v2.entries, p)))
            &&& named(w1.entries, p, next_idx(v2.entries, p), last_name(new_path)) && w1.entries[(p, next_idx(v2.entries, p))].node == s
            &&& walk(w1.entries, d, parts_of(new_path)->Ok_0.drop_last()) == Some(p)
            &&& names_of(w1.entries, s).len() == names_of(v2.entries, s).len() + 1
            &&& w1.meta[s].file_type == v2.meta[s].file_type
            &&& parts_of(new_path) is Ok && parts_of(new_path)->Ok_0.len() > 0
            &&& w == unlink(w1, ps, i, s)
        }),
    ensures tree(w), resolve(w.entries, d, new_path) == Ok::<u64, Error>(target(v, sd, old_path)),
        !has_name(w.entries, parent_of(v, sd, old_path), last_name(old_path)),
{
    let s = target(v, sd, old_path); let ps = parent_of(v, sd, old_path); let i = idx_of(v.entries, ps, last_name(old_path));
    let k = (ps, i); let k2 = (p, next_idx(v2.entries, p));
    lemma_unlinked(w1, w, ps, i, s);
    assert(node_ok(v2, s, 0, 0));
    assert(nodes_ok(w, 0, 0)) by {
        assert forall|n: u64| #[trigger] w.meta.dom().contains(n) implies node_ok(w, n, 0, 0) by { assert(node_ok(w, n, s, 0)); }
    }
    let rank = choose|rank: spec_fn(u64) -> nat| ranked(w1.entries, rank);
    assert(rank(w1.entries[k2].node) > rank(k2.0));
    lemma_walk_not_via(w1.entries, rank, k, d, parts_of(new_path)->Ok_0.drop_last());
    assert(named(w.entries, p, k2.1, last_name(new_path)));
    lemma_step(w.entries, p, k2.1, last_name(new_path));
    if has_name(w.entries, ps, last_name(old_path)) {
        let j = idx_of(w.entries, ps, last_name(old_path));
        assert(named(w.entries, ps, j, last_name(old_path)));
        assert(w1.entries.dom().contains((ps, j)) && w1.entries.dom().contains(k));
    }
}

} // verus!
}
