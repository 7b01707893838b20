@@ prelude
pub open spec fn chunk_ok(h: ChunkHandle, start: int, end: int, cs: int) -> bool {
    &&& h.len > 0
    &&& h.offset + h.len <= cs
    &&& start <= h.index * cs + h.offset
    &&& h.index * cs + h.offset + h.len <= end
}
/// the pieces cover start..end without gaps and in order
pub open spec fn tiles(s: Seq<ChunkHandle>, start: int, end: int, cs: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> chunk_ok(#[trigger] s[i], start, end, cs)
    &&& s.len() == 0 ==> start == end
    &&& s.len() > 0 ==> s[0].index * cs + s[0].offset == start
    &&& s.len() > 0 ==> s.last().index * cs + s.last().offset + s.last().len == end
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i]).index * cs + s[i].offset + s[i].len == s[i + 1].index * cs + s[i + 1].offset
}
pub proof fn lemma_tiles_push(s: Seq<ChunkHandle>, h: ChunkHandle, start: int, mid: int, cs: int)
    requires tiles(s, start, mid, cs), h.len > 0, h.offset + h.len <= cs, h.index * cs + h.offset == mid, start <= mid,
    ensures tiles(s.push(h), start, mid + h.len, cs),
{
    let t = s.push(h);
    assert forall|i: int| 0 <= i < t.len() implies chunk_ok(#[trigger] t[i], start, mid + h.len, cs) by {
        if i < s.len() { assert(chunk_ok(s[i], start, mid, cs)); assert(t[i] == s[i]); } else { assert(t[i] == h); }
    }
    assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t[i]).index * cs + t[i].offset + t[i].len == t[i + 1].index * cs + t[i + 1].offset by {
        assert(t[i] == s[i]);
        if i + 1 < s.len() { assert(t[i + 1] == s[i + 1]); } else { assert(t[i + 1] == h); assert(s[i] == s.last()); }
    }
    assert(t.last() == h);
    if s.len() > 0 { assert(t[0] == s[0]); } else { assert(t[0] == h); }
}
pub proof fn lemma_chunk_index(a: int, b: int, cs: int)
    requires 0 <= a <= b, cs > 0,
    ensures a / cs <= b / cs, 0 <= a / cs, (a / cs) * cs <= a < (a / cs) * cs + cs, (b / cs) * cs <= b < (b / cs) * cs + cs,
{
    assert(a / cs <= b / cs && 0 <= a / cs && (a / cs) * cs <= a < (a / cs) * cs + cs && (b / cs) * cs <= b < (b / cs) * cs + cs) by (nonlinear_arith)
        requires 0 <= a <= b, cs > 0;
}
pub proof fn lemma_chunk_of(x: int, cs: int, i: int, xi: int)
    requires 0 <= x, cs > 0, i >= 0, xi == x / cs,
    ensures i <= xi ==> i * cs <= x, i > xi ==> i * cs > x, i < xi ==> i * cs + cs <= x, xi * cs <= x < xi * cs + cs,
{
    assert((x / cs) * cs <= x < (x / cs) * cs + cs) by (nonlinear_arith) requires 0 <= x, cs > 0;
    assert(i <= xi ==> i * cs <= xi * cs) by (nonlinear_arith) requires cs > 0;
    assert(i < xi ==> i * cs + cs <= xi * cs) by (nonlinear_arith) requires cs > 0;
    assert(i > xi ==> i * cs >= xi * cs + cs) by (nonlinear_arith) requires cs > 0;
}
pub proof fn lemma_mul_next(i: int, cs: int)
    ensures (i + 1) * cs == i * cs + cs,
{
    assert((i + 1) * cs == i * cs + cs) by (nonlinear_arith);
}
@@ fn get_path_parts [C07,C17]
    ensures
        r is Ok <==> parts_of(path@) is Ok, // [C17]
        r is Ok ==> views(r->Ok_0.0@) == parts_of(path@)->Ok_0, // [C17]
        r is Err ==> r->Err_0 == parts_of(path@)->Err_0, // [C17]
@@ rewrite get_path_parts
path.starts_with("/")
=>
str_starts_with_slash(path)
@@ rewrite get_path_parts
path.split('/')
=>
str_split_slash(path)
@@ rewrite get_path_parts
part.len()
=>
str_byte_len(part)
@@ rewrite get_path_parts
for part in split $b:tt
=>
let mut part_iter = vec_iter(split); while let Some(part) = part_iter.next() $b
@@ loop get_path_parts 1
    invariant
        !(path@.len() > 0 && path@[0] == '/'),
        0 <= part_iter.pos() <= part_iter.seq().len(),
        part_iter.seq().len() == split_at_slash(path@).len(),
        forall|i: int| 0 <= i < part_iter.seq().len() ==> (#[trigger] part_iter.seq()[i])@ == split_at_slash(path@)[i],
        split_at_slash(path@).take(part_iter.seq().len() as int) == split_at_slash(path@),
        norm(split_at_slash(path@).take(part_iter.pos())) == Ok::<Seq<Seq<char>>, Error>(views(parts@)),
    ensures
        norm(split_at_slash(path@)) == Ok::<Seq<Seq<char>>, Error>(views(parts@)),
    decreases part_iter.seq().len() - part_iter.pos(),
@@ hint get_path_parts loop1:before
    proof { reveal_strlit(".."); reveal_strlit("."); reveal_strlit(""); assert(split_at_slash(path@).take(0) =~= Seq::empty()); assert(views(parts@) =~= Seq::empty()); assert(split_at_slash(path@).take(split_at_slash(path@).len() as int) =~= split_at_slash(path@)); }
@@ hint get_path_parts loop1:start
    let ghost segs = split_at_slash(path@);
    let ghost k = part_iter.pos();
    proof {
        assert(segs.take(k).drop_last() =~= segs.take(k - 1));
        assert(segs.take(k).last() == part@);
        if norm(segs.take(k)) is Err { lemma_norm_err(segs, k); }
    }
    let ghost before = parts@;
@@ hint get_path_parts after "parts.pop();"
    proof { assert(views(parts@) =~= views(before).drop_last()); }
@@ hint get_path_parts after "parts.push(part.to_string());"
    proof { assert(views(parts@) =~= views(before).push(part@)); }
@@ sig grow_memory
grow_memory(memory: &dyn Memory, max_address: FileSize)
=>
grow_memory<X: Memory + ?Sized>(memory: &mut X, max_address: FileSize)
@@ fn grow_memory [C02,C14]
    ensures
        final(memory).mem().len() >= max_address, // [C02]
        final(memory).mem().len() >= old(memory).mem().len(),
        forall|i: int| 0 <= i < old(memory).mem().len() ==> final(memory).mem()[i] == old(memory).mem()[i], // [C02]
        old(memory).mem().len() >= max_address ==> final(memory).mem() == old(memory).mem(),
@@ sig read_obj
read_obj<T: Sized>(memory: &dyn Memory, address: u64, obj: &mut T)
=>
read_obj<T: Sized, X: Memory + ?Sized>(memory: &X, address: u64, obj: &mut T)
@@ rewrite read_obj
unsafe { std::slice::from_raw_parts_mut(obj as *mut T as *mut u8, obj_size) }
=>
obj_as_bytes_mut(obj)
@@ rewrite read_obj
std::mem::size_of::<T>()
=>
size_of_obj::<T>()
@@ fn read_obj [C02,C14]
    requires address + type_size::<T>() <= memory.mem().len(),
    ensures *final(obj) == raw_decode::<T>(memory.mem().subrange(address as int, address + type_size::<T>())), // [C14]
@@ sig write_obj
write_obj<T: Sized>(memory: &dyn Memory, address: u64, obj: &T)
=>
write_obj<T: Sized, X: Memory + ?Sized>(memory: &mut X, address: u64, obj: &T)
@@ rewrite write_obj
unsafe { std::slice::from_raw_parts(obj as *const T as *const u8, obj_size) }
=>
obj_as_bytes(obj)
@@ rewrite write_obj
std::mem::size_of::<T>()
=>
size_of_obj::<T>()
@@ fn write_obj [C02,C14]
    requires address + type_size::<T>() <= u64::MAX,
    ensures
        final(memory).mem().len() >= old(memory).mem().len(),
        final(memory).mem().len() >= address + type_size::<T>(),
        old(memory).mem().len() >= address + type_size::<T>() ==> final(memory).mem().len() == old(memory).mem().len(),
        final(memory).mem().subrange(address as int, address + type_size::<T>()) == raw_bytes(*obj), // [C14]
        forall|i: int| 0 <= i < old(memory).mem().len() && !(address <= i < address + type_size::<T>()) ==> final(memory).mem()[i] == old(memory).mem()[i], // [C02]
@@ hint write_obj entry
    broadcast use axiom_obj_roundtrip;
@@ hint write_obj bodyend
    proof { assert(memory.mem().subrange(address as int, address + type_size::<T>()) =~= raw_bytes(*obj)); }
@@ fn offset_to_file_chunk_index [C01]
    requires 0 < chunk_size <= 65536, offset / (chunk_size as u64) <= u32::MAX,
    ensures r == offset / (chunk_size as u64),
@@ fn file_chunk_index_to_offset [C01]
    requires chunk_size <= 65536,
    ensures r == index * chunk_size,
@@ fn get_chunk_infos [C01]
    requires 0 < chunk_size <= 65536, start <= end, end + chunk_size <= u64::MAX, end / (chunk_size as u64) < u32::MAX,
    ensures tiles(r@, start as int, end as int, chunk_size as int), // [C01]
@@ rewrite get_chunk_infos
for $i:id in $a:id..=$b:id
=>
for $i in $a..($b + 1)
@@ loop get_chunk_infos 1
    invariant
        0 < chunk_size <= 65536, start <= end, end + chunk_size <= u64::MAX,
        start_index == start / (chunk_size as u64), end_index == end / (chunk_size as u64), end_index < u32::MAX,
        start_index <= end_index,
        tiles(result@, start as int, (if index == start_index { start as int } else if index * chunk_size < end { index * chunk_size } else { end as int }), chunk_size as int),
@@ hint get_chunk_infos entry
    proof { lemma_chunk_index(start as int, end as int, chunk_size as int); }
@@ hint get_chunk_infos loop1:start
    proof {
        lemma_chunk_of(start as int, chunk_size as int, index as int, start_index as int);
        lemma_chunk_of(end as int, chunk_size as int, index as int, end_index as int);
        lemma_mul_next(index as int, chunk_size as int);
    }
    let ghost before = result@;
@@ hint get_chunk_infos loop1:end
    proof {
        if result@.len() > before.len() {
            assert(result@ =~= before.push(result@.last()));
            lemma_tiles_push(before, result@.last(), start as int, if index == start_index { start as int } else { index * chunk_size }, chunk_size as int);
        }
    }
@@ hint get_chunk_infos loop1:after
    proof { lemma_chunk_of(end as int, chunk_size as int, end_index + 1, end_index as int); }
@@ hint file_chunk_index_to_offset entry
    proof { assert(index * chunk_size <= 0xffff_ffff * 65536) by (nonlinear_arith) requires 0 <= index <= 0xffff_ffff, 0 <= chunk_size <= 65536; }
@@ fn find_entry_index [C06,C07,C17]
    requires storage.wf(),
    ensures
        path_element@.len() > 255 ==> r == Err::<u32, Error>(Error::FilenameTooLong), // [C17]
        path_element@.len() <= 255 && has_name(storage.fsv().entries, dir_entry_node, path_element@) ==>
            r is Ok && named(storage.fsv().entries, dir_entry_node, r->Ok_0, path_element@), // [C06]
        path_element@.len() <= 255 && !has_name(storage.fsv().entries, dir_entry_node, path_element@) ==> r == Err::<u32, Error>(Error::NoSuchFileOrDirectory), // [C06]
@@ rewrite find_entry_index
storage.with_direntries($d:any, $i:any, &mut |index, dir_entry| $b:tt);
=>
let list_ = storage.direntries($d, $i); let mut list_iter = vec_iter(list_); while let Some(item_) = list_iter.next() { let index = &item_.0; let dir_entry = &item_.1; let go_: bool = $b; if !go_ { break; } }
@@ rewrite find_entry_index
dir_entry.name.bytes[0..$n:any] == *path_element
=>
bytes_eq(&dir_entry.name.bytes[0..$n], path_element)
@@ hint find_entry_index loop1:before
    proof { storage.lemma_sane(); }
@@ loop find_entry_index 1
    invariant_except_break
        result == Err::<u32, Error>(Error::NoSuchFileOrDirectory),
        forall|j: int| 0 <= j < list_iter.pos() ==> (#[trigger] list_iter.seq()[j]).1.name.kv() != path_element@,
    invariant
        0 <= list_iter.pos() <= list_iter.seq().len(), sane(storage.fsv()),
        is_listing(list_iter.seq(), storage.fsv().entries, dir_entry_node, Some(0)),
        path_element@.len() <= 255,
    ensures
        result is Ok ==> named(storage.fsv().entries, dir_entry_node, result->Ok_0, path_element@),
        result is Err ==> result->Err_0 == Error::NoSuchFileOrDirectory && !has_name(storage.fsv().entries, dir_entry_node, path_element@),
    decreases list_iter.seq().len() - list_iter.pos(),
@@ hint find_entry_index loop1:after
    proof { if result is Ok { assert(has_name(storage.fsv().entries, dir_entry_node, path_element@)); } }
@@ hint find_entry_index after "let index = &item_.0;"
    proof {
        let es = storage.fsv().entries; let l = list_iter.seq(); let k = list_iter.pos() - 1;
        assert(l.skip(0) =~= l);
        assert(es.dom().contains((dir_entry_node, l[k].0)) && es[(dir_entry_node, l[k].0)] == l[k].1);
        lemma_kv(&item_.1.name);
        if item_.1.name.length as int == path_element@.len() { assert(item_.1.name.bytes@.take(path_element@.len() as int) == item_.1.name.kv()); }
    }
@@ fn find_node_with_index [C06,C07]
    requires storage.wf(), uniq(storage.fsv().entries),
    ensures
        r is Ok <==> resolve(storage.fsv().entries, parent_dir_node, path@) is Ok, // [C07]
        r is Err ==> r->Err_0 == resolve(storage.fsv().entries, parent_dir_node, path@)->Err_0, // [C07]
        r is Ok ==> r->Ok_0.node == resolve(storage.fsv().entries, parent_dir_node, path@)->Ok_0, // [C07]
        r is Ok && parts_of(path@)->Ok_0.len() > 0 ==> walk(storage.fsv().entries, parent_dir_node, parts_of(path@)->Ok_0.drop_last()) == Some(r->Ok_0.parent_dir)
            && named(storage.fsv().entries, r->Ok_0.parent_dir, r->Ok_0.entry_index, encode_utf8(parts_of(path@)->Ok_0.last())), // [C06]
@@ extra attr find_node_with_index
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ rewrite find_node_with_index
for part in parts $b:tt
=>
let mut part_iter = vec_iter(parts); while let Some(part) = part_iter.next() $b
@@ hint find_node_with_index loop1:before
    let ghost es = storage.fsv().entries; let ghost a = parts_of(path@)->Ok_0; let ghost d0 = parent_dir_node;
    proof { lemma_parts_good(path@); assert(a.take(0) =~= Seq::<Seq<char>>::empty()); assert(a.take(a.len() as int) =~= a); if a.len() > 0 { assert(a.take(a.len() - 1) =~= a.drop_last()); } }
@@ loop find_node_with_index 1
    invariant
        storage.wf(), es == storage.fsv().entries, uniq(es), parts_of(path@) == Ok::<Seq<Seq<char>>, Error>(a), good_parts(a), views(part_iter.seq()) == a,
        part_iter.seq().len() == a.len(), 0 <= part_iter.pos() <= a.len(),
        walk(es, d0, a.take(part_iter.pos())) == Some(cur_node),
        part_iter.pos() > 0 ==> walk(es, d0, a.take(part_iter.pos() - 1)) == Some(parent_dir_node)
            && named(es, parent_dir_node, cur_entry_index, encode_utf8(a[part_iter.pos() - 1])),
    ensures
        walk(es, d0, a) == Some(cur_node),
        a.len() > 0 ==> walk(es, d0, a.drop_last()) == Some(parent_dir_node) && named(es, parent_dir_node, cur_entry_index, encode_utf8(a.last())),
    decreases part_iter.seq().len() - part_iter.pos(),
@@ hint find_node_with_index loop1:start
    proof {
        let k = part_iter.pos();
        lemma_walk_next(es, d0, a, k - 1);
        assert(part@ == views(part_iter.seq())[k - 1]);
        assert(good_part(a[k - 1]));
        if walk(es, d0, a.take(k)) is None { lemma_walk_none(es, d0, a, k); }
    }
@@ hint find_node_with_index before "let entry = $x:any"
    proof { lemma_step(es, cur_node, cur_entry_index, encode_utf8(part@)); }
@@ fn find_node [C06,C07,C08]
    requires storage.wf(), uniq(storage.fsv().entries), old(names_cache).wf(), coherent(old(names_cache).map(), storage.fsv().entries),
    ensures final(names_cache).wf(), coherent(final(names_cache).map(), storage.fsv().entries), // [C07,C14]
        r is Ok <==> resolve(storage.fsv().entries, parent_dir_node, path@) is Ok, // [C07]
        r is Err ==> r->Err_0 == resolve(storage.fsv().entries, parent_dir_node, path@)->Err_0, // [C07]
        r is Ok ==> r->Ok_0 == resolve(storage.fsv().entries, parent_dir_node, path@)->Ok_0, // [C07]
@@ fn add_dir_entry [C06,C16,C17]
    requires old(storage).wf(), can_link(old(storage).fsv(), parent_dir_node, entry_name@),
    ensures final(storage).wf(),
        r is Ok, // [C06,C17]
        linked(old(storage).fsv(), final(storage).fsv(), parent_dir_node, new_node, entry_name@, file_type), // [C06,C02]
@@ hint add_dir_entry entry
    let ghost v = storage.fsv();
    proof { storage.lemma_sane(); assert(active(v).dom().contains(parent_dir_node)); assert(active(v)[parent_dir_node] == v.meta[parent_dir_node]); }
@@ hint add_dir_entry before "storage.put_direntry($x:any);"
    proof {
        assert(!v.entries.dom().contains((parent_dir_node, new_entry_index)));
        assert forall|i: u32| #[trigger] v.entries.dom().contains((parent_dir_node, i)) implies v.entries[(parent_dir_node, i)].name.kv() != name.kv() by {
            if v.entries[(parent_dir_node, i)].name.kv() == name.kv() { assert(named(v.entries, parent_dir_node, i, name.kv())); }
        }
    }
@@ fn create_dir_entry [C02,C06,C16,C19]
    requires old(storage).wf(), can_link(old(storage).fsv(), parent_dir_node, entry_name@), old(storage).fsv().next_node < u64::MAX,
    ensures final(storage).wf(),
        entry_type == FileType::SymbolicLink ==> r == Err::<u64, Error>(Error::InvalidArgument) && final(storage).fsv() == old(storage).fsv(), // [C20]
        entry_type != FileType::SymbolicLink ==> r == Ok::<u64, Error>(old(storage).fsv().next_node)
            && linked(fresh_node(old(storage).fsv(), entry_type, ctime), final(storage).fsv(), parent_dir_node, old(storage).fsv().next_node, entry_name@, entry_type), // [C06,C19,C02]
@@ hint create_dir_entry entry
    proof { storage.lemma_sane(); }
@@ fn rm_dir_entry [C05,C06,C08,C12,C20]
    requires old(storage).wf(), tree_x(old(storage).fsv(), target(old(storage).fsv(), parent_dir_node, path@)), old(names_cache).wf(),
    ensures final(storage).wf(), final(names_cache).wf(),
        final(names_cache).map() == old(names_cache).map() || final(names_cache).map() == Map::<(u64, Seq<char>), u64>::empty(), // [C07,C14]
        r is Ok <==> can_unlink(old(storage).fsv(), node_refcount@, parent_dir_node, path@, expect_dir, is_renaming), // [C12]
        r is Err ==> final(storage).fsv() == old(storage).fsv(), // [C12,C20]
        resolve(old(storage).fsv().entries, parent_dir_node, path@) is Err ==> r is Err && r->Err_0 == resolve(old(storage).fsv().entries, parent_dir_node, path@)->Err_0, // [C07]
        r is Ok ==> final(names_cache).map() == Map::<(u64, Seq<char>), u64>::empty(), // [C07,C14]
        r is Ok ==> r->Ok_0.0 == target(old(storage).fsv(), parent_dir_node, path@), // [C06]
        r is Ok ==> unlinked(old(storage).fsv(), final(storage).fsv(), parent_of(old(storage).fsv(), parent_dir_node, path@),
            idx_of(old(storage).fsv().entries, parent_of(old(storage).fsv(), parent_dir_node, path@), last_name(path@)), r->Ok_0.0), // [C06,C08,C02]
        r is Ok ==> r->Ok_0.1 == final(storage).fsv().meta[r->Ok_0.0], // [C08]
@@ hint rm_dir_entry entry
    let ghost v = storage.fsv(); let ghost d0 = parent_dir_node;
    proof { storage.lemma_sane(); }
@@ hint rm_dir_entry before "if storage.is_mounted($x:any) $b:tt"
    let ghost n = find_result.node; let ghost p = find_result.parent_dir; let ghost i = find_result.entry_index;
    proof {
        let a = parts_of(path@)->Ok_0;
        lemma_walk_next(v.entries, d0, a, a.len() - 1);
        assert(a.take(a.len() - 1) =~= a.drop_last());
        assert(p == parent_of(v, d0, path@));
        lemma_step(v.entries, p, i, last_name(path@));
        assert(v.entries[(p, i)].node == n);
        lemma_entry(v, p, i, n, 0);
        assert(node_ok(v, n, n, 0));
    }
@@ fn create_path [C06,C07,C17,C19,C20]
    requires old(storage).wf(), tree(old(storage).fsv()), room(old(storage).fsv()), is_dir_node(old(storage).fsv(), parent_node), leaf_type != Some(FileType::SymbolicLink),
        parts_of(path@) is Ok ==> parts_of(path@)->Ok_0.len() < 0x1_0000_0000,
    ensures final(storage).wf(), ({
        let v = old(storage).fsv(); let w = final(storage).fsv(); let d = parent_node; let a = parts_of(path@)->Ok_0;
        let q = deepest(v.entries, d, a); let j = deep(v.entries, d, a);
        &&& parts_of(path@) is Err ==> r is Err && r->Err_0 == parts_of(path@)->Err_0 && w == v // [C07,C17,C20]
        &&& parts_of(path@) is Ok && walk(v.entries, d, a) is Some ==> r is Ok && r->Ok_0.0 == walk(v.entries, d, a)->0 && w == v // [C07]
        &&& parts_of(path@) is Ok && walk(v.entries, d, a) is None && !is_dir_node(v, q) ==> r == Err::<(u64, String), Error>(Error::InvalidArgument) && w == v // [C20]
        &&& parts_of(path@) is Ok && walk(v.entries, d, a) is None && is_dir_node(v, q) ==> {
            &&& r is Ok && r->Ok_0.1@ == a.last() && tree(w) // [C06]
            &&& extended(v, w, q, ctime) // [C02,C19]
            &&& leaf_type is Some ==> { let n = r->Ok_0.0;
                &&& walk(w.entries, d, a) == Some(n) // [C06,C07]
                &&& w.next_node == v.next_node + a.len() - j && n >= v.next_node // [C06,C20]
                &&& w.meta.dom().contains(n) && w.meta[n] == (Metadata { node: n, ..new_meta(v, leaf_type->0, ctime) }) // [C19]
            }
            &&& leaf_type is None ==> { let p = r->Ok_0.0;
                &&& walk(w.entries, d, a.drop_last()) == Some(p) && is_dir_node(w, p) // [C08]
                &&& w.next_node == v.next_node + a.len() - 1 - j && (p == q || p >= v.next_node) && (a.len() - 1 == j ==> w == v) // [C08,C20]
                &&& can_link(w, p, encode_utf8(a.last())) && good_name(encode_utf8(a.last())) // [C08]
            }
        }
    }),
@@ extra attr create_path
#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ rewrite create_path
for part in parts $b:tt
=>
let mut part_iter = vec_iter(parts); while let Some(part) = part_iter.next() $b
@@ hint create_path loop1:before
    let ghost v = storage.fsv(); let ghost d = parent_node; let ghost a = parts_of(path@)->Ok_0; let ghost mut j: int = 0; let ghost mut q: u64 = d;
    proof { lemma_parts_good(path@); assert(a.take(0) =~= Seq::<Seq<char>>::empty()); assert(a.take(a.len() as int) =~= a); storage.lemma_sane(); }
@@ loop create_path 1
    invariant
        storage.wf(), parts_of(path@) == Ok::<Seq<Seq<char>>, Error>(a), good_parts(a), views(part_iter.seq()) == a,
        part_iter.seq().len() == a.len(), 0 <= part_iter.pos() <= a.len(), 0 <= j <= part_iter.pos(),
        walk(v.entries, d, a.take(j)) == Some(q), v.meta.dom().contains(q),
        part_iter.pos() > 0 ==> last_name@ == a[part_iter.pos() - 1],
        last_file_type == v.meta[q].file_type,
        tree(storage.fsv()), extended(v, storage.fsv(), q, ctime),
        !needs_folder_creation ==> storage.fsv() == v && j == part_iter.pos() && cur_node == q,
        needs_folder_creation ==> { let w = storage.fsv(); let k = part_iter.pos();
            &&& j < k && walk(v.entries, d, a.take(j + 1)) is None
            &&& walk(w.entries, d, a.take(k - 1)) == Some(parent_node) && cur_node == parent_node
            &&& !has_name(w.entries, parent_node, encode_utf8(a[k - 1]))
            &&& w.next_node == v.next_node + (k - 1 - j) && w.entries.dom().len() == v.entries.dom().len() + (k - 1 - j)
            &&& k - 1 == j ==> w == v && parent_node == q
            &&& k - 1 > j ==> parent_node >= v.next_node && is_dir_node(v, q) && is_dir_node(w, parent_node) && forall|x: (u64, u32)| #[trigger] w.entries.dom().contains(x) ==> x.0 != parent_node
        },
    decreases part_iter.seq().len() - part_iter.pos(),
@@ hint create_path loop1:start
    let ghost k = part_iter.pos() - 1; let ghost w0 = storage.fsv();
    proof {
        storage.lemma_sane();
        assert(part@ == views(part_iter.seq())[k]); assert(good_part(a[k]));
        lemma_walk_next(v.entries, d, a, k); lemma_walk_next(w0.entries, d, a, k);
        if k > 0 {
            assert(good_part(a[k - 1])); assert(good_name(encode_utf8(a[k - 1])));
            lemma_walk_next(w0.entries, d, a, k - 1);
            if needs_folder_creation && is_dir_node(v, q) { lemma_can_link(w0, parent_node, encode_utf8(a[k - 1]), 0, 0); }
            if needs_folder_creation { lemma_deep_is(v.entries, d, a, j); lemma_walk_none(v.entries, d, a, j + 1); }
        }
    }
@@ hint create_path after "cur_node = create_dir_entry($x:any)?;" #1
    proof {
        let w = storage.fsv();
        storage.lemma_sane();
        lemma_create(v, w0, w, q, parent_node, encode_utf8(a[k - 1]), FileType::Directory, ctime);
        lemma_more_walk(w0.entries, w.entries, d, a.take(k - 1));
        lemma_walk_next(w.entries, d, a, k - 1);
        assert(!has_name(w.entries, cur_node, encode_utf8(a[k])));
    }
@@ hint create_path before "let entry = $x:any"
    proof { lemma_step(v.entries, cur_node, entry_index, encode_utf8(part@)); assert(entry_ok(v, (cur_node, entry_index), v.entries[(cur_node, entry_index)])); }
@@ hint create_path loop1:end
    proof { if !needs_folder_creation { j = k + 1; q = cur_node; } }
@@ hint create_path loop1:after
    let ghost w1 = storage.fsv(); let ghost k = a.len() as int;
    proof {
        storage.lemma_sane();
        lemma_deep_is(v.entries, d, a, j);
        if needs_folder_creation {
            lemma_walk_none(v.entries, d, a, j + 1);
            assert(a.take(k - 1) =~= a.drop_last());
            assert(good_part(a[k - 1])); assert(good_name(encode_utf8(a[k - 1])));
            if is_dir_node(v, q) { lemma_can_link(w1, parent_node, encode_utf8(a[k - 1]), 0, 0); }
        }
    }
@@ hint create_path after "cur_node = create_dir_entry($x:any)?;" #2
    proof {
        let w = storage.fsv();
        lemma_create(v, w1, w, q, parent_node, encode_utf8(a[k - 1]), leaf_type, ctime);
        lemma_more_walk(w1.entries, w.entries, d, a.take(k - 1));
        lemma_walk_next(w.entries, d, a, k - 1);
    }
@@ fn is_path_inside [C08,C20]
    requires storage.wf(), tree(storage.fsv()), storage.fsv().meta.dom().contains(start_dir),
    ensures
        r is Err <==> parts_of(path@) is Err, // [C07]
        r is Err ==> r->Err_0 == parts_of(path@)->Err_0, // [C07]
        r == Ok::<bool, Error>(true) ==> inside(storage.fsv().entries, node, deepest(storage.fsv().entries, start_dir, parts_of(path@)->Ok_0)), // [C08]
        r == Ok::<bool, Error>(false) ==> !is_dir_node(storage.fsv(), deepest(storage.fsv().entries, start_dir, parts_of(path@)->Ok_0))
            || !inside(storage.fsv().entries, node, deepest(storage.fsv().entries, start_dir, parts_of(path@)->Ok_0)), // [C08,C20]
@@ extra attr is_path_inside
#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ rewrite is_path_inside
for part in parts $b:tt
=>
let mut part_iter = vec_iter(parts); while let Some(part) = part_iter.next() $b
@@ rewrite is_path_inside
storage.with_direntries($d:any, $i:any, &mut |_index, entry| $b:tt);
=>
let list_ = storage.direntries($d, $i); let ghost l = list_@; let mut list_iter = vec_iter(list_); while let Some(item_) = list_iter.next() { let entry = &item_.1; let go_: bool = $b; if !go_ { break; } }
@@ rewrite is_path_inside
while let Some(cur_node) = pending.pop() $b:tt
=>
loop { let ghost pre = pending@; if let Some(cur_node) = pending.pop() $b else { break; } }
@@ hint is_path_inside loop1:before
    let ghost v = storage.fsv(); let ghost es = v.entries; let ghost a = parts_of(path@)->Ok_0;
    proof { lemma_parts_good(path@); assert(a.take(0) =~= Seq::<Seq<char>>::empty()); assert(a.take(a.len() as int) =~= a); }
@@ loop is_path_inside 1
    invariant_except_break
        0 <= part_iter.pos() <= a.len(), walk(es, start_dir, a.take(part_iter.pos())) == Some(target),
    invariant
        part_iter.seq().len() == a.len(), views(part_iter.seq()) == a,
    ensures
        exists|j: int| 0 <= j <= a.len() && walk(es, start_dir, #[trigger] a.take(j)) == Some(target) && (j < a.len() ==> walk(es, start_dir, a.take(j + 1)) is None),
    decreases part_iter.seq().len() - part_iter.pos(),
@@ hint is_path_inside loop1:start
    let ghost k = part_iter.pos() - 1;
    proof {
        assert(part@ == views(part_iter.seq())[k]); assert(good_part(a[k]));
        lemma_walk_next(es, start_dir, a, k);
        if has_name(es, target, encode_utf8(part@)) {
            let i = idx_of(es, target, encode_utf8(part@)); assert(named(es, target, i, encode_utf8(part@)));
        }
        assert forall|i: u32| #[trigger] named(es, target, i, encode_utf8(part@)) implies step(es, target, encode_utf8(part@)) == Some(es[(target, i)].node) by { lemma_step(es, target, i, encode_utf8(part@)); }
    }
@@ hint is_path_inside loop1:after
    proof {
        let j = choose|j: int| 0 <= j <= a.len() && walk(es, start_dir, #[trigger] a.take(j)) == Some(target) && (j < a.len() ==> walk(es, start_dir, a.take(j + 1)) is None);
        lemma_deep_is(es, start_dir, a, j);
    }
@@ hint is_path_inside loop2:before
    let ghost mut done: Set<u64> = Set::empty();
    // the entries followed so far: every entry of a directory is followed once
    let ghost mut used: Set<(u64, u32)> = Set::empty();
    proof { lemma_search_start(v, node); assert(pending@ =~= seq![node]); }
    proof { assert(pending@.contains(node)) by { assert(pending@[0] == node); } }
@@ loop is_path_inside 2
    invariant
        forall|i: int| 0 <= i < pending@.len() ==> inside(es, node, #[trigger] pending@[i]),
        !done.contains(target),
        done.contains(node) || pending@.contains(node),
        forall|k: (u64, u32)| #[trigger] es.dom().contains(k) && done.contains(k.0) ==> es[k].entry_type == Some(FileType::RegularFile) || done.contains(es[k].node) || pending@.contains(es[k].node),
        searching(v, node, pending@, done, used), used.len() <= es.dom().len(),
    ensures pending@.len() == 0,
    decreases 2 * (es.dom().len() - used.len()) + pending@.len(),
@@ hint is_path_inside before "if cur_node == target $b:tt"
    let ghost pend0 = pending@; let ghost pend1 = pending@.push(cur_node); let ghost used0 = used;
    proof { assert(pend1 =~= pre); assert(pend1[pend0.len() as int] == cur_node); assert(inside(es, node, cur_node)); assert(forall|x: u64| pend1.contains(x) ==> x == cur_node || pend0.contains(x)); }
@@ hint is_path_inside loop3:before
    proof {
        lemma_search_pop(v, node, pend1, done, used0);
        assert(pend1.drop_last() =~= pend0);
        assert forall|j: int| 0 <= j < l.len() implies !used.contains((cur_node, (#[trigger] l[j]).0)) by {
            assert(l.skip(0) =~= l);
            assert(es.dom().contains((cur_node, l[j].0))); assert(entry_ok(v, (cur_node, l[j].0), es[(cur_node, l[j].0)]));
        }
    }
@@ loop is_path_inside 3
    invariant
        0 <= list_iter.pos() <= l.len(), list_iter.seq() == l,
        forall|i: int| 0 <= i < pending@.len() ==> inside(es, node, #[trigger] pending@[i]),
        pending@.len() >= pend0.len(), pending@.take(pend0.len() as int) == pend0,
        forall|i: int| 0 <= i < list_iter.pos() && (#[trigger] l[i]).1.entry_type != Some(FileType::RegularFile) ==> pending@.contains(l[i].1.node),
        searching(v, node, pending@, done.insert(cur_node), used), used.len() <= es.dom().len(),
        2 * (es.dom().len() - used.len()) + pending@.len() <= 2 * (es.dom().len() - used0.len()) + pend0.len(),
        forall|j: int| list_iter.pos() <= j < l.len() ==> !used.contains((cur_node, (#[trigger] l[j]).0)),
    ensures
        list_iter.pos() == l.len(),
    decreases l.len() - list_iter.pos(),
@@ hint is_path_inside loop3:start
    let ghost pos = list_iter.pos() - 1; let ghost pa = pending@;
    proof {
        assert(l.skip(0) =~= l);
        assert(es.dom().contains((cur_node, l[pos].0)) && es[(cur_node, l[pos].0)] == l[pos].1);
        lemma_inside_step(es, node, (cur_node, l[pos].0));
        lemma_search_entry(v, node, pa, done.insert(cur_node), used, (cur_node, l[pos].0));
        used = used.insert((cur_node, l[pos].0));
        lemma_search_room(v, node, pa, done.insert(cur_node), used);
    }
@@ hint is_path_inside loop3:end
    proof {
        assert(pending@.take(pend0.len() as int) =~= pend0);
        assert forall|x: u64| pa.contains(x) implies pending@.contains(x) by { let i = choose|i: int| 0 <= i < pa.len() && pa[i] == x; assert(pending@[i] == x); }
        if l[pos].1.entry_type != Some(FileType::RegularFile) { assert(pending@[pa.len() as int] == l[pos].1.node); }
    }
@@ hint is_path_inside loop3:after
    proof {
        let done0 = done;
        done = done.insert(cur_node);
        assert(l.skip(0) =~= l);
        assert forall|x: u64| pend0.contains(x) implies pending@.contains(x) by { let i = choose|i: int| 0 <= i < pend0.len() && pend0[i] == x; assert(pending@.take(pend0.len() as int)[i] == x); }
        assert forall|k: (u64, u32)| #[trigger] es.dom().contains(k) && done.contains(k.0) implies es[k].entry_type == Some(FileType::RegularFile) || done.contains(es[k].node) || pending@.contains(es[k].node) by {
            if k.0 == cur_node {
                assert(entry_ok(v, k, es[k]));
                let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k.1;
                assert(l[i].1 == es[k]);
            }
        }
    }
@@ hint is_path_inside end
    proof {
        let c = |x: u64| done.contains(x) || (v.meta.dom().contains(x) && v.meta[x].file_type == FileType::RegularFile);
        assert forall|k: (u64, u32)| #[trigger] es.dom().contains(k) && c(k.0) implies c(es[k].node) by { assert(entry_ok(v, k, es[k])); }
        assert(closed(es, c)); assert(c(node));
        assert(is_dir_node(v, target) ==> !c(target));
    }
@@ fn create_hard_link [C05,C06,C08,C12,C19,C20]
    requires old(storage).wf(), tree(old(storage).fsv()), room(old(storage).fsv()), is_dir_node(old(storage).fsv(), parent_dir_node),
        old(names_cache).wf(), coherent(old(names_cache).map(), old(storage).fsv().entries),
        parts_of(new_path@) is Ok ==> parts_of(new_path@)->Ok_0.len() < 0x1_0000_0000,
        is_renaming && resolve(old(storage).fsv().entries, src_dir_node, src_path@) is Ok ==> not_into_itself(old(storage).fsv(), parent_dir_node, new_path@, target(old(storage).fsv(), src_dir_node, src_path@)),
    ensures final(storage).wf(), final(names_cache).wf(), coherent(final(names_cache).map(), final(storage).fsv().entries), // [C07,C14]
        r is Err ==> final(storage).fsv() == old(storage).fsv(), // [C12,C20]
        resolve(old(storage).fsv().entries, src_dir_node, src_path@) is Err ==> r is Err && r->Err_0 == resolve(old(storage).fsv().entries, src_dir_node, src_path@)->Err_0, // [C07]
        r is Ok <==> leads_to_entry(old(storage).fsv(), src_dir_node, src_path@)
            && can_make_link(old(storage).fsv(), node_refcount@, parent_dir_node, new_path@, target(old(storage).fsv(), src_dir_node, src_path@), is_renaming), // [C08,C12]
        r is Ok ==> ({
            let v = old(storage).fsv(); let w = final(storage).fsv(); let s = target(v, src_dir_node, src_path@); let d = parent_dir_node;
            &&& resolve(v.entries, d, new_path@) == Ok::<u64, Error>(s) ==> w == v // [C08]
            &&& resolve(v.entries, d, new_path@) != Ok::<u64, Error>(s) ==> link_made(v, w, d, new_path@, s) // [C08,C02]
            &&& resolve(w.entries, d, new_path@) == Ok::<u64, Error>(s) // [C08]
            &&& v.meta[s].file_type == FileType::RegularFile ==> tree(w) // [C06,C08]
        }),
@@ hint create_hard_link entry
    let ghost v = storage.fsv(); let ghost d = parent_dir_node; let ghost a = parts_of(new_path@)->Ok_0;
    proof { storage.lemma_sane(); }
@@ hint create_hard_link before "let mut metadata = storage.get_metadata(src_node)?;"
    let ghost s = src_node;
    proof {
        lemma_leads(v, src_dir_node, src_path@, 0); assert(node_ok(v, s, 0, 0)); lemma_kids(v.entries, s);
        if parts_of(new_path@) is Err { lemma_refused_path(new_path@); }
    }
@@ hint create_hard_link before "if dst_node == src_node $b:tt"
    proof { if parts_of(new_path@)->Ok_0.len() > 0 { lemma_leads(v, d, new_path@, 0); assert(node_ok(v, dst_node, 0, 0)); lemma_entry(v, parent_of(v, d, new_path@), idx_of(v.entries, parent_of(v, d, new_path@), last_name(new_path@)), 0, 0); } }
@@ hint create_hard_link before "let (removed_node, removed_meta) = $x:any;"
    proof { lemma_tree_x(v, dst_node); }
@@ hint create_hard_link before "let ctime = $x:any;"
    let ghost v1 = storage.fsv();
    proof {
        storage.lemma_sane();
        assert(v1 == cleared(v, d, new_path@));
        assert(coherent(names_cache.map(), v1.entries));
        if is_dir_node(v1, deepest(v1.entries, d, a)) || resolve(v.entries, d, new_path@) is Ok { lemma_cleared(v, node_refcount@, d, new_path@, s, is_renaming); }
    }
@@ hint create_hard_link before "metadata.link_count += 1;"
    let ghost v2 = storage.fsv(); let ghost q = deepest(v1.entries, d, a);
    proof {
        storage.lemma_sane();
        assert(v1.meta.dom().contains(s));
        assert(node_ok(v2, s, 0, 0));
        if is_dir_node(v2, s) {
            lemma_outside_extended(v1, v2, q, ctime, s, dir_node);
            lemma_acyclic_outside(v2.entries, s, dir_node);
        } else {
            assert forall|k: (u64, u32)| #[trigger] v2.entries.dom().contains(k) implies k.0 != s by { assert(entry_ok(v2, k, v2.entries[k])); }
            lemma_acyclic_leaf(v2.entries, s, dir_node);
        }
    }
@@ hint create_hard_link end
    proof {
        let w = storage.fsv();
        assert(link_steps(v, v2, w, dir_node, d, new_path@, s));
        lemma_link_made(v, v2, w, dir_node, d, new_path@, s);
        assert(more(v1.entries, w.entries));
        lemma_more_coherent(names_cache.map(), v1.entries, w.entries);
    }
@@ extra attr create_hard_link
#[verifier::spinoff_prover]
