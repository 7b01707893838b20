@@ comment
@@ extra Storage
    spec fn wf(&self) -> bool;
    spec fn fsv(&self) -> FsView;

    proof fn lemma_sane(tracked &self)
        requires self.wf(),
        ensures sane(self.fsv());

    /// the list of the entries `with_direntries` calls its visitor with (see the contract of with_direntries)
    fn direntries(&self, node: Node, initial_index: Option<DirEntryIndex>) -> (r: Vec<(DirEntryIndex, DirEntry)>)
        requires self.wf(),
        ensures is_listing(r@, self.fsv().entries, node, initial_index);
@@ drop Storage::with_direntries -- replaced in the trait by `direntries`; the implementation in stable.rs is verified on its own
@@ fn Storage::root_node
    ensures r == 0,
@@ fn Storage::get_version
    requires self.wf(),
    ensures r > 0,
@@ fn Storage::new_node [C05,C14]
    requires old(self).wf(), old(self).fsv().next_node < u64::MAX,
    ensures final(self).wf(),
        r == old(self).fsv().next_node, // [C05]
        final(self).fsv() == (FsView { next_node: (r + 1) as u64, ..old(self).fsv() }),
@@ fn Storage::is_mounted [C13]
    ensures r == self.fsv().mounts.dom().contains(node),
@@ fn Storage::get_mounted_memory
    ensures
        r is Some <==> self.fsv().mounts.dom().contains(node),
        r is Some ==> r->0.mem() == self.fsv().mounts[node],
@@ fn Storage::get_metadata [C19]
    requires self.wf(),
    ensures
        active(self.fsv()).dom().contains(node) ==> r == Ok::<Metadata, Error>(active(self.fsv())[node]), // [C19]
        !active(self.fsv()).dom().contains(node) ==> r == Err::<Metadata, Error>(Error::NoSuchFileOrDirectory),
@@ fn Storage::put_metadata [C03,C04,C19]
    requires old(self).wf(), node < old(self).fsv().next_node,
        active(old(self).fsv()).dom().contains(node) || metadata.node == node,
        same_chunks(old(self).fsv(), node, *metadata),
    ensures final(self).wf(),
        r is Err <==> refused(old(self).fsv(), node, *metadata), // [C04]
        r is Err ==> final(self).fsv() == old(self).fsv(),
        r is Ok ==> final(self).fsv() == with_meta(old(self).fsv(), node, *metadata), // [C03]
@@ fn Storage::get_direntry [C16]
    requires self.wf(),
    ensures
        self.fsv().entries.dom().contains((node, index)) ==> r == Ok::<DirEntry, Error>(self.fsv().entries[(node, index)]),
        !self.fsv().entries.dom().contains((node, index)) ==> r == Err::<DirEntry, Error>(Error::NoSuchFileOrDirectory),
@@ fn Storage::get_direntry_index_by_name [C16]
    requires self.wf(),
    ensures
        r is Some ==> self.fsv().entries.dom().contains((el.0, r->0)) && self.fsv().entries[(el.0, r->0)].name.kv() == el.1.kv(), // [C16]
@@ fn Storage::new_direntry_index [C16]
    requires self.wf(), !self.fsv().entries.dom().contains((node, u32::MAX)),
    ensures
        is_next(self.fsv().entries, node, r), // [C16]
        r == next_idx(self.fsv().entries, node), // [C16]
@@ fn Storage::put_direntry [C16]
    requires old(self).wf(),
        forall|i: u32| i != index && #[trigger] old(self).fsv().entries.dom().contains((node, i)) ==> old(self).fsv().entries[(node, i)].name.kv() != entry.name.kv(),
        !old(self).fsv().entries.dom().contains((node, index)), index < 4294967285,
    ensures final(self).wf(),
        final(self).fsv() == (FsView { entries: old(self).fsv().entries.insert((node, index), entry), ..old(self).fsv() }), // [C16]
@@ fn Storage::rm_direntry [C16]
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).fsv() == (FsView { entries: old(self).fsv().entries.remove((node, index)), ..old(self).fsv() }), // [C16]
@@ fn Storage::read [C01,C02]
    requires old(self).wf(),
    ensures final(self).wf(),
        final(buf)@.len() == old(buf)@.len(),
        r is Ok <==> active(old(self).fsv()).dom().contains(node),
        r is Ok ==> r->Ok_0 == read_len(active(old(self).fsv())[node].size as int, read_offset as int, old(buf)@.len() as int), // [C01]
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == content(final(self).fsv(), node)[read_offset + i], // [C01,C13]
        r is Ok ==> forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i], // [C01]
        r is Ok && r->Ok_0 > 0 ==> read_offset + r->Ok_0 <= content(final(self).fsv(), node).len(),
        r is Err ==> final(self).fsv() == old(self).fsv(),
        grown(old(self).fsv(), final(self).fsv(), node), // [C02]
@@ fn Storage::write [C01,C02,C04]
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Err ==> final(self).fsv() == old(self).fsv(), // [C04]
        r is Ok <==> can_write(old(self).fsv(), node, offset as int, buf@.len() as int), // [C04]
        r is Ok ==> r->Ok_0 == buf@.len(), // [C01]
        r is Ok ==> wrote(old(self).fsv(), final(self).fsv(), node, offset as int, buf@), // [C01,C02,C13]
@@ fn Storage::resize_file [C03]
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Err ==> final(self).fsv() == old(self).fsv(),
        r is Ok <==> active(old(self).fsv()).dom().contains(node) && new_size <= max_size_of(active(old(self).fsv())[node]),
        r is Ok ==> final(self).fsv() == with_meta(old(self).fsv(), node, Metadata { size: new_size, ..active(old(self).fsv())[node] }), // [C03]
@@ fn Storage::rm_file [C05,C13]
    requires old(self).wf(), node != 0,
    ensures final(self).wf(),
        r is Err ==> final(self).fsv() == old(self).fsv(),
        r is Ok <==> !old(self).fsv().mounts.dom().contains(node) && old(self).fsv().meta.dom().contains(node), // [C13]
        r is Ok ==> final(self).fsv() == (FsView {
            meta: old(self).fsv().meta.remove(node), mmeta: old(self).fsv().mmeta.remove(node), data: old(self).fsv().data.remove(node),
            ..old(self).fsv() }), // [C05]
@@ fn Storage::mount_node [C13]
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Ok <==> can_mount(old(self).fsv(), node, mount_policy, memory.mem().len() as int), // [C13]
        r is Err ==> final(self).fsv() == old(self).fsv(), // [C13]
        r is Ok ==> final(self).fsv() == (FsView {
            mounts: old(self).fsv().mounts.insert(node, memory.mem()),
            mmeta: old(self).fsv().mmeta.insert(node, mounted_meta(old(self).fsv(), node, mount_policy, memory.mem().len() as int)),
            ..old(self).fsv() }), // [C13]
@@ fn Storage::unmount_node [C13]
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Ok <==> old(self).fsv().mounts.dom().contains(node),
        r is Ok ==> r->Ok_0.mem() == old(self).fsv().mounts[node], // [C13]
        final(self).fsv() == (FsView { mounts: old(self).fsv().mounts.remove(node), ..old(self).fsv() }), // [C13]
        r is Err ==> final(self).fsv() == old(self).fsv(),
@@ fn Storage::init_mounted_memory [C13]
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Ok <==> old(self).fsv().mounts.dom().contains(node), // [C13]
        r is Err ==> final(self).fsv() == old(self).fsv(),
        r is Ok ==> final(self).fsv() == (FsView {
            mounts: old(self).fsv().mounts.insert(node, final(self).fsv().mounts[node]),
            mmeta: old(self).fsv().mmeta.insert(node, old(self).fsv().meta[node]),
            ..old(self).fsv() }), // [C13]
        r is Ok ==> final(self).fsv().mounts[node].len() >= old(self).fsv().data[node].len(),
        r is Ok ==> final(self).fsv().mounts[node].subrange(0, old(self).fsv().data[node].len() as int) == old(self).fsv().data[node], // [C13]
        r is Ok ==> forall|i: int| old(self).fsv().data[node].len() <= i < old(self).fsv().mounts[node].len() ==> #[trigger] final(self).fsv().mounts[node][i] == old(self).fsv().mounts[node][i], // [C13]
@@ fn Storage::store_mounted_memory [C13]
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Ok <==> old(self).fsv().mounts.dom().contains(node) && old(self).fsv().mmeta[node].size <= max_size_of(old(self).fsv().meta[node]), // [C13]
        r is Err ==> final(self).fsv() == old(self).fsv(), // [C13]
        r is Ok ==> final(self).fsv() == (FsView {
            meta: old(self).fsv().meta.insert(node, old(self).fsv().mmeta[node]),
            data: old(self).fsv().data.insert(node, final(self).fsv().mounts[node].subrange(0, old(self).fsv().mmeta[node].size as int)),
            mounts: old(self).fsv().mounts.insert(node, final(self).fsv().mounts[node]),
            ..old(self).fsv() }), // [C13]
        r is Ok ==> final(self).fsv().mounts[node].len() >= old(self).fsv().mounts[node].len() && final(self).fsv().mounts[node].len() >= old(self).fsv().mmeta[node].size,
        r is Ok ==> forall|i: int| 0 <= i < old(self).fsv().mounts[node].len() ==> #[trigger] final(self).fsv().mounts[node][i] == old(self).fsv().mounts[node][i], // [C13]
@@ fn Storage::set_chunk_size [C14,C15]
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Err ==> final(self).fsv() == old(self).fsv(), // [C15]
        r is Ok ==> final(self).fsv() == (FsView { chunk_size: final(self).fsv().chunk_size, ..old(self).fsv() }), // [C14,C15]
@@ fn Storage::chunk_size [C14,C15]
    ensures r == self.fsv().chunk_size, // [C14,C15]
@@ fn Storage::set_chunk_type [C19]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).fsv() == (FsView { chunk_type: final(self).fsv().chunk_type, ..old(self).fsv() }), // [C19]
@@ fn Storage::chunk_type [C19]
    ensures r == self.fsv().chunk_type, // [C19]
@@ fn Storage::flush [C14]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).fsv() == old(self).fsv(),
