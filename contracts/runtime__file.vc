@@ fn File::new [C09,C10,C11]
    requires storage.wf(), active(storage.fsv()).dom().contains(node) ==> active(storage.fsv())[node].file_type == FileType::RegularFile,
    ensures
        r is Ok <==> active(storage.fsv()).dom().contains(node),
        r is Ok ==> r->Ok_0.node == node && r->Ok_0.stat == stat,
        r is Ok ==> r->Ok_0.cursor == (if stat.flags.spec_has(FdFlags::APPEND) { active(storage.fsv())[node].size } else { 0 }), // [C10]
@@ fn File::seek [C10]
    requires storage.wf(),
    ensures
        final(self).node == old(self).node, final(self).stat == old(self).stat,
        r is Err ==> final(self).cursor == old(self).cursor, // [C10]
        r is Ok ==> final(self).cursor == r->Ok_0, // [C10]
        r is Ok <==> active(storage.fsv()).dom().contains(old(self).node) && (match whence {
            Whence::SET => delta >= 0,
            Whence::CUR => 0 <= old(self).cursor + delta <= u64::MAX,
            Whence::END => delta <= 0 && active(storage.fsv())[old(self).node].size + delta >= 0,
        }), // [C10]
        r is Ok ==> r->Ok_0 as int == (match whence {
            Whence::SET => delta as int,
            Whence::CUR => old(self).cursor + delta,
            Whence::END => active(storage.fsv())[old(self).node].size + delta,
        }), // [C10]
@@ fn File::tell [C10]
    ensures r == self.cursor, // [C10]
@@ fn File::read_with_cursor [C01,C10]
    requires old(storage).wf(), active(old(storage).fsv()).dom().contains(old(self).node) ==> active(old(storage).fsv())[old(self).node].size <= max_file_size(),
    ensures final(storage).wf(),
        final(self).node == old(self).node, final(self).stat == old(self).stat,
        final(buf)@.len() == old(buf)@.len(),
        r is Err ==> final(self).cursor == old(self).cursor && final(storage).fsv() == old(storage).fsv(), // [C10]
        r is Ok ==> final(self).cursor == old(self).cursor + r->Ok_0, // [C10]
        old(buf)@.len() > 0 ==> (r is Ok <==> active(old(storage).fsv()).dom().contains(old(self).node)),
        active(old(storage).fsv()).dom().contains(old(self).node) ==> r is Ok, // [C01,C20]
        r is Ok && r->Ok_0 > 0 ==> old(self).cursor + r->Ok_0 <= content(final(storage).fsv(), old(self).node).len(),
        r is Ok && active(old(storage).fsv()).dom().contains(old(self).node) ==>
            r->Ok_0 == read_len(active(old(storage).fsv())[old(self).node].size as int, old(self).cursor as int, old(buf)@.len() as int), // [C01]
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == content(final(storage).fsv(), old(self).node)[old(self).cursor + i], // [C01]
        r is Ok ==> forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i], // [C01]
        grown(old(storage).fsv(), final(storage).fsv(), old(self).node), // [C02]
@@ fn File::read_with_offset [C01,C10]
    requires old(storage).wf(),
    ensures final(storage).wf(),
        final(buf)@.len() == old(buf)@.len(),
        r is Err ==> final(storage).fsv() == old(storage).fsv(),
        old(buf)@.len() > 0 ==> (r is Ok <==> active(old(storage).fsv()).dom().contains(self.node)),
        old(buf)@.len() == 0 ==> r == Ok::<u64, Error>(0),
        r is Ok && r->Ok_0 > 0 ==> offset + r->Ok_0 <= content(final(storage).fsv(), self.node).len(),
        r is Ok && active(old(storage).fsv()).dom().contains(self.node) ==>
            r->Ok_0 == read_len(active(old(storage).fsv())[self.node].size as int, offset as int, old(buf)@.len() as int), // [C01]
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == content(final(storage).fsv(), self.node)[offset + i], // [C01]
        r is Ok ==> forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i], // [C01]
        grown(old(storage).fsv(), final(storage).fsv(), self.node), // [C02]
@@ fn File::write_with_offset [C01,C02,C04,C10]
    requires old(storage).wf(),
    ensures final(storage).wf(),
        r is Err ==> final(storage).fsv() == old(storage).fsv(), // [C04]
        r is Ok <==> can_write(old(storage).fsv(), self.node, offset as int, buf@.len() as int), // [C04]
        r is Ok ==> r->Ok_0 == buf@.len(), // [C01]
        r is Ok ==> wrote(old(storage).fsv(), final(storage).fsv(), self.node, offset as int, buf@), // [C01,C02,C13]
@@ fn File::truncate [C03,C19]
    requires old(storage).wf(), self.node < old(storage).fsv().next_node,
    ensures final(storage).wf(),
        r is Err ==> final(storage).fsv() == old(storage).fsv(),
        r is Ok <==> active(old(storage).fsv()).dom().contains(self.node), // [C03]
        r is Ok ==> final(storage).fsv() == with_meta(old(storage).fsv(), self.node, Metadata { size: 0, ..active(old(storage).fsv())[self.node] }), // [C03]
@@ hint File::truncate entry
    proof { storage.lemma_sane(); }
