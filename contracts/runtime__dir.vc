@@ fn Dir::new [C09,C20]
    requires storage.wf(), active(storage.fsv()).dom().contains(node) ==> active(storage.fsv())[node].file_type == FileType::Directory,
    ensures
        r is Ok <==> active(storage.fsv()).dom().contains(node), // [C20]
        r is Ok ==> r->Ok_0.node == node && r->Ok_0.stat == stat, // [C09]
        r is Err ==> r->Err_0 == Error::NoSuchFileOrDirectory,
@@ fn Dir::create_dir [C06,C07,C17,C19,C20]
    requires old(storage).wf(), tree(old(storage).fsv()), room(old(storage).fsv()), is_dir_node(old(storage).fsv(), self.node),
        old(names_cache).wf(), coherent(old(names_cache).map(), old(storage).fsv().entries),
        parts_of(path@) is Ok ==> parts_of(path@)->Ok_0.len() < 0x1_0000_0000,
    ensures final(storage).wf(), final(names_cache).wf(), coherent(final(names_cache).map(), final(storage).fsv().entries), // [C07,C14]
        r is Ok <==> can_create(old(storage).fsv(), self.node, path@), // [C17,C20]
        r is Err ==> final(storage).fsv() == old(storage).fsv() && r->Err_0 == create_error(old(storage).fsv(), self.node, path@), // [C17,C20]
        r is Ok ==> created(old(storage).fsv(), final(storage).fsv(), self.node, path@, FileType::Directory, ctime, r->Ok_0.node), // [C02,C06,C07,C19]
        r is Ok ==> r->Ok_0.stat == stat, // [C11]
@@ hint Dir::create_dir entry
    let ghost v = storage.fsv(); let ghost a = parts_of(path@)->Ok_0;
    proof { storage.lemma_sane(); if parts_of(path@) is Err { lemma_refused_path(path@); } }
@@ hint Dir::create_dir before "names_cache.add($x:any);"
    let ghost w = storage.fsv(); let ghost c0 = names_cache.map();
    proof { storage.lemma_sane(); lemma_more_coherent(c0, v.entries, w.entries); }
@@ hint Dir::create_dir after "names_cache.add($x:any);"
    proof { assert(created(v, w, self.node, path@, FileType::Directory, ctime, node)); lemma_coherent_add(c0, names_cache.map(), w.entries, (self.node, path@), node); }
@@ fn Dir::remove_dir [C05,C06,C08,C12,C20]
    requires old(storage).wf(), tree(old(storage).fsv()), old(names_cache).wf(), coherent(old(names_cache).map(), old(storage).fsv().entries),
    ensures final(storage).wf(), final(names_cache).wf(), coherent(final(names_cache).map(), final(storage).fsv().entries), // [C07,C14]
        r is Ok <==> can_unlink(old(storage).fsv(), node_refcount@, self.node, path@, Some(true), false), // [C12]
        r is Err ==> final(storage).fsv() == old(storage).fsv(), // [C12,C20]
        r is Ok ==> final(storage).fsv() == removed_at(old(storage).fsv(), self.node, path@), // [C02,C05,C06,C08]
        tree(final(storage).fsv()), // [C06,C08]
        resolve(old(storage).fsv().entries, self.node, path@) is Err ==> r is Err && r->Err_0 == resolve(old(storage).fsv().entries, self.node, path@)->Err_0, // [C07]
@@ hint Dir::remove_dir entry
    let ghost v = storage.fsv();
    proof {
        storage.lemma_sane();
        lemma_tree_x(v, target(v, self.node, path@));
        if can_unlink(v, node_refcount@, self.node, path@, Some(true), false) {
            lemma_leads(v, self.node, path@, 0);
            assert(node_ok(v, target(v, self.node, path@), 0, 0));
            lemma_removed_at(v, self.node, path@);
        }
    }
@@ fn Dir::create_file [C06,C07,C17,C19,C20]
    requires old(storage).wf(), tree(old(storage).fsv()), room(old(storage).fsv()), is_dir_node(old(storage).fsv(), self.node),
        old(names_cache).wf(), coherent(old(names_cache).map(), old(storage).fsv().entries),
        parts_of(path@) is Ok ==> parts_of(path@)->Ok_0.len() < 0x1_0000_0000,
    ensures final(storage).wf(), final(names_cache).wf(), coherent(final(names_cache).map(), final(storage).fsv().entries), // [C07,C14]
        r is Ok <==> can_create(old(storage).fsv(), self.node, path@), // [C17,C20]
        r is Err ==> final(storage).fsv() == old(storage).fsv() && r->Err_0 == create_error(old(storage).fsv(), self.node, path@), // [C17,C20]
        r is Ok ==> created(old(storage).fsv(), final(storage).fsv(), self.node, path@, FileType::RegularFile, ctime, r->Ok_0.node), // [C02,C06,C07,C19]
        r is Ok ==> r->Ok_0.stat == stat, // [C11]
        r is Ok ==> r->Ok_0.cursor == 0, // [C10]
@@ hint Dir::create_file entry
    let ghost v = storage.fsv(); let ghost a = parts_of(path@)->Ok_0;
    proof { storage.lemma_sane(); if parts_of(path@) is Err { lemma_refused_path(path@); } }
@@ hint Dir::create_file before "names_cache.add($x:any);"
    let ghost w = storage.fsv(); let ghost c0 = names_cache.map();
    proof { storage.lemma_sane(); lemma_more_coherent(c0, v.entries, w.entries); }
@@ hint Dir::create_file after "names_cache.add($x:any);"
    proof { assert(created(v, w, self.node, path@, FileType::RegularFile, ctime, node)); lemma_coherent_add(c0, names_cache.map(), w.entries, (self.node, path@), node); }
@@ fn Dir::remove_file [C05,C06,C08,C12,C20]
    requires old(storage).wf(), tree(old(storage).fsv()), old(names_cache).wf(), coherent(old(names_cache).map(), old(storage).fsv().entries),
    ensures final(storage).wf(), final(names_cache).wf(), coherent(final(names_cache).map(), final(storage).fsv().entries), // [C07,C14]
        r is Ok <==> can_unlink(old(storage).fsv(), node_refcount@, self.node, path@, Some(false), false), // [C12]
        r is Err ==> final(storage).fsv() == old(storage).fsv(), // [C12,C20]
        r is Ok ==> final(storage).fsv() == removed_at(old(storage).fsv(), self.node, path@), // [C02,C05,C06,C08]
        tree(final(storage).fsv()), // [C06,C08]
        resolve(old(storage).fsv().entries, self.node, path@) is Err ==> r is Err && r->Err_0 == resolve(old(storage).fsv().entries, self.node, path@)->Err_0, // [C07]
@@ hint Dir::remove_file entry
    let ghost v = storage.fsv();
    proof {
        storage.lemma_sane();
        lemma_tree_x(v, target(v, self.node, path@));
        if can_unlink(v, node_refcount@, self.node, path@, Some(false), false) {
            lemma_leads(v, self.node, path@, 0);
            assert(node_ok(v, target(v, self.node, path@), 0, 0));
            lemma_removed_at(v, self.node, path@);
        }
    }
@@ fn Dir::get_entry [C16]
    requires storage.wf(),
    ensures
        storage.fsv().entries.dom().contains((self.node, index)) ==> r == Ok::<DirEntry, Error>(storage.fsv().entries[(self.node, index)]), // [C16]
        !storage.fsv().entries.dom().contains((self.node, index)) ==> r == Err::<DirEntry, Error>(Error::NoSuchFileOrDirectory), // [C16]
