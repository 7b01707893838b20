@@ extra FilenameCache
    /// the node remembered for a (directory, name) pair
    pub open spec fn map(&self) -> Map<(u64, Seq<char>), u64> { self.nodes@ }
    pub open spec fn wf(&self) -> bool { self.nodes@.dom().len() <= 100 }
@@ const CACHE_CAPACITY
    ensures CACHE_CAPACITY == 100,
@@ fn FilenameCache::new [C07,C08]
    ensures r.wf(), r.map() == Map::<(u64, Seq<char>), u64>::empty(),
@@ fn FilenameCache::add [C07,C08]
    requires old(self).wf(),
    ensures final(self).wf(),
        // nothing is remembered but what was added and not cleared since
        forall|k: (u64, Seq<char>)| #[trigger] final(self).map().dom().contains(k) ==>
            (k == key.kv() && final(self).map()[k] == value) || (k != key.kv() && old(self).map().dom().contains(k) && final(self).map()[k] == old(self).map()[k]), // [C08]
@@ fn FilenameCache::clear [C07,C08]
    ensures final(self).wf(), final(self).map() == Map::<(u64, Seq<char>), u64>::empty(),
@@ fn FilenameCache::get [C07,C08]
    ensures r == (if self.map().dom().contains(key.kv()) { Some(self.map()[key.kv()]) } else { None::<u64> }),
