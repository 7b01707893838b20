@@ prelude
pub open spec fn node_of(e: FdEntry) -> u64 {
    match e { FdEntry::File(f) => f.node, FdEntry::Dir(d) => d.node }
}
pub open spec fn is_dir(e: FdEntry) -> bool { e is Dir }

/// the descriptors that are open on a node
pub open spec fn fds_on(t: Map<u32, FdEntry>, n: u64) -> Set<u32> {
    t.dom().filter(|fd: u32| node_of(t[fd]) == n)
}
/// the counters of open descriptors agree with the table
pub open spec fn counted(t: Map<u32, FdEntry>, c: Map<u64, usize>) -> bool {
    &&& forall|n: u64| #[trigger] c.dom().contains(n) <==> fds_on(t, n).len() > 0
    &&& forall|n: u64| #[trigger] c.dom().contains(n) ==> c[n] as nat == fds_on(t, n).len()
}
/// the counters agree, except that node `x` is counted `d` times more than there are descriptors on it
pub open spec fn counted_but(t: Map<u32, FdEntry>, c: Map<u64, usize>, x: u64, d: int) -> bool {
    &&& forall|n: u64| #[trigger] c.dom().contains(n) <==> fds_on(t, n).len() + (if n == x { d } else { 0 }) > 0
    &&& forall|n: u64| #[trigger] c.dom().contains(n) ==> c[n] as int == fds_on(t, n).len() + (if n == x { d } else { 0 })
}

pub proof fn lemma_fds_insert(t: Map<u32, FdEntry>, fd: u32, e: FdEntry)
    ensures
        !t.dom().contains(fd) ==> forall|n: u64| (#[trigger] fds_on(t.insert(fd, e), n)).len() == fds_on(t, n).len() + (if n == node_of(e) { 1int } else { 0 }),
        t.dom().contains(fd) ==> forall|n: u64| (#[trigger] fds_on(t.insert(fd, e), n)).len() == fds_on(t, n).len() + (if n == node_of(e) { 1int } else { 0 }) - (if n == node_of(t[fd]) { 1int } else { 0 }),
{
    assert forall|n: u64| true implies
        (#[trigger] fds_on(t.insert(fd, e), n)).len() == fds_on(t, n).len() + (if n == node_of(e) { 1int } else { 0 }) - (if t.dom().contains(fd) && n == node_of(t[fd]) { 1int } else { 0 }) by {
        let a = fds_on(t, n);
        let b = fds_on(t.insert(fd, e), n);
        if n == node_of(e) {
            assert(b =~= a.insert(fd));
        } else {
            assert(b =~= a.remove(fd));
        }
    }
}
pub proof fn lemma_fds_remove(t: Map<u32, FdEntry>, fd: u32)
    requires t.dom().contains(fd),
    ensures forall|n: u64| (#[trigger] fds_on(t.remove(fd), n)).len() == fds_on(t, n).len() - (if n == node_of(t[fd]) { 1int } else { 0 }),
{
    assert forall|n: u64| true implies (#[trigger] fds_on(t.remove(fd), n)).len() == fds_on(t, n).len() - (if n == node_of(t[fd]) { 1int } else { 0 }) by {
        if n == node_of(t[fd]) {
            assert(fds_on(t.remove(fd), n) =~= fds_on(t, n).remove(fd));
        } else {
            assert(fds_on(t.remove(fd), n) =~= fds_on(t, n));
        }
    }
}
pub proof fn lemma_fds_bound(t: Map<u32, FdEntry>, n: u64)
    ensures fds_on(t, n).len() <= t.dom().len(),
{
    vstd::set_lib::lemma_len_subset(fds_on(t, n), t.dom());
}
/// no number is lost: every number below `next` is in use, or waits to be used again
pub open spec fn covered(t: Map<u32, FdEntry>, free: Seq<u32>, next: u32) -> bool {
    forall|fd: u32| 4 <= fd < next ==> #[trigger] t.dom().contains(fd) || free.contains(fd)
}
pub proof fn lemma_popped(t: Map<u32, FdEntry>, a: Seq<u32>, b: Seq<u32>, next: u32)
    requires covered(t, a, next), a.len() > 0, b == a.drop_last(),
    ensures forall|fd: u32| 4 <= fd < next && fd != a.last() ==> #[trigger] t.dom().contains(fd) || b.contains(fd),
{
    assert forall|fd: u32| 4 <= fd < next && fd != a.last() implies #[trigger] t.dom().contains(fd) || b.contains(fd) by {
        if !t.dom().contains(fd) { let i = choose|i: int| 0 <= i < a.len() && a[i] == fd; assert(b[i] == fd); }
    }
}
/// descriptors `4..n` that are all in use are counted
pub proof fn lemma_all_used(t: Set<u32>, n: u32)
    requires forall|fd: u32| 4 <= fd < n ==> #[trigger] t.contains(fd), n >= 4,
    ensures t.len() >= n - 4,
    decreases n,
{
    if n > 4 {
        let last = (n - 1) as u32;
        assert forall|fd: u32| 4 <= fd < last implies #[trigger] t.remove(last).contains(fd) by { assert(t.contains(fd)); }
        lemma_all_used(t.remove(last), last);
        assert(t.contains(last));
    }
}
@@ extra FdTable
    pub open spec fn map(&self) -> Map<u32, FdEntry> { self.table@ }
    pub open spec fn wf(&self) -> bool {
        &&& counted(self.table@, self.node_refcount@)
        &&& self.next_fd >= FIRST_AVAILABLE_FD
        &&& forall|i: int| 0 <= i < self.free_fds@.len() ==> self.free_fds@[i] >= FIRST_AVAILABLE_FD
        &&& covered(self.table@, self.free_fds@, self.next_fd)
    }
    /// the same, but nothing is known of descriptor `x` if it is not in use
    pub open spec fn wf_but(&self, x: u32) -> bool {
        &&& counted(self.table@, self.node_refcount@)
        &&& self.next_fd >= FIRST_AVAILABLE_FD
        &&& forall|i: int| 0 <= i < self.free_fds@.len() ==> self.free_fds@[i] >= FIRST_AVAILABLE_FD
        &&& forall|fd: u32| 4 <= fd < self.next_fd && fd != x ==> #[trigger] self.table@.dom().contains(fd) || self.free_fds@.contains(fd)
    }
    /// fewer descriptors are open than the counters can hold
    pub open spec fn room(&self) -> bool { self.table@.dom().len() < 0xffff_ffff }
    /// fewer descriptors are open than there are numbers for
    pub open spec fn fd_left(&self) -> bool { self.table@.dom().len() < 0xffff_fff8 }
@@ fn FdTable::new [C09]
    ensures r.wf(), r.map() == Map::<u32, FdEntry>::empty(), r.next_fd == FIRST_AVAILABLE_FD, // [C09]
@@ hint FdTable::new entry
    proof { assert forall|n: u64| (#[trigger] fds_on(Map::<u32, FdEntry>::empty(), n)).len() == 0 by { assert(fds_on(Map::<u32, FdEntry>::empty(), n) =~= Set::<u32>::empty()); } }
@@ fn FdTable::node_refcount [C12]
    ensures r@ == self.node_refcount@,
@@ fn FdTable::update [C09,C12]
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), final(self).map() == old(self).map().insert(fd, entry), // [C09]
        final(self).next_fd == old(self).next_fd, final(self).free_fds == old(self).free_fds,
@@ fn FdTable::insert [C09,C12]
    requires old(self).wf_but(fd), old(self).room(),
    ensures final(self).wf(), // [C12]
        final(self).map() == old(self).map().insert(fd, entry), // [C09]
        r == (if old(self).map().dom().contains(fd) { Some(old(self).map()[fd]) } else { None::<FdEntry> }),
        final(self).next_fd == old(self).next_fd, final(self).free_fds == old(self).free_fds,
@@ hint FdTable::insert entry
    proof { lemma_fds_insert(self.table@, fd, entry); lemma_fds_bound(self.table@, node_of(entry)); }
@@ fn FdTable::get [C09]
    ensures r == (if self.map().dom().contains(fd) { Some(&self.map()[fd]) } else { None::<&FdEntry> }), // [C09]
@@ fn FdTable::open_root [C09]
    requires old(self).wf(), old(self).room(), !old(self).map().dom().contains(ROOT_FD),
    ensures final(self).wf(), r == ROOT_FD, final(self).map() == old(self).map().insert(r, entry), final(self).next_fd == old(self).next_fd,
@@ fn FdTable::open [C09,C12]
    requires old(self).wf(), old(self).fd_left(),
    ensures final(self).wf(), // [C12]
        r >= FIRST_AVAILABLE_FD, // [C09]
        !old(self).map().dom().contains(r), // [C09]
        final(self).map() == old(self).map().insert(r, entry), // [C09]
@@ rewrite FdTable::open
let $v:id = loop $b:tt;
=>
let mut loop_value: Fd = 0; loop $b let $v = loop_value;
@@ rewrite FdTable::open
break $v:id;
=>
loop_value = $v; break;
@@ loop FdTable::open 1
    invariant_except_break
        self.wf(),
    invariant
        self.table@ == old(self).table@, self.node_refcount@ == old(self).node_refcount@, self.fd_left(),
    ensures
        self.wf_but(loop_value), self.table@ == old(self).table@, self.node_refcount@ == old(self).node_refcount@, loop_value >= FIRST_AVAILABLE_FD, !self.table@.dom().contains(loop_value),
    decreases self.free_fds@.len() + (u32::MAX - self.next_fd),
@@ hint FdTable::open loop1:start
    let ghost was = self.free_fds@; let ghost next = self.next_fd;
    proof { if was.len() == 0 && next == u32::MAX { lemma_all_used(self.table@.dom(), next); } }
@@ hint FdTable::open before "if !self.table.contains_key($x:any) $b:tt"
    proof {
        if was.len() > 0 { lemma_popped(self.table@, was, self.free_fds@, next); }
    }
@@ fn FdTable::renumber [C09,C12]
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), // [C12]
        r is Err ==> final(self).map() == old(self).map(), // [C09]
        src == ROOT_FD || dst == ROOT_FD ==> r is Err, // [C09]
        src != dst && !old(self).map().dom().contains(src) ==> r is Err, // [C09]
        src != dst && old(self).map().dom().contains(src) && old(self).map().dom().contains(dst)
            && is_dir(old(self).map()[src]) != is_dir(old(self).map()[dst]) ==> r is Err, // [C09]
        r is Ok && src == dst ==> final(self).map() == old(self).map(), // [C09]
        r is Ok && src != dst ==> old(self).map().dom().contains(src)
            && final(self).map() == old(self).map().remove(src).insert(dst, old(self).map()[src]), // [C09]
        src != ROOT_FD && dst != ROOT_FD && src != dst && old(self).map().dom().contains(src)
            && (!old(self).map().dom().contains(dst) || is_dir(old(self).map()[src]) == is_dir(old(self).map()[dst])) ==> r is Ok, // [C09]
@@ rewrite FdTable::renumber
self.free_fds.retain(|$v:id| *$w:id != dst)
=>
vec_remove_all(&mut self.free_fds, dst)
@@ hint FdTable::renumber before "self.insert(dst, old_entry)"
    proof {
        let t = old(self).table@;
        assert(self.table@.dom().subset_of(t.dom()));
        vstd::set_lib::lemma_len_subset(self.table@.dom(), t.dom());
        assert(t.remove(src).remove(dst).insert(dst, t[src]) =~= t.remove(src).insert(dst, t[src]));
    }
@@ fn FdTable::close [C09,C12]
    requires old(self).wf(),
    ensures final(self).wf(), // [C12]
        fd == ROOT_FD || !old(self).map().dom().contains(fd) ==> r is None && final(self).map() == old(self).map(), // [C09]
        fd != ROOT_FD && old(self).map().dom().contains(fd) ==> r == Some(old(self).map()[fd]) && final(self).map() == old(self).map().remove(fd), // [C09]
        final(self).next_fd == old(self).next_fd,
@@ hint FdTable::close entry
    proof { if self.table@.dom().contains(fd) { lemma_fds_remove(self.table@, fd); } else { assert(self.table@.remove(fd) =~= self.table@); } }
@@ hint FdTable::close before "self.dec_node_refcount(&entry);"
    proof {
        assert forall|x: u32| 4 <= x < self.next_fd implies #[trigger] self.table@.dom().contains(x) || self.free_fds@.contains(x) by {
            if x == fd { assert(self.free_fds@[self.free_fds@.len() - 1] == x); }
            else if !self.table@.dom().contains(x) {
                assert(!old(self).table@.dom().contains(x));
                let i = choose|i: int| 0 <= i < old(self).free_fds@.len() && old(self).free_fds@[i] == x;
                assert(self.free_fds@[i] == x);
            }
        }
    }
@@ rewrite FdTable::inc_node_refcount
self.node_refcount.entry($n).or_default()
=>
self.node_refcount.entry_or_default($n)
@@ fn FdTable::inc_node_refcount [C12]
    requires
        counted(old(self).table@, old(self).node_refcount@), old(self).room(),
    ensures final(self).table == old(self).table, final(self).next_fd == old(self).next_fd, final(self).free_fds == old(self).free_fds,
        counted_but(final(self).table@, final(self).node_refcount@, node_of(*entry), 1), // [C12]
@@ hint FdTable::inc_node_refcount entry
    proof { lemma_fds_bound(self.table@, node_of(*entry)); }
@@ fn FdTable::dec_node_refcount [C12]
    requires counted_but(old(self).table@, old(self).node_refcount@, node_of(*entry), 1),
    ensures final(self).table == old(self).table, final(self).next_fd == old(self).next_fd, final(self).free_fds == old(self).free_fds,
        counted(final(self).table@, final(self).node_refcount@), // [C12]
