// ------------------------------------------------------------------------------------------------
// Contracts assumed of the crate's dependencies (trusted): ic-stable-structures, ic-cdk, the Rust
// standard library. Nothing in this file comes from /repo.
// ------------------------------------------------------------------------------------------------
pub mod shim {
    use vstd::prelude::*;
    pub use vstd::std_specs::cmp::PartialEqSpecImpl;
    pub use vstd::std_specs::cmp::PartialEqSpec;
    pub use vstd::utf8::encode_utf8;
    pub use vstd::string::*;

    verus! {

    // ---------------------------------------------------------------- integers, options
    pub open spec fn div_up(a: int, b: int) -> int { (a + b - 1) / b }

    pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64)
        requires b != 0,
        ensures r as int == div_up(a as int, b as int),
    ;

    pub assume_specification[ i64::unsigned_abs ](a: i64) -> (r: u64)
        ensures r as int == (if a < 0 { -(a as int) } else { a as int }),
    ;

    pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
        ensures r == (match o { Some(x) => Some(*x), None => None }),
    ;

    /// `o.cloned()` of records
    #[verifier::external_body]
    pub fn opt_cloned<T: Clone>(o: Option<&T>) -> (r: Option<T>)
        ensures r == (match o { Some(x) => Some(*x), None => None }),
    {
        unimplemented!()
    }

    pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
        ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]),
    ;

    /// stands for `std::borrow::Cow<'_, [u8]>`
    pub enum Cow<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
    impl<'a> Cow<'a> {
        pub open spec fn v(&self) -> Seq<u8> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(w) => w@ } }
        pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { match self { Cow::Borrowed(s) => s, Cow::Owned(w) => w.as_slice() } }
    }
    /// `s.try_into().unwrap()`
    #[verifier::external_body]
    pub fn to_array<const N: usize>(s: &[u8]) -> (r: [u8; N])
        requires s@.len() == N,
        ensures r@ == s@,
    {
        unimplemented!()
    }

    /// a record's stored form; different records have different ones (assumed of serde and ciborium)
    pub trait Enc: Sized {
        spec fn enc(&self) -> Seq<u8>;
    }
    impl<T: Enc> Enc for &T {
        open spec fn enc(&self) -> Seq<u8> { (**self).enc() }
    }
    #[derive(Debug)]
    pub struct EncError;
    /// stands for `ciborium::ser::into_writer` to a vector
    #[verifier::external_body]
    pub fn into_writer<T: Enc>(v: &T, w: &mut Vec<u8>) -> (r: Result<(), EncError>)
        ensures r is Ok, final(w)@ == old(w)@ + v.enc(),
    {
        unimplemented!()
    }
    /// stands for `ciborium::de::from_reader` of bytes
    #[verifier::external_body]
    pub fn from_reader<T: Enc>(b: &[u8]) -> (r: Result<T, EncError>)
        ensures forall|x: T| b@ == #[trigger] x.enc() ==> r == Ok::<T, EncError>(x),
    {
        unimplemented!()
    }

    /// true; where it is mentioned, the verifier knows that the values can be copied (as `[x; N]` does)
    pub open spec fn copied<T: Copy>() -> bool { true }

    /// stands for a value nothing is known of
    #[verifier::external_body]
    pub fn anything<T>() -> (r: T) {
        unimplemented!()
    }

    // ---------------------------------------------------------------- visitors
    /// stands for the visitor of `with_direntries`: it notes what it is called with, and decides when to stop
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Visitor<T> { t: std::marker::PhantomData<T> }
    impl<T> Visitor<T> {
        /// what it was called with so far
        pub uninterp spec fn seen(&self) -> Seq<(u32, T)>;
        /// it has asked to stop
        pub uninterp spec fn stopped(&self) -> bool;
        /// it never stops
        pub uninterp spec fn eager(&self) -> bool;
        #[verifier::external_body]
        pub fn call(&mut self, i: &u32, e: &T) -> (r: bool)
            requires !old(self).stopped(),
            ensures final(self).seen() == old(self).seen().push((*i, *e)), r == !final(self).stopped(),
                final(self).eager() == old(self).eager(), final(self).eager() ==> r,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn new() -> (r: Self)
            ensures r.seen() == Seq::<(u32, T)>::empty(), !r.stopped(), r.eager(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn into_vec(self) -> (r: Vec<(u32, T)>)
            ensures r@ == self.seen(),
        { unimplemented!() }
    }

    // ---------------------------------------------------------------- byte slices
    /// no object is larger than isize::MAX bytes
    pub broadcast axiom fn axiom_slice_len(s: &[u8])
        ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff_ffff,
    ;

    /// `buf.iter_mut().for_each(|m| *m = 0)`
    #[verifier::external_body]
    pub fn fill_zero(buf: &mut [u8])
        ensures
            final(buf)@.len() == old(buf)@.len(),
            forall|i: int| 0 <= i < old(buf)@.len() ==> final(buf)@[i] == 0,
    {
        unimplemented!()
    }

    /// `a == b` on byte slices
    #[verifier::external_body]
    pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
        ensures r == (a@ == b@),
    {
        unimplemented!()
    }

    /// the order of byte strings
    pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool {
        exists|i: int| 0 <= i <= a.len() && i <= b.len() && (forall|j: int| 0 <= j < i ==> a[j] == b[j])
            && i < b.len() && (i < a.len() ==> (#[trigger] a[i]) < b[i])
    }

    /// `a.cmp(b)` on byte slices
    #[verifier::external_body]
    pub fn bytes_cmp(a: &[u8], b: &[u8]) -> (r: core::cmp::Ordering)
        ensures
            r == core::cmp::Ordering::Equal <==> a@ == b@,
            r == core::cmp::Ordering::Less <==> lex_lt(a@, b@),
            r == core::cmp::Ordering::Greater <==> lex_lt(b@, a@),
    {
        unimplemented!()
    }

    pub open spec fn splice(m: Seq<u8>, off: int, s: Seq<u8>) -> Seq<u8> {
        Seq::new(m.len(), |i: int| if off <= i < off + s.len() { s[i - off] } else { m[i] })
    }

    // ---------------------------------------------------------------- strings
    pub assume_specification [ std::string::String::as_bytes ](s: &std::string::String) -> (r: &[u8])
        ensures r@ == encode_utf8(s@),
    ;

    /// `unsafe { std::str::from_utf8_unchecked(b) }.to_string()`
    #[verifier::external_body]
    pub fn utf8_string(b: &[u8]) -> (r: String)
        requires exists|s: Seq<char>| #[trigger] encode_utf8(s) == b@,
        ensures encode_utf8(r@) == b@,
    {
        unimplemented!()
    }

    /// the pieces of `s` between the slashes
    pub open spec fn split_at_slash(s: Seq<char>) -> Seq<Seq<char>>
        decreases s.len(),
    {
        if s.len() == 0 {
            seq![Seq::empty()]
        } else {
            let r = split_at_slash(s.drop_last());
            if s.last() == '/' { r.push(Seq::empty()) } else { r.drop_last().push(r.last().push(s.last())) }
        }
    }

    /// `s.split('/')`
    #[verifier::external_body]
    pub fn str_split_slash<'a>(s: &'a str) -> (r: Vec<&'a str>)
        ensures
            r@.len() == split_at_slash(s@).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_at_slash(s@)[i],
    {
        unimplemented!()
    }

    /// `s.starts_with("/")`
    #[verifier::external_body]
    pub fn str_starts_with_slash(s: &str) -> (r: bool)
        ensures r == (s@.len() > 0 && s@[0] == '/'),
    {
        unimplemented!()
    }

    /// `s.len()`
    #[verifier::external_body]
    pub fn str_byte_len(s: &str) -> (r: usize)
        ensures r == encode_utf8(s@).len(),
    {
        unimplemented!()
    }

    // ---------------------------------------------------------------- raw bytes of an object
    /// the bytes that hold `t` in memory (fixed layout of T): what read_obj / write_obj transfer
    pub uninterp spec fn raw_bytes<T>(t: T) -> Seq<u8>;
    pub uninterp spec fn type_size<T>() -> nat;
    pub uninterp spec fn raw_decode<T>(b: Seq<u8>) -> T;

    pub broadcast axiom fn axiom_obj_roundtrip<T>(t: T)
        ensures
            (#[trigger] raw_bytes(t)).len() == type_size::<T>(),
            raw_decode::<T>(raw_bytes(t)) == t,
    ;

    pub broadcast axiom fn axiom_obj_size_u64()
        ensures #[trigger] type_size::<u64>() == 8,
    ;

    /// `std::mem::size_of::<T>()`
    #[verifier::external_body]
    pub fn size_of_obj<T>() -> (r: usize)
        ensures r as nat == type_size::<T>(),
    {
        unimplemented!()
    }

    /// `unsafe { std::slice::from_raw_parts(obj as *const T as *const u8, obj_size) }`
    #[verifier::external_body]
    pub fn obj_as_bytes<T>(obj: &T) -> (r: &[u8])
        ensures r@ == raw_bytes(*obj),
    {
        unimplemented!()
    }

    /// `unsafe { std::slice::from_raw_parts_mut(obj as *mut T as *mut u8, obj_size) }`
    #[verifier::external_body]
    pub fn obj_as_bytes_mut<T>(obj: &mut T) -> (r: &mut [u8])
        ensures
            r@.len() == type_size::<T>(),
            *final(obj) == raw_decode::<T>(final(r)@),
    {
        unimplemented!()
    }

    /// `x.to_le_bytes()` of a u64 (the layout of u64 in memory is little endian on every supported platform)
    #[verifier::external_body]
    pub fn u64_le_bytes(x: u64) -> (r: [u8; 8])
        ensures r@ == raw_bytes(x),
    {
        unimplemented!()
    }

    // ---------------------------------------------------------------- buffers given by pointer and length
    /// the bytes a pointer and length stand for (the caller's promise: a valid buffer)
    pub uninterp spec fn src_view(b: crate::runtime::types::SrcBuf) -> Seq<u8>;
    pub open spec fn src_views(s: Seq<crate::runtime::types::SrcBuf>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| src_view(s[i])) }
    /// `unsafe { std::slice::from_raw_parts(buf.buf, buf.len) }`
    #[verifier::external_body]
    pub fn src_bytes<'a>(b: &'a crate::runtime::types::SrcBuf) -> (r: &'a [u8])
        ensures r@ == src_view(*b),
    { unimplemented!() }
    /// `SrcBuf { buf: src.as_ptr(), len: src.len() }`
    #[verifier::external_body]
    pub fn src_buf(s: &[u8]) -> (r: crate::runtime::types::SrcBuf)
        ensures src_view(r) == s@,
    { unimplemented!() }
    /// stands for a slice of `DstBuf` and the memory its pointers refer to (valid, pairwise disjoint buffers)
    #[verifier::external_body]
    pub struct DstBufs { b: u8 }
    impl DstBufs {
        pub uninterp spec fn view(&self) -> Seq<Seq<u8>>;
        #[verifier::external_body]
        pub fn count(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        /// `unsafe { std::slice::from_raw_parts_mut(buf.buf, buf.len) }` of the i-th element
        #[verifier::external_body]
        pub fn slice_mut(&mut self, i: usize) -> (r: &mut [u8])
            requires i < old(self)@.len(),
            ensures r@ == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, final(r)@),
        { unimplemented!() }
    }

    /// `filename.strip_prefix('/').unwrap_or(filename)`
    pub open spec fn stripped(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '/' { s.skip(1) } else { s } }
    #[verifier::external_body]
    pub fn str_strip_slash<'a>(s: &'a str) -> (r: &'a str)
        ensures r@ == stripped(s@),
    { unimplemented!() }

    // ---------------------------------------------------------------- keys of maps
    /// the abstract value of a key: two keys are the same key of a map if their abstract values are equal
    pub trait Key: Sized {
        type KV;
        spec fn kv(&self) -> Self::KV;
    }
    impl Key for u64 { type KV = u64; open spec fn kv(&self) -> u64 { *self } }
    impl Key for u32 { type KV = u32; open spec fn kv(&self) -> u32 { *self } }
    impl Key for (u64, u32) { type KV = (u64, u32); open spec fn kv(&self) -> (u64, u32) { *self } }
    impl Key for (u64, String) { type KV = (u64, Seq<char>); open spec fn kv(&self) -> (u64, Seq<char>) { (self.0, self.1@) } }

    pub open spec fn key_lt(a: (u64, u32), b: (u64, u32)) -> bool {
        a.0 < b.0 || (a.0 == b.0 && a.1 < b.1)
    }

    /// `s` lists exactly the entries of `m` with lo <= key < hi, in increasing order of the keys
    pub open spec fn is_range<V>(s: Seq<((u64, u32), V)>, m: Map<(u64, u32), V>, lo: (u64, u32), hi: (u64, u32)) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> key_lt((#[trigger] s[i]).0, (#[trigger] s[j]).0)
        &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
                && !key_lt(s[i].0, lo) && key_lt(s[i].0, hi)
        &&& forall|k: (u64, u32)| #[trigger] m.dom().contains(k) && !key_lt(k, lo) && key_lt(k, hi)
                ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    }

    pub open spec fn is_range_incl<V>(s: Seq<((u64, u32), V)>, m: Map<(u64, u32), V>, lo: (u64, u32), hi: (u64, u32)) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> key_lt((#[trigger] s[i]).0, (#[trigger] s[j]).0)
        &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
                && !key_lt(s[i].0, lo) && !key_lt(hi, s[i].0)
        &&& forall|k: (u64, u32)| #[trigger] m.dom().contains(k) && !key_lt(k, lo) && !key_lt(hi, k)
                ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    }

    pub open spec fn is_keys_range(s: Seq<(u64, u32)>, d: Set<(u64, u32)>, lo: (u64, u32), hi: (u64, u32)) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> key_lt(#[trigger] s[i], #[trigger] s[j])
        &&& forall|i: int| 0 <= i < s.len() ==> d.contains(#[trigger] s[i]) && !key_lt(s[i], lo) && key_lt(s[i], hi)
        &&& forall|k: (u64, u32)| #[trigger] d.contains(k) && !key_lt(k, lo) && key_lt(k, hi)
                ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k
    }

    // ---------------------------------------------------------------- iteration over a vector by value
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct VecIter<T> { v: std::marker::PhantomData<T> }

    impl<T> VecIter<T> {
        pub uninterp spec fn seq(&self) -> Seq<T>;
        pub uninterp spec fn pos(&self) -> int;

        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            requires 0 <= old(self).pos() <= old(self).seq().len(),
            ensures
                final(self).seq() == old(self).seq(),
                old(self).pos() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
                old(self).pos() == old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
        {
            unimplemented!()
        }
    }

    /// `v.into_iter()` of a vector
    #[verifier::external_body]
    pub fn vec_iter<T>(v: Vec<T>) -> (r: VecIter<T>)
        ensures r.seq() == v@, r.pos() == 0,
    {
        unimplemented!()
    }

    /// `v.retain(|value| *value != x)` of a vector of descriptors
    #[verifier::external_body]
    pub fn vec_remove_all(v: &mut Vec<u32>, x: u32)
        ensures
            final(v)@ == old(v)@.filter(|y: u32| y != x),
            forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] != x && old(v)@.contains(final(v)@[i]),
            forall|y: u32| y != x && #[trigger] old(v)@.contains(y) ==> final(v)@.contains(y),
    {
        unimplemented!()
    }

    pub mod collections {
        use vstd::prelude::*;
        use super::*;
        verus! {

        macro_rules! std_map { ($N:ident) => { verus! {
            #[verifier::external_body]
            #[verifier::accept_recursive_types(K)]
            #[verifier::accept_recursive_types(V)]
            pub struct $N<K: Key, V> { k: std::marker::PhantomData<(K, V)> }

            impl<K: Key, V> View for $N<K, V> {
                type V = Map<K::KV, V>;
                uninterp spec fn view(&self) -> Map<K::KV, V>;
            }

            impl<K: Key, V> $N<K, V> {
                #[verifier::external_body]
                pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }

                #[verifier::external_body]
                pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }

                #[verifier::external_body]
                pub fn default() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }

                #[verifier::external_body]
                pub fn len(&self) -> (r: usize) ensures r as nat == self@.dom().len(), r <= usize::MAX / 2 { unimplemented!() }

                #[verifier::external_body]
                pub fn clear(&mut self) ensures final(self)@ == Map::<K::KV, V>::empty() { unimplemented!() }

                #[verifier::external_body]
                pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }

                #[verifier::external_body]
                pub fn get(&self, k: &K) -> (r: Option<&V>)
                    ensures r == (if self@.dom().contains(k.kv()) { Some(&self@[k.kv()]) } else { None::<&V> })
                { unimplemented!() }

                #[verifier::external_body]
                pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
                    ensures
                        !old(self)@.dom().contains(k.kv()) ==> r is None && *final(self) == *old(self),
                        old(self)@.dom().contains(k.kv()) ==> r is Some && *r->0 == old(self)@[k.kv()]
                            && final(self)@ == old(self)@.insert(k.kv(), *final(r->0)),
                { unimplemented!() }

                #[verifier::external_body]
                pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
                    ensures
                        final(self)@ == old(self)@.insert(k.kv(), v),
                        r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None::<V> }),
                { unimplemented!() }

                #[verifier::external_body]
                pub fn remove(&mut self, k: &K) -> (r: Option<V>)
                    ensures
                        final(self)@ == old(self)@.remove(k.kv()),
                        r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None::<V> }),
                { unimplemented!() }
            }
        } } }
        std_map!(BTreeMap);
        std_map!(HashMap);

        /// `Default::default()` of a map
        pub trait FreshMap: Sized {
            spec fn is_fresh(&self) -> bool;
            fn fresh() -> (r: Self) ensures r.is_fresh();
        }
        impl<K: Key, V> FreshMap for BTreeMap<K, V> {
            open spec fn is_fresh(&self) -> bool { self@ == Map::<K::KV, V>::empty() }
            fn fresh() -> (r: Self) { BTreeMap::new() }
        }
        impl<K: Key, V> FreshMap for HashMap<K, V> {
            open spec fn is_fresh(&self) -> bool { self@ == Map::<K::KV, V>::empty() }
            fn fresh() -> (r: Self) { HashMap::new() }
        }

        impl<K: Key> BTreeMap<K, crate::storage::types::FileChunk> {
            /// `self.entry(k).or_default()` of a map of chunks
            #[verifier::external_body]
            pub fn entry_or_default(&mut self, k: K) -> (r: &mut crate::storage::types::FileChunk)
                ensures
                    old(self)@.dom().contains(k.kv()) ==> *r == old(self)@[k.kv()],
                    !old(self)@.dom().contains(k.kv()) ==> r.bytes@ == Seq::new(4096, |i: int| 0u8),
                    final(self)@ == old(self)@.insert(k.kv(), *final(r)),
            { unimplemented!() }
        }

        #[verifier::external_body]
        #[verifier::accept_recursive_types(V)]
        pub struct StdRange<'a, V> { v: std::marker::PhantomData<&'a V> }
        impl<'a, V> StdRange<'a, V> {
            pub uninterp spec fn seq(&self) -> Seq<((u64, u32), V)>;
            pub uninterp spec fn pos(&self) -> int;

            #[verifier::external_body]
            pub fn next(&mut self) -> (r: Option<(&'a (u64, u32), &'a V)>)
                requires 0 <= old(self).pos() <= old(self).seq().len(),
                ensures
                    final(self).seq() == old(self).seq(),
                    old(self).pos() < old(self).seq().len() ==> r is Some && *(r->0).0 == old(self).seq()[old(self).pos()].0
                        && *(r->0).1 == old(self).seq()[old(self).pos()].1 && final(self).pos() == old(self).pos() + 1,
                    old(self).pos() == old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
            { unimplemented!() }

            /// only used on a fresh iterator
            #[verifier::external_body]
            pub fn next_back(&mut self) -> (r: Option<(&'a (u64, u32), &'a V)>)
                requires old(self).pos() == 0,
                ensures
                    old(self).seq().len() > 0 ==> r is Some && *(r->0).0 == old(self).seq().last().0
                        && *(r->0).1 == old(self).seq().last().1,
                    old(self).seq().len() == 0 ==> r is None,
            { unimplemented!() }
        }
        impl<V> BTreeMap<(u64, u32), V> {
            #[verifier::external_body]
            pub fn range<'a>(&'a self, r: core::ops::Range<(u64, u32)>) -> (it: StdRange<'a, V>)
                ensures is_range(it.seq(), self@, r.start, r.end), it.pos() == 0,
            { unimplemented!() }

            /// `range(a..=b)`
            #[verifier::external_body]
            pub fn range_incl<'a>(&'a self, a: (u64, u32), b: (u64, u32)) -> (it: StdRange<'a, V>)
                ensures is_range_incl(it.seq(), self@, a, b), it.pos() == 0,
            { unimplemented!() }
        }

        impl<K: Key> BTreeMap<K, usize> {
            /// `self.entry(k).or_default()` of a map of counters
            #[verifier::external_body]
            pub fn entry_or_default(&mut self, k: K) -> (r: &mut usize)
                ensures
                    *r == (if old(self)@.dom().contains(k.kv()) { old(self)@[k.kv()] } else { 0 }),
                    final(self)@ == old(self)@.insert(k.kv(), *final(r)),
            { unimplemented!() }
        }

        }
    }

    }
}

pub mod ic_cdk {
    pub mod stable {
        use vstd::prelude::*;
        verus! {
        pub const WASM_PAGE_SIZE_IN_BYTES: u64 = 65536;
        }
    }
}

pub mod ic_stable_structures {
    use vstd::prelude::*;
    use crate::shim::*;
    pub use map::BTreeMap; pub use map::stored_map; pub use map::axiom_fresh_map;
    pub use cell::Cell; pub use cell::stored_cell;
    verus! {

    pub trait Memory {
        spec fn mem(&self) -> Seq<u8>;

        /// no memory reaches 2^62 bytes
        fn size(&self) -> (r: u64)
            ensures r as int * 65536 == self.mem().len(), self.mem().len() <= 0x4000_0000_0000_0000;

        /// growing succeeds (running out of memory is outside of the contracts)
        fn grow(&mut self, pages: u64) -> (r: i64)
            ensures
                r >= 0,
                final(self).mem().len() == old(self).mem().len() + pages as int * 65536,
                forall|i: int| 0 <= i < old(self).mem().len() ==> final(self).mem()[i] == old(self).mem()[i];

        fn read(&self, offset: u64, dst: &mut [u8])
            requires offset + old(dst)@.len() <= self.mem().len(),
            ensures
                final(dst)@.len() == old(dst)@.len(),
                final(dst)@ == self.mem().subrange(offset as int, offset + old(dst)@.len());

        fn write(&mut self, offset: u64, src: &[u8])
            requires offset + src@.len() <= old(self).mem().len(),
            ensures final(self).mem() == splice(old(self).mem(), offset as int, src@);
    }

    pub mod memory_manager {
        use vstd::prelude::*;
        use super::*;
        verus! {
        #[verifier::external_body]
        #[verifier::accept_recursive_types(M)]
        pub struct VirtualMemory<M: Memory> { m: std::marker::PhantomData<M> }

        #[verifier::external_body]
        #[verifier::accept_recursive_types(M)]
        pub struct MemoryManager<M: Memory> { m: std::marker::PhantomData<M> }
        #[verifier::external_body]
        pub struct MemoryId { m: u8 }
        impl MemoryId {
            pub uninterp spec fn id(&self) -> u8;
            #[verifier::external_body]
            pub fn new(id: u8) -> (r: Self) requires id < 255 ensures r.id() == id { unimplemented!() }
        }
        impl<M: Memory> MemoryManager<M> {
            /// the memory with the given id
            pub uninterp spec fn nth(&self, id: u8) -> VirtualMemory<M>;
            #[verifier::external_body]
            pub fn get(&self, id: MemoryId) -> (r: VirtualMemory<M>) ensures r == self.nth(id.id()) { unimplemented!() }
            #[verifier::external_body]
            pub fn init(m: M) -> (r: Self) ensures r == managed(m) { unimplemented!() }
        }

        /// the memory manager that a memory holds
        pub uninterp spec fn managed<M: Memory>(m: M) -> MemoryManager<M>;

        /// no memory of the file system ever reaches 2^62 bytes
        pub broadcast axiom fn axiom_memory_bound<M: Memory>(m: VirtualMemory<M>)
            ensures #[trigger] m.mem().len() <= 0x4000_0000_0000_0000,
        ;

        impl<M: Memory> Memory for VirtualMemory<M> {
            uninterp spec fn mem(&self) -> Seq<u8>;
            #[verifier::external_body]
            fn size(&self) -> (r: u64) { unimplemented!() }
            #[verifier::external_body]
            fn grow(&mut self, pages: u64) -> (r: i64) { unimplemented!() }
            #[verifier::external_body]
            fn read(&self, offset: u64, dst: &mut [u8]) { unimplemented!() }
            #[verifier::external_body]
            fn write(&mut self, offset: u64, src: &[u8]) { unimplemented!() }
        }
        }
    }

    pub mod map {
        use vstd::prelude::*;
        use super::*;
        use super::memory_manager::VirtualMemory;
        verus! {
        #[verifier::external_body]
        #[verifier::accept_recursive_types(K)]
        #[verifier::accept_recursive_types(V)]
        #[verifier::accept_recursive_types(M)]
        pub struct BTreeMap<K: Key, V, M: Memory> { k: std::marker::PhantomData<(K, V, M)> }

        impl<K: Key, V, M: Memory> View for BTreeMap<K, V, M> {
            type V = Map<K::KV, V>;
            uninterp spec fn view(&self) -> Map<K::KV, V>;
        }

        /// the map a memory holds
        pub uninterp spec fn stored_map<K: Key, V, M: Memory>(m: VirtualMemory<M>) -> Map<K::KV, V>;
        /// a fresh memory holds an empty map
        pub broadcast axiom fn axiom_fresh_map<K: Key, V, M: Memory>(m: VirtualMemory<M>)
            ensures m.mem().len() == 0 ==> #[trigger] stored_map::<K, V, M>(m) == Map::<K::KV, V>::empty();

        impl<K: Key, V, M: Memory> BTreeMap<K, V, VirtualMemory<M>> {
            #[verifier::external_body]
            pub fn init(m: VirtualMemory<M>) -> (r: Self) ensures r@ == stored_map::<K, V, M>(m) { unimplemented!() }
        }

        impl<K: Key, V, M: Memory> BTreeMap<K, V, M> {
            #[verifier::external_body]
            pub fn get(&self, k: &K) -> (r: Option<V>)
                ensures r == (if self@.dom().contains(k.kv()) { Some(self@[k.kv()]) } else { None::<V> })
            { unimplemented!() }

            #[verifier::external_body]
            pub fn contains_key(&self, k: &K) -> (r: bool)
                ensures r == self@.dom().contains(k.kv())
            { unimplemented!() }

            #[verifier::external_body]
            pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
                ensures
                    final(self)@ == old(self)@.insert(k.kv(), v),
                    r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None::<V> }),
            { unimplemented!() }

            #[verifier::external_body]
            pub fn remove(&mut self, k: &K) -> (r: Option<V>)
                ensures
                    final(self)@ == old(self)@.remove(k.kv()),
                    r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None::<V> }),
            { unimplemented!() }
        }

        /// one entry met by an iteration
        #[verifier::external_body]
        #[verifier::accept_recursive_types(V)]
        pub struct LazyEntry<V> { v: std::marker::PhantomData<V> }
        impl<V> LazyEntry<V> {
            pub uninterp spec fn k(&self) -> (u64, u32);
            pub uninterp spec fn v(&self) -> V;
            #[verifier::external_body]
            pub fn key(&self) -> (r: &(u64, u32)) ensures *r == self.k() { unimplemented!() }
            #[verifier::external_body]
            pub fn value(&self) -> (r: V) ensures r == self.v() { unimplemented!() }
        }

        #[verifier::external_body]
        #[verifier::accept_recursive_types(V)]
        pub struct RangeIter<V> { v: std::marker::PhantomData<V> }
        impl<V> RangeIter<V> {
            pub uninterp spec fn seq(&self) -> Seq<((u64, u32), V)>;
            /// the next position to be yielded from the front, and the end of the part not yielded from the back
            pub uninterp spec fn pos(&self) -> int;

            #[verifier::external_body]
            pub fn next(&mut self) -> (r: Option<LazyEntry<V>>)
                requires 0 <= old(self).pos() <= old(self).seq().len(),
                ensures
                    final(self).seq() == old(self).seq(),
                    old(self).pos() < old(self).seq().len() ==> r is Some && r->0.k() == old(self).seq()[old(self).pos()].0
                        && r->0.v() == old(self).seq()[old(self).pos()].1 && final(self).pos() == old(self).pos() + 1,
                    old(self).pos() == old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
            { unimplemented!() }

            /// only used on a fresh iterator
            #[verifier::external_body]
            pub fn next_back(&mut self) -> (r: Option<LazyEntry<V>>)
                requires old(self).pos() == 0,
                ensures
                    old(self).seq().len() > 0 ==> r is Some && r->0.k() == old(self).seq().last().0
                        && r->0.v() == old(self).seq().last().1,
                    old(self).seq().len() == 0 ==> r is None,
            { unimplemented!() }
        }

        #[verifier::external_body]
        pub struct KeysIter { v: u8 }
        impl KeysIter {
            pub uninterp spec fn keys(&self) -> Seq<(u64, u32)>;
            pub uninterp spec fn pos(&self) -> int;

            #[verifier::external_body]
            pub fn next(&mut self) -> (r: Option<(u64, u32)>)
                requires 0 <= old(self).pos() <= old(self).keys().len(),
                ensures
                    final(self).keys() == old(self).keys(),
                    old(self).pos() < old(self).keys().len() ==> r == Some(old(self).keys()[old(self).pos()])
                        && final(self).pos() == old(self).pos() + 1,
                    old(self).pos() == old(self).keys().len() ==> r is None && final(self).pos() == old(self).pos(),
            { unimplemented!() }
        }

        impl<V, M: Memory> BTreeMap<(u64, u32), V, M> {
            #[verifier::external_body]
            pub fn range(&self, r: core::ops::Range<(u64, u32)>) -> (it: RangeIter<V>)
                ensures is_range(it.seq(), self@, r.start, r.end), it.pos() == 0,
            { unimplemented!() }

            /// `range(a..=b)`
            #[verifier::external_body]
            pub fn range_incl(&self, a: (u64, u32), b: (u64, u32)) -> (it: RangeIter<V>)
                ensures is_range_incl(it.seq(), self@, a, b), it.pos() == 0,
            { unimplemented!() }

            #[verifier::external_body]
            pub fn keys_range(&self, r: core::ops::Range<(u64, u32)>) -> (it: KeysIter)
                ensures is_keys_range(it.keys(), self@.dom(), r.start, r.end), it.pos() == 0,
            { unimplemented!() }
        }
        }
    }

    pub mod cell {
        use vstd::prelude::*;
        use super::*;
        use super::memory_manager::VirtualMemory;
        verus! {
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        #[verifier::accept_recursive_types(M)]
        pub struct Cell<T, M: Memory> { k: std::marker::PhantomData<(T, M)> }
        impl<T, M: Memory> View for Cell<T, M> {
            type V = T;
            uninterp spec fn view(&self) -> T;
        }
        /// the value a memory holds
        pub uninterp spec fn stored_cell<T, M: Memory>(m: VirtualMemory<M>) -> T;
        impl<T, M: Memory> Cell<T, VirtualMemory<M>> {
            #[verifier::external_body]
            pub fn init(m: VirtualMemory<M>, v: T) -> (r: Self)
                ensures r@ == (if m.mem().len() == 0 { v } else { stored_cell::<T, M>(m) })
            { unimplemented!() }
        }
        impl<T, M: Memory> Cell<T, M> {
            #[verifier::external_body]
            pub fn get(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
            #[verifier::external_body]
            pub fn set(&mut self, v: T) -> (r: T) ensures final(self)@ == v, r == old(self)@ { unimplemented!() }
        }
        }
    }
    }
}
