@@ drop use ic_stable_structures -- serialization trait
@@ drop use serde -- serialization framework
@@ drop impl Eq@FileName -- marker
@@ drop impl Display@FileName -- formatting
@@ drop serialize_file_name -- serialization framework
@@ drop deserialize_file_name -- serialization framework
@@ prelude
use crate::shim::Key;
impl FileType {
    /// the number of a kind
    pub open spec fn code(self) -> u8 { match self { FileType::Directory => 3, FileType::RegularFile => 4, FileType::SymbolicLink => 7 } }
}
impl crate::shim::Enc for Header { uninterp spec fn enc(&self) -> Seq<u8>; }
impl crate::shim::Enc for Metadata { uninterp spec fn enc(&self) -> Seq<u8>; }
impl crate::shim::Enc for DirEntry { uninterp spec fn enc(&self) -> Seq<u8>; }
impl Key for FileName {
    type KV = Seq<u8>;
    open spec fn kv(&self) -> Seq<u8> { self.bytes@.take(self.length as int) }
}
impl Key for (u64, FileName) {
    type KV = (u64, Seq<u8>);
    open spec fn kv(&self) -> (u64, Seq<u8>) { (self.0, self.1.kv()) }
}
impl crate::shim::PartialEqSpecImpl for FileName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &FileName) -> bool { self.kv() == o.kv() }
}

/// a name is read back as it was stored
pub proof fn lemma_stored_name(a: FileName, b: FileName)
    requires seq![a.length] + a.bytes@ == seq![b.length] + b.bytes@,
    ensures a.length == b.length, a.bytes@ == b.bytes@, a.kv() == b.kv(),
{
    let s = seq![a.length] + a.bytes@; let t = seq![b.length] + b.bytes@;
    assert(s[0] == t[0]);
    assert forall|i: int| 0 <= i < 255 implies a.bytes@[i] == b.bytes@[i] by { assert(s[i + 1] == t[i + 1]); }
    assert(a.bytes@ =~= b.bytes@);
}
pub proof fn lemma_kv(a: &FileName)
    ensures a.kv().len() == a.length, forall|i: int| 0 <= i < a.length ==> a.kv()[i] == a.bytes@[i],
{}

/// comparing the common prefixes first, then the lengths, is the order of the names
pub proof fn lemma_cmp(a: &FileName, b: &FileName, m: int)
    requires m == (if a.length < b.length { a.length } else { b.length }),
    ensures ({
        let pa = a.bytes@.take(m); let pb = b.bytes@.take(m);
        &&& pa == pb && a.length == b.length ==> a.kv() == b.kv() && !lex_lt(a.kv(), b.kv()) && !lex_lt(b.kv(), a.kv())
        &&& pa == pb && a.length < b.length ==> lex_lt(a.kv(), b.kv()) && !lex_lt(b.kv(), a.kv()) && a.kv() != b.kv()
        &&& pa == pb && a.length > b.length ==> lex_lt(b.kv(), a.kv()) && !lex_lt(a.kv(), b.kv()) && a.kv() != b.kv()
        &&& lex_lt(pa, pb) ==> lex_lt(a.kv(), b.kv()) && !lex_lt(b.kv(), a.kv()) && a.kv() != b.kv()
        &&& lex_lt(pb, pa) ==> lex_lt(b.kv(), a.kv()) && !lex_lt(a.kv(), b.kv()) && a.kv() != b.kv()
    }),
{
    lemma_kv(a); lemma_kv(b);
    let pa = a.bytes@.take(m); let pb = b.bytes@.take(m);
    let ka = a.kv(); let kb = b.kv();
    assert(forall|i: int| 0 <= i < m ==> pa[i] == ka[i] && pb[i] == kb[i]);
    if pa == pb {
        assert(forall|i: int| 0 <= i < m ==> ka[i] == pa[i] && kb[i] == pa[i]);
        if a.length == b.length { assert(ka =~= kb); }
        if a.length < b.length { lemma_lex_intro(ka, kb, m); assert(ka.len() != kb.len()); lemma_lex_asym(ka, kb); }
        if a.length > b.length { lemma_lex_intro(kb, ka, m); assert(ka.len() != kb.len()); lemma_lex_asym(kb, ka); }
        lemma_lex_irrefl(ka);
    }
    if lex_lt(pa, pb) {
        let i = choose|i: int| 0 <= i <= pa.len() && i <= pb.len() && (forall|j: int| 0 <= j < i ==> pa[j] == pb[j])
            && i < pb.len() && (i < pa.len() ==> (#[trigger] pa[i]) < pb[i]);
        assert(forall|j: int| 0 <= j < i ==> ka[j] == kb[j]) by { assert(forall|j: int| 0 <= j < i ==> pa[j] == pb[j]); }
        lemma_lex_intro(ka, kb, i); lemma_lex_asym(ka, kb); lemma_lex_irrefl(ka);
    }
    if lex_lt(pb, pa) {
        let i = choose|i: int| 0 <= i <= pb.len() && i <= pa.len() && (forall|j: int| 0 <= j < i ==> pb[j] == pa[j])
            && i < pa.len() && (i < pb.len() ==> (#[trigger] pb[i]) < pa[i]);
        assert(forall|j: int| 0 <= j < i ==> ka[j] == kb[j]) by { assert(forall|j: int| 0 <= j < i ==> pb[j] == pa[j]); }
        lemma_lex_intro(kb, ka, i); lemma_lex_asym(kb, ka); lemma_lex_irrefl(kb);
    }
}
pub proof fn lemma_lex_intro(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i < b.len(), forall|j: int| 0 <= j < i ==> a[j] == b[j], i < a.len() ==> a[i] < b[i],
    ensures lex_lt(a, b),
{
    assert(i < a.len() ==> a[i] < b[i]);
    let x = a[i];
}
pub proof fn lemma_lex_irrefl(a: Seq<u8>) ensures !lex_lt(a, a) {}
pub proof fn lemma_lex_asym(a: Seq<u8>, b: Seq<u8>)
    requires lex_lt(a, b),
    ensures !lex_lt(b, a),
{
    if lex_lt(b, a) {
        let i = choose|i: int| 0 <= i <= a.len() && i <= b.len() && (forall|j: int| 0 <= j < i ==> a[j] == b[j])
            && i < b.len() && (i < a.len() ==> (#[trigger] a[i]) < b[i]);
        let k = choose|i: int| 0 <= i <= b.len() && i <= a.len() && (forall|j: int| 0 <= j < i ==> b[j] == a[j])
            && i < a.len() && (i < b.len() ==> (#[trigger] b[i]) < a[i]);
        if i < k { assert(b[i] == a[i]); } else if k < i { assert(a[k] == b[k]); }
    }
}
@@ fn PartialEq@FileName::eq [C06,C16,C17]
@@ rewrite PartialEq@FileName::eq
self.bytes[..$a] == other.bytes[..$b]
=>
bytes_eq(&self.bytes[..$a], &other.bytes[..$b])
@@ hint PartialEq@FileName::eq entry
    proof { lemma_kv(self); lemma_kv(other); }
@@ hint Ord@FileName::cmp after "let min_len = $x ;"
    proof { lemma_cmp(self, other, min_len as int); }
@@ extra head Ord@FileName
impl FileName
@@ fn Ord@FileName::cmp [C06,C16,C17]
    ensures
        r == Ordering::Equal <==> self.kv() == other.kv(), // [C17]
        r == Ordering::Less <==> lex_lt(self.kv(), other.kv()), // [C17]
        r == Ordering::Greater <==> lex_lt(other.kv(), self.kv()), // [C17]
@@ rewrite Ord@FileName::cmp
self.bytes[..$a].cmp(&other.bytes[..$b])
=>
bytes_cmp(&self.bytes[..$a], &other.bytes[..$b])
@@ fn FileName::new [C06,C07,C17]
    ensures
        name@.len() > 255 ==> r == Err::<FileName, Error>(Error::FilenameTooLong), // [C17]
        name@.len() <= 255 ==> r is Ok && r->Ok_0.kv() =~= name@, // [C17]
@@ fn MountedFileSizePolicy::get_mounted_file_size [C13]
    requires current_memory_pages * 65536 <= u64::MAX,
    ensures
        match *self {
            MountedFileSizePolicy::PreviousOrZero => r == (if previous_size is Some && previous_size->0 <= current_memory_pages * 65536 { previous_size->0 } else { 0 }),
            MountedFileSizePolicy::PreviousOrMemoryPages => r == (if previous_size is Some && previous_size->0 <= current_memory_pages * 65536 { previous_size->0 } else { (current_memory_pages * 65536) as u64 }),
            MountedFileSizePolicy::Explicit(s) => r == s,
            MountedFileSizePolicy::MemoryPages => r == current_memory_pages * 65536,
        },
@@ const DUMMY_DOT_ENTRY
    ensures DUMMY_DOT_ENTRY.0 == DUMMY_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY.1.name.kv() =~= seq![46u8], DUMMY_DOT_ENTRY.1.node == 0, DUMMY_DOT_ENTRY.1.entry_type is None,
@@ const DUMMY_DOT_DOT_ENTRY
    ensures DUMMY_DOT_DOT_ENTRY.0 == DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_DOT_ENTRY.1.name.kv() =~= seq![46u8, 46u8], DUMMY_DOT_DOT_ENTRY.1.node == 0, DUMMY_DOT_DOT_ENTRY.1.entry_type is None,
@@ const ZEROES
    ensures copied::<u8>(), forall|i: int| 0 <= i < 65536 ==> ZEROES@[i] == 0,

@@ extra derive Default Times
ensures r.accessed == 0 && r.modified == 0 && r.created == 0
@@ extra derive Default Metadata
ensures true
@@ extra derive Default FileType
ensures r == FileType::RegularFile
@@ extra head Default@FileChunk
impl FileChunk
@@ sig Default@FileChunk::default
fn default
=>
pub fn default
@@ fn Default@FileChunk::default [C01]
    ensures copied::<u8>(), r.bytes@ =~= Seq::new(4096, |i: int| 0u8), // [C01,C03]

@@ extra head Storable@FileName
impl FileName
@@ extra head Storable@FileChunk
impl FileChunk
@@ drop Storable@FileName::BOUND -- size of the encoding
@@ drop Storable@FileChunk::BOUND -- size of the encoding
@@ sig Storable@FileName::to_bytes
fn to_bytes(&'_ self) -> std::borrow::Cow<'_, [u8]>
=>
pub fn to_bytes(&self) -> crate::shim::Cow<'_>
@@ sig Storable@FileName::into_bytes
fn into_bytes
=>
pub fn into_bytes
@@ sig Storable@FileName::from_bytes
fn from_bytes(bytes: std::borrow::Cow<[u8]>)
=>
pub fn from_bytes(bytes: crate::shim::Cow)
@@ rewrite? Storable@FileName::to_bytes
std::borrow::Cow::
=>
crate::shim::Cow::
@@ sig Storable@FileChunk::to_bytes
fn to_bytes(&'_ self) -> std::borrow::Cow<'_, [u8]>
=>
pub fn to_bytes(&self) -> crate::shim::Cow<'_>
@@ sig Storable@FileChunk::into_bytes
fn into_bytes
=>
pub fn into_bytes
@@ sig Storable@FileChunk::from_bytes
fn from_bytes(bytes: std::borrow::Cow<[u8]>)
=>
pub fn from_bytes(bytes: crate::shim::Cow)
@@ rewrite? Storable@FileChunk::to_bytes
std::borrow::Cow::
=>
crate::shim::Cow::
@@ fn Storable@FileName::to_bytes [C14,C17]
    ensures r.v() == seq![self.length] + self.bytes@, // [C17,C14]
@@ fn Storable@FileName::into_bytes [C14,C17]
    ensures r@ == seq![self.length] + self.bytes@, // [C17,C14]
@@ fn Storable@FileName::from_bytes [C14,C17]
    requires bytes.v().len() == 256,
    ensures seq![r.length] + r.bytes@ == bytes.v(), // [C17,C14]
@@ fn Storable@FileChunk::to_bytes [C14,C01]
    ensures r.v() == self.bytes@, // [C14,C01]
@@ fn Storable@FileChunk::into_bytes [C14,C01]
    ensures r@ == self.bytes@, // [C14,C01]
@@ fn Storable@FileChunk::from_bytes [C14,C01]
    requires bytes.v().len() == 4096,
    ensures r.bytes@ == bytes.v(), // [C14,C01]
@@ rewrite? Storable@FileName::from_bytes
bytes[$i:any]
=>
bytes.as_ref()[$i]
@@ rewrite? Storable@FileChunk::from_bytes
bytes.as_ref().try_into().unwrap()
=>
crate::shim::to_array(bytes.as_ref())
@@ extra head Storable@Header
impl Header
@@ drop Storable@Header::BOUND -- size of the encoding
@@ sig Storable@Header::to_bytes
fn to_bytes(&'_ self) -> std::borrow::Cow<'_, [u8]>
=>
pub fn to_bytes(&self) -> crate::shim::Cow<'_>
@@ sig Storable@Header::into_bytes
fn into_bytes
=>
pub fn into_bytes
@@ sig Storable@Header::from_bytes
fn from_bytes(bytes: std::borrow::Cow<[u8]>)
=>
pub fn from_bytes(bytes: crate::shim::Cow)
@@ rewrite? Storable@Header::to_bytes
std::borrow::Cow::
=>
crate::shim::Cow::
@@ rewrite? Storable@Header::to_bytes
ciborium::ser::into_writer
=>
crate::shim::into_writer
@@ rewrite? Storable@Header::into_bytes
ciborium::ser::into_writer
=>
crate::shim::into_writer
@@ rewrite? Storable@Header::from_bytes
ciborium::de::from_reader
=>
crate::shim::from_reader::<Self>
@@ fn Storable@Header::to_bytes [C14]
    ensures r.v() =~= crate::shim::Enc::enc(self), // [C14]
@@ fn Storable@Header::into_bytes [C14]
    ensures r@ =~= crate::shim::Enc::enc(&self), // [C14]
@@ fn Storable@Header::from_bytes [C14]
    requires exists|x: Header| bytes.v() == #[trigger] crate::shim::Enc::enc(&x),
    ensures forall|x: Header| bytes.v() == #[trigger] crate::shim::Enc::enc(&x) ==> r == x, // [C14]
@@ extra head Storable@Metadata
impl Metadata
@@ drop Storable@Metadata::BOUND -- size of the encoding
@@ sig Storable@Metadata::to_bytes
fn to_bytes(&'_ self) -> std::borrow::Cow<'_, [u8]>
=>
pub fn to_bytes(&self) -> crate::shim::Cow<'_>
@@ sig Storable@Metadata::into_bytes
fn into_bytes
=>
pub fn into_bytes
@@ sig Storable@Metadata::from_bytes
fn from_bytes(bytes: std::borrow::Cow<[u8]>)
=>
pub fn from_bytes(bytes: crate::shim::Cow)
@@ rewrite? Storable@Metadata::to_bytes
std::borrow::Cow::
=>
crate::shim::Cow::
@@ rewrite? Storable@Metadata::to_bytes
ciborium::ser::into_writer
=>
crate::shim::into_writer
@@ rewrite? Storable@Metadata::into_bytes
ciborium::ser::into_writer
=>
crate::shim::into_writer
@@ rewrite? Storable@Metadata::from_bytes
ciborium::de::from_reader
=>
crate::shim::from_reader::<Self>
@@ fn Storable@Metadata::to_bytes [C14,C03]
    ensures r.v() =~= crate::shim::Enc::enc(self), // [C14,C03]
@@ fn Storable@Metadata::into_bytes [C14,C03]
    ensures r@ =~= crate::shim::Enc::enc(&self), // [C14,C03]
@@ fn Storable@Metadata::from_bytes [C14,C03]
    requires exists|x: Metadata| bytes.v() == #[trigger] crate::shim::Enc::enc(&x),
    ensures forall|x: Metadata| bytes.v() == #[trigger] crate::shim::Enc::enc(&x) ==> r == x, // [C14,C03]
@@ extra head Storable@DirEntry
impl DirEntry
@@ drop Storable@DirEntry::BOUND -- size of the encoding
@@ sig Storable@DirEntry::to_bytes
fn to_bytes(&'_ self) -> std::borrow::Cow<'_, [u8]>
=>
pub fn to_bytes(&self) -> crate::shim::Cow<'_>
@@ sig Storable@DirEntry::into_bytes
fn into_bytes
=>
pub fn into_bytes
@@ sig Storable@DirEntry::from_bytes
fn from_bytes(bytes: std::borrow::Cow<[u8]>)
=>
pub fn from_bytes(bytes: crate::shim::Cow)
@@ rewrite? Storable@DirEntry::to_bytes
std::borrow::Cow::
=>
crate::shim::Cow::
@@ rewrite? Storable@DirEntry::to_bytes
ciborium::ser::into_writer
=>
crate::shim::into_writer
@@ rewrite? Storable@DirEntry::into_bytes
ciborium::ser::into_writer
=>
crate::shim::into_writer
@@ rewrite? Storable@DirEntry::from_bytes
ciborium::de::from_reader
=>
crate::shim::from_reader::<Self>
@@ fn Storable@DirEntry::to_bytes [C14,C09]
    ensures r.v() =~= crate::shim::Enc::enc(self), // [C14,C09]
@@ fn Storable@DirEntry::into_bytes [C14,C09]
    ensures r@ =~= crate::shim::Enc::enc(&self), // [C14,C09]
@@ fn Storable@DirEntry::from_bytes [C14,C09]
    requires exists|x: DirEntry| bytes.v() == #[trigger] crate::shim::Enc::enc(&x),
    ensures forall|x: DirEntry| bytes.v() == #[trigger] crate::shim::Enc::enc(&x) ==> r == x, // [C14,C09]
@@ extra head PartialOrd@FileName
impl FileName
@@ fn PartialOrd@FileName::partial_cmp [C17]
    ensures
        r is Some, // [C17]
        r->0 == Ordering::Equal <==> self.kv() == other.kv(), // [C17]
        r->0 == Ordering::Less <==> lex_lt(self.kv(), other.kv()), // [C17]
@@ extra head Default@FileName
impl FileName
@@ sig Default@FileName::default
fn default
=>
pub fn default
@@ fn Default@FileName::default [C17]
    ensures r.kv() =~= Seq::<u8>::empty(), // [C17]
@@ extra head TryFrom@FileType
impl FileType
@@ drop TryFrom@FileType::Error -- associated type
@@ sig TryFrom@FileType::try_from
fn try_from(value: u8) -> Result<Self, Self::Error>
=>
pub fn try_from(value: u8) -> Result<Self, Error>
@@ fn TryFrom@FileType::try_from [C14]
    ensures
        r is Ok <==> value == 3 || value == 4 || value == 7, // [C14]
        r is Ok ==> r->Ok_0.code() == value, // [C14]
@@ extra head From@u8
impl FileType
@@ sig From@u8::from
fn from(val: FileType) -> Self
=>
pub fn from(val: FileType) -> u8
@@ fn From@u8::from [C14]
    ensures r == val.code(), // [C14]
