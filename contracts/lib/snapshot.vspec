//@ file simulate_from_snapshot/src/snapshot_utils/append_vec.rs
//@ mapped map
// ---- the dependencies: memory maps, files and readers, the layout of stored accounts ----
#[derive(Clone, Copy)]
pub struct StoredMeta { pub write_version_obsolete: u64, pub data_len: u64, pub pubkey: Pubkey }
#[derive(Clone, Copy)]
pub struct AccountMeta { pub lamports: u64, pub rent_epoch: u64, pub owner: Pubkey, pub executable: bool }
#[derive(Clone, Copy)]
pub struct Hash(pub [u8; 32]);
pub struct Account { pub lamports: u64, pub data: Vec<u8>, pub owner: Pubkey, pub executable: bool, pub rent_epoch: u64 }
pub struct AccountSharedData { pub inner: Account }
impl AccountSharedData {
    pub fn from(a: Account) -> (r: Self) ensures r.inner == a { AccountSharedData { inner: a } }
}
pub assume_specification [usize::overflowing_add] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a + b > usize::MAX), !r.1 ==> r.0 == a + b;
pub const MAXIMUM_APPEND_VEC_FILE_SIZE: u64 = 16 * 1024 * 1024 * 1024;
pub open spec fn align8(x: int) -> int { ((x + 7) / 8) * 8 }
pub fn vx_u64_align(x: usize) -> (r: usize)
    requires x + 7 <= usize::MAX,
    ensures r == align8(x as int),
{ ((x + 7) / 8) * 8 }
// size, alignment and meaning of the bytes of a repr(C) type
pub uninterp spec fn size_in<T>() -> int;
pub uninterp spec fn align_in<T>() -> int;
pub uninterp spec fn read_as<T>(b: Seq<u8>) -> T;
pub broadcast axiom fn axiom_layout_meta() ensures #[trigger] size_in::<StoredMeta>() == 48, align_in::<StoredMeta>() == 8;
pub broadcast axiom fn axiom_layout_account() ensures #[trigger] size_in::<AccountMeta>() == 56, align_in::<AccountMeta>() == 8;
pub broadcast axiom fn axiom_layout_hash() ensures #[trigger] size_in::<Hash>() == 32, align_in::<Hash>() == 1;
#[verifier::external_body]
pub fn size_of<T>() -> (r: usize) ensures r == size_in::<T>() { core::mem::size_of::<T>() }
// where a slice lies in memory
pub uninterp spec fn addr(s: &[u8]) -> int;
#[verifier::external_body]
pub fn vx_raw_slice<'a>(s: &'a [u8], n: usize) -> (r: &'a [u8])
    requires n <= s@.len(),
    ensures r@ == s@.take(n as int), addr(r) == addr(s),
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPtr<T> { p: *const T }
impl<T> Clone for VxPtr<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> Copy for VxPtr<T> {}
impl<T> VxPtr<T> {
    // the bytes that can be read there
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> int;
}
#[verifier::external_body]
pub fn vx_ptr<T>(s: &[u8]) -> (r: VxPtr<T>) ensures r.bytes() == s@, r.at() == addr(s) { unimplemented!() }
#[verifier::external_body]
pub fn vx_deref<'a, T>(p: VxPtr<T>) -> (r: &'a T)
    requires size_in::<T>() <= p.bytes().len(), p.at() % align_in::<T>() == 0,
    ensures *r == read_as::<T>(p.bytes().take(size_in::<T>())), p.bytes().len() == size_in::<T>() ==> *r == read_as::<T>(p.bytes()),
{ unimplemented!() }
// a mapped area starts at a page
pub struct Mmap { pub bytes: Vec<u8>, pub at: Ghost<int> }
pub open spec fn mapped(b: Seq<u8>, at: int) -> bool { b.len() <= isize::MAX && at % 8 == 0 }
impl Mmap {
    pub open spec fn view(&self) -> Seq<u8> { self.bytes@ }
    pub open spec fn ok(&self) -> bool { mapped(self@, self.at@) }
    #[verifier::external_body]
    pub fn vx_area<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8])
        requires a <= b <= self@.len(),
        ensures r@ == self@.subrange(a as int, b as int), addr(r) == self.at@ + a,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, r: core::ops::Range<usize>) -> (s: Option<&'a [u8]>)
        ensures
            s is Some == (r.start <= r.end <= self@.len()),
            s matches Some(x) ==> x@ == self@.subrange(r.start as int, r.end as int) && addr(x) == self.at@ + r.start,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map(f: &File) -> (r: Result<Mmap, Error>) ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0@ == f.content() { unimplemented!() }
}
pub struct MmapMut { pub bytes: Vec<u8>, pub at: Ghost<int> }
impl MmapMut {
    pub open spec fn view(&self) -> Seq<u8> { self.bytes@ }
    #[verifier::external_body]
    pub fn map_anon(n: usize) -> (r: Result<MmapMut, Error>) ensures r is Ok ==> mapped(r->Ok_0@, r->Ok_0.at@) && r->Ok_0@ == Seq::new(n as nat, |i: int| 0u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn make_read_only(self) -> (r: Result<Mmap, Error>) ensures r is Ok ==> r->Ok_0@ == self@ && r->Ok_0.at == self.at { unimplemented!() }
}
pub struct Error { pub kind: ErrorKind }
pub enum ErrorKind { Other, UnexpectedEof, InvalidData, InvalidInput, NotFound }
pub struct VxText;
#[verifier::external_body]
pub fn vx_string() -> (r: VxText) { unimplemented!() }
impl Error {
    #[verifier::external_body]
    pub fn new<M>(k: ErrorKind, m: M) -> (r: Error) ensures r.kind == k { unimplemented!() }
    #[verifier::external_body]
    pub fn from(k: ErrorKind) -> (r: Error) ensures r.kind == k { unimplemented!() }
}
impl VxConv<Error> for ErrorKind {
    open spec fn conv(self, r: Error) -> bool { r.kind == self }
    #[verifier::external_body]
    fn vx_conv(self) -> (r: Error) { unimplemented!() }
}
pub type IoResult<T> = Result<T, Error>;
// files do not change while they are read
pub struct Path;
pub trait AsRef<T> { spec fn content(&self) -> Seq<u8>; }
pub struct File { pub key: Ghost<Seq<u8>> }
impl File { pub open spec fn content(&self) -> Seq<u8> { self.key@ } }
pub struct OpenOptions;
impl OpenOptions {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn read(self, b: bool) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, b: bool) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn create(self, b: bool) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: AsRef<Path>>(self, p: &P) -> (r: Result<File, Error>) ensures r is Ok ==> r->Ok_0.content() == p.content() { unimplemented!() }
}
impl File {
    #[verifier::external_body]
    pub fn open<P: AsRef<Path>>(p: &P) -> (r: Result<File, Error>) ensures r is Ok ==> r->Ok_0.content() == p.content() { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<Metadata, Error>) ensures r is Ok ==> r->Ok_0.size == self.content().len() { unimplemented!() }
}
pub struct Metadata { pub size: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.size { self.size } }
#[verifier::external_body]
pub fn metadata<P: AsRef<Path>>(p: &P) -> (r: Result<Metadata, Error>) ensures r is Ok ==> r->Ok_0.size == p.content().len() { unimplemented!() }
// a reader: what it still gives before its end
pub trait Read { spec fn rest(&self) -> Seq<u8>; }
pub open spec fn at_most(s: Seq<u8>, n: int) -> Seq<u8> { if s.len() <= n { s } else { s.take(n) } }
#[verifier::external_body]
pub fn vx_copy_into<R: Read>(reader: &mut R, n: u64, m: &mut MmapMut) -> (r: Result<u64, Error>)
    ensures
        final(m)@.len() == old(m)@.len(), final(m).at == old(m).at,
        r is Ok ==> {
            let got = at_most(old(reader).rest(), n as int);
            r->Ok_0 == got.len() && got.len() <= old(m)@.len() && final(m)@ == got + old(m)@.skip(got.len() as int)
        },
{ unimplemented!() }
pub fn vx_try_usize(x: u64) -> (r: Option<usize>) ensures r == Some(x as usize) { Some(x as usize) }
pub fn vx_try_u64(x: usize) -> (r: Option<u64>) ensures r == Some(x as u64) { Some(x as u64) }

//@ struct StoredAccountMeta
//@ struct AppendVec
// ---- what is stored at an offset, in the first n bytes of b ----
pub open spec fn fixed() -> int { 136 }
pub open spec fn meta_at(b: Seq<u8>, o: int) -> StoredMeta { read_as::<StoredMeta>(b.subrange(o, o + 48)) }
pub open spec fn account_at(b: Seq<u8>, o: int) -> AccountMeta { read_as::<AccountMeta>(b.subrange(o + 48, o + 104)) }
pub open spec fn hash_at(b: Seq<u8>, o: int) -> Hash { read_as::<Hash>(b.subrange(o + 104, o + 136)) }
pub open spec fn data_end(b: Seq<u8>, o: int) -> int { o + fixed() + meta_at(b, o).data_len }
// an account lies completely within the first n bytes
pub open spec fn complete(b: Seq<u8>, n: int, o: int) -> bool { o + fixed() <= n && data_end(b, o) <= n }
pub open spec fn following(b: Seq<u8>, o: int) -> int { align8(data_end(b, o)) }
impl AppendVec {
    pub open spec fn ok(&self) -> bool { self.map.ok() && self.current_len <= self.map@.len() }
//@ fn AppendVec::sanitize_len_and_size ret=r
    ensures r is Ok <==> 0 < file_size <= MAXIMUM_APPEND_VEC_FILE_SIZE && current_len <= file_size,
//@ end
//@ fn AppendVec::remaining_bytes ret=r
    ensures r == if self.file_size >= self.current_len as u64 { self.file_size - self.current_len } else { 0 },
//@ end
//@ fn AppendVec::len ret=r
    ensures r == self.current_len,
//@ end
//@ fn AppendVec::is_empty ret=r
    ensures r == (self.current_len == 0),
//@ end
//@ fn AppendVec::capacity ret=r
    ensures r == self.file_size,
//@ end
//@ fn AppendVec::slot ret=r
    ensures r == self.slot,
//@ end
//@ fn AppendVec::new_from_file ret=r
    ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.map@ == path.content() && r->Ok_0.current_len == current_len && r->Ok_0.slot == slot,
        path.content().len() < current_len ==> r is Err,
//@ end
//@ fn AppendVec::new_from_reader ret=r
    ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.map@ =~= old(reader).rest().take(current_len as int) && r->Ok_0.current_len == current_len && r->Ok_0.slot == slot,
        old(reader).rest().len() < current_len ==> r is Err,
//@ end
//@ fn AppendVec::get_slice ret=r
    requires self.ok(),
    ensures
        r is Some <==> offset + size <= self.current_len,
        r matches Some((s, n)) ==> s@ =~= self.map@.subrange(offset as int, offset + size) && n == align8(offset + size) && addr(s) == self.map.at@ + offset,
//@ end
//@ fn AppendVec::get_type ret=r
    requires self.ok(), align_in::<T>() == 8 || align_in::<T>() == 1, offset % 8 == 0,
    ensures
        r is Some <==> offset + size_in::<T>() <= self.current_len,
        r matches Some((x, n)) ==> *x == read_as::<T>(self.map@.subrange(offset as int, offset + size_in::<T>())) && n == align8(offset + size_in::<T>()),
//@ end
//@ fn AppendVec::get_account ret=r
    requires self.ok(), offset % 8 == 0,
    ensures
        r is Some <==> complete(self.map@, self.current_len as int, offset as int),
        r matches Some((a, n)) ==> {
            let (b, o) = (self.map@, offset as int);
            n == following(b, o) && *a.meta == meta_at(b, o) && *a.account_meta == account_at(b, o) && *a.hash == hash_at(b, o)
                && a.data@ =~= b.subrange(o + fixed(), data_end(b, o)) && a.offset == offset && a.stored_size == n - offset
        },
//@ start
broadcast use axiom_layout_meta, axiom_layout_account, axiom_layout_hash;
//@ end
}
impl<'a> StoredAccountMeta<'a> {
//@ fn StoredAccountMeta::clone_account ret=r
    ensures r.inner.lamports == self.account_meta.lamports, r.inner.owner == self.account_meta.owner, r.inner.executable == self.account_meta.executable,
        r.inner.rent_epoch == self.account_meta.rent_epoch, r.inner.data@ =~= self.data@,
//@ end
}

//@ file simulate_from_snapshot/src/snapshot_utils/mod.rs
//@ struct StoredAccountMetaHandle
impl<'a> StoredAccountMetaHandle<'a> {
    pub open spec fn ok(&self) -> bool { self.append_vec.ok() && self.offset % 8 == 0 }
//@ fn StoredAccountMetaHandle::new ret=r
    ensures r.append_vec == append_vec && r.offset == offset,
//@ end
//@ fn StoredAccountMetaHandle::access ret=r
    requires self.ok(),
    ensures
        r is Some <==> complete(self.append_vec.map@, self.append_vec.current_len as int, self.offset as int),
        r matches Some(a) ==> {
            let (b, o) = (self.append_vec.map@, self.offset as int);
            *a.meta == meta_at(b, o) && *a.account_meta == account_at(b, o) && *a.hash == hash_at(b, o) && a.data@ =~= b.subrange(o + fixed(), data_end(b, o))
        },
//@ end
}
// the offsets of the accounts: each follows the one before, until one is not complete
pub open spec fn walked(b: Seq<u8>, n: int, s: Seq<int>, o: int) -> bool {
    (s.len() == 0 ==> o == 0) && (s.len() > 0 ==> s[0] == 0 && o == following(b, s.last()))
    && (forall|i: int| 0 <= i < s.len() ==> complete(b, n, #[trigger] s[i]) && s[i] >= 0 && s[i] % 8 == 0)
    && (forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> #[trigger] s[j] == following(b, #[trigger] s[i]))
}
pub open spec fn offsets(v: Seq<StoredAccountMetaHandle<'_>>) -> Seq<int> { v.map_values(|h: StoredAccountMetaHandle| h.offset as int) }
pub broadcast proof fn lemma_offsets_pushed(v: Seq<StoredAccountMetaHandle<'_>>, h: StoredAccountMetaHandle<'_>)
    ensures #[trigger] offsets(v.push(h)) == offsets(v).push(h.offset as int),
{ assert(offsets(v.push(h)) =~= offsets(v).push(h.offset as int)); }
pub broadcast proof fn lemma_walked_on(b: Seq<u8>, n: int, s: Seq<int>, o: int, x: int)
    requires walked(b, n, s, o), complete(b, n, o), o % 8 == 0, o >= 0, x == following(b, o),
    ensures #[trigger] walked(b, n, s.push(o), x),
{}
pub open spec fn all_in(v: Seq<StoredAccountMetaHandle<'_>>, a: &AppendVec) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).append_vec == a && v[i].ok()
}
//@ fn append_vec_iter ret=r
    requires append_vec.ok(),
    ensures
        all_in(r@, append_vec),
        exists|o: int| walked(append_vec.map@, append_vec.current_len as int, offsets(r@), o) && !complete(append_vec.map@, append_vec.current_len as int, o),
//@ loop 0
    invariant
        append_vec.ok(), offset % 8 == 0,
        all_in(__acc0_@, append_vec),
        walked(append_vec.map@, append_vec.current_len as int, offsets(__acc0_@), offset as int),
    ensures
        !complete(append_vec.map@, append_vec.current_len as int, offset as int),
    decreases append_vec.current_len + 8 - offset,
//@ loopstart 0
let ghost (v0, o0) = (__acc0_@, offset as int);
//@ loopend 0
proof {
    let h = __acc0_@.last();
    assert(__acc0_@ =~= v0.push(h));
    lemma_offsets_pushed(v0, h);
    lemma_walked_on(append_vec.map@, append_vec.current_len as int, offsets(v0), o0, offset as int);
}
//@ start
broadcast use lemma_offsets_pushed, lemma_walked_on;
//@ end

// stored one after the other, accounts are read back as they are: whoever writes them at the
// offsets of the walk gets each of them, and nothing else
proof fn lemma_walks_agree(b: Seq<u8>, n: int, s: Seq<int>, o: int, t: Seq<int>, p: int)
    requires walked(b, n, s, o), walked(b, n, t, p), !complete(b, n, o), !complete(b, n, p),
    ensures s =~= t, o == p,
    decreases s.len() + t.len(),
{
    lemma_walks_meet(b, n, s, t, if s.len() <= t.len() { s.len() as int } else { t.len() as int });
    if s.len() < t.len() {
        if s.len() == 0 { assert(t[0] == o); } else { assert(t[s.len() as int] == following(b, t[s.len() - 1])); assert(t[s.len() as int] == o); }
        assert(complete(b, n, t[s.len() as int]));
    } else if t.len() < s.len() {
        if t.len() == 0 { assert(s[0] == p); } else { assert(s[t.len() as int] == following(b, s[t.len() - 1])); assert(s[t.len() as int] == p); }
        assert(complete(b, n, s[t.len() as int]));
    }
}
proof fn lemma_walks_meet(b: Seq<u8>, n: int, s: Seq<int>, t: Seq<int>, k: int)
    requires
        s.len() > 0 ==> s[0] == 0, t.len() > 0 ==> t[0] == 0, 0 <= k <= s.len(), k <= t.len(),
        forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> #[trigger] s[j] == following(b, #[trigger] s[i]),
        forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() ==> #[trigger] t[j] == following(b, #[trigger] t[i]),
    ensures forall|i: int| 0 <= i < k ==> #[trigger] s[i] == t[i],
    decreases k,
{
    if k > 0 {
        lemma_walks_meet(b, n, s, t, k - 1);
        if k > 1 { assert(s[k - 1] == following(b, s[k - 2])); assert(t[k - 1] == following(b, t[k - 2])); }
    }
}

// ---- the files of a snapshot: their names, and what the manifest says of them ----
#[derive(Debug)]
pub struct VxErr;
pub uninterp spec fn number(s: Seq<char>) -> Option<u64>;
#[verifier::external_body]
pub fn vx_parse_u64(s: &str) -> (r: Result<u64, VxErr>) ensures r is Ok == number(s@) is Some, r is Ok ==> number(s@) == Some(r->Ok_0) { unimplemented!() }
pub struct OsStr { pub key: Ghost<Option<Seq<char>>> }
impl OsStr {
    #[verifier::external_body]
    pub fn new(s: &'static str) -> (r: &'static OsStr) ensures *r == plain(s@) { unimplemented!() }
    // None: no text
    pub open spec fn text(&self) -> Option<Seq<char>> { self.key@ }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some == self.text() is Some, r is Some ==> r->Some_0@ == self.text()->Some_0 { unimplemented!() }
}
// the part before the first c, and the part after it
pub open spec fn before(s: Seq<char>, c: char) -> Seq<char> { if s.contains(c) { s.take(s.index_of_first(c).unwrap()) } else { s } }
pub open spec fn after(s: Seq<char>, c: char) -> Option<Seq<char>> { if s.contains(c) { Some(s.skip(s.index_of_first(c).unwrap() + 1)) } else { None } }
pub struct VxParts { pub left: Ghost<Seq<Seq<char>>> }
impl VxParts {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'static str>)
        ensures
            r is Some == (old(self).left@.len() > 0),
            r is Some ==> r->Some_0@ == old(self).left@[0] && final(self).left@ == old(self).left@.skip(1),
            r is None ==> final(self).left@ == old(self).left@,
    { unimplemented!() }
}
pub trait VxSplit { fn vx_splitn(&self, n: usize, c: char) -> VxParts; fn vx_split_once(&self, c: char) -> Option<(&'static str, &'static str)>; }
impl VxSplit for str {
    #[verifier::external_body]
    fn vx_splitn(&self, n: usize, c: char) -> (r: VxParts)
        ensures n == 2 ==> r.left@ == match after(self@, c) { Some(a) => seq![before(self@, c), a], None => seq![self@] },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_once(&self, c: char) -> (r: Option<(&'static str, &'static str)>)
        ensures r is Some == after(self@, c) is Some, r is Some ==> r->Some_0.0@ == before(self@, c) && Some(r->Some_0.1@) == after(self@, c),
    { unimplemented!() }
}
// SLOT.ID
pub open spec fn named(t: Seq<char>) -> Option<(u64, u64)> {
    let id = match after(t, '.') { Some(a) => number(a), None => None };
    match (number(before(t, '.')), id) { (Some(slot), Some(id)) => Some((slot, id)), _ => None }
}
pub axiom fn axiom_nothing_is_no_number() ensures number(""@) is None;
//@ fn parse_append_vec_name ret=r
    ensures r == (match name.text() { Some(t) => named(t), None => None }),
//@ start
proof { axiom_nothing_is_no_number(); }
//@ end

//@ file simulate_from_snapshot/src/snapshot_utils/solana.rs
pub type StoredMetaWriteVersion = u64;
pub struct BankHashStats;
//@ struct BankHashInfo
//@ type SerializedAppendVecId
//@ struct SerializableAccountStorageEntry
//@ struct AccountsDbFields
pub enum SnapshotError { IOError(Error), BincodeError(VxErr), NoStatusCache, NoSnapshotManifest, UnexpectedAppendVec, ReadProgressTracking(VxText) }
impl vstd::std_specs::convert::FromSpecImpl<Error> for SnapshotError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> Self { SnapshotError::IOError(e) }
}
impl From<Error> for SnapshotError { fn from(e: Error) -> (r: Self) { SnapshotError::IOError(e) } }
pub type SnapshotResult<T> = Result<T, SnapshotError>;
pub type Listing = AccountsDbFields<SerializableAccountStorageEntry>;
pub open spec fn listed(f: Listing, slot: u64) -> Seq<SerializableAccountStorageEntry> {
    if f.0@.contains_key(slot) { f.0@[slot]@ } else { Seq::empty() }
}
// the i-th entry is the first one for the file
pub open spec fn first_for(f: Listing, slot: u64, id: u64, i: int) -> bool {
    listed(f, slot)[i].id == id && forall|j: int| 0 <= j < i ==> (#[trigger] listed(f, slot)[j]).id != id
}
pub open spec fn not_listed(f: Listing, slot: u64, id: u64) -> bool {
    forall|j: int| 0 <= j < listed(f, slot).len() ==> (#[trigger] listed(f, slot)[j]).id != id
}
pub open spec fn stands_in(f: Listing, slot: u64, id: u64, x: Option<&SerializableAccountStorageEntry>) -> bool {
    x matches Some(e) ==> exists|i: int| 0 <= i < listed(f, slot).len() && #[trigger] listed(f, slot)[i] == *e && first_for(f, slot, id, i)
}
pub open spec fn opened(f: Listing, slot: u64, id: u64, content: Seq<u8>, r: SnapshotResult<AppendVec>) -> bool {
    &&& r matches Ok(v) ==> exists|i: int| 0 <= i < listed(f, slot).len() && v.current_len == (#[trigger] listed(f, slot)[i]).accounts_current_len
            && first_for(f, slot, id, i) && v.current_len <= content.len()
    &&& r matches Ok(v) ==> v.ok() && v.slot == slot && v.map@.take(v.current_len as int) =~= content.take(v.current_len as int)
    &&& not_listed(f, slot, id) ==> r is Err
}
// the parts of a path
pub enum Component<'a> { Prefix, RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
impl<'a> PartialEq for Component<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Component<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for OsStr {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for OsStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
#[verifier::external_body]
pub fn vx_as_ref(s: &'static str) -> (r: &'static OsStr) ensures *r == plain(s@) { unimplemented!() }
pub open spec fn plain(s: Seq<char>) -> OsStr { OsStr { key: Ghost(Some(s)) } }
pub struct Components<'a> { pub left: Ghost<Seq<Component<'a>>> }
impl<'a> Components<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Component<'a>>)
        ensures
            r is Some == (old(self).left@.len() > 0),
            r is Some ==> r->Some_0 == old(self).left@[0] && final(self).left@ == old(self).left@.skip(1),
            r is None ==> final(self).left@ == old(self).left@,
    { unimplemented!() }
}
impl Path {
    pub uninterp spec fn parts<'a>(&'a self) -> Seq<Component<'a>>;
    #[verifier::external_body]
    pub fn components<'a>(&'a self) -> (r: Components<'a>) ensures r.left@ == self.parts() { unimplemented!() }
}
// snapshots/SLOT/SLOT
pub open spec fn manifest_name(p: Seq<Component<'_>>) -> bool {
    p.len() == 3 && (p[0] matches Component::Normal(d) && *d == plain("snapshots"@))
    && (p[1] matches Component::Normal(s) && (s.text() matches Some(t) && number(t) is Some) && (p[2] matches Component::Normal(z) && *s == *z))
}
// accounts/SLOT.ID
pub open spec fn account_file_name(p: Seq<Component<'_>>) -> bool {
    p.len() == 2 && (p[0] matches Component::Normal(d) && *d == plain("accounts"@))
    && (p[1] matches Component::Normal(s) && (s.text() matches Some(t) && named(t) is Some))
}
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct BufReader<S> { s: S }
pub mod zstd_ { use super::*; }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Decoder<'a, S> { s: &'a S }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Entry<'a, S> { s: &'a S }
impl<'a, S> Read for Entry<'a, S> { uninterp spec fn rest(&self) -> Seq<u8>; }
#[verifier::reject_recursive_types(Source)]
pub struct ArchiveSnapshotExtractor<Source> { pub accounts_db_fields: AccountsDbFields<SerializableAccountStorageEntry>, pub source: Ghost<Option<Source>> }
impl<Source> ArchiveSnapshotExtractor<Source> {
//@ file simulate_from_snapshot/src/snapshot_utils/archived.rs
//@ fn ArchiveSnapshotExtractor::is_snapshot_manifest_file ret=r
    ensures r == manifest_name(path.parts()),
//@ end
//@ fn ArchiveSnapshotExtractor::is_appendvec_file ret=r
    ensures r == account_file_name(path.parts()),
//@ end
//@ fn ArchiveSnapshotExtractor::process_entry ret=r
    ensures opened(self.accounts_db_fields, slot, id, old(entry).rest(), r),
//@ loop 0
    invariant_except_break
        __acc0_ is None,
        forall|j: int| 0 <= j < __it0_.pos() ==> (#[trigger] listed(self.accounts_db_fields, slot)[j]).id != id,
    invariant
        __it0_.items().len() == listed(self.accounts_db_fields, slot).len(),
        forall|j: int| 0 <= j < __it0_.items().len() ==> *(#[trigger] __it0_.items()[j]) == listed(self.accounts_db_fields, slot)[j],
    ensures
        __acc0_ is None ==> not_listed(self.accounts_db_fields, slot, id),
        stands_in(self.accounts_db_fields, slot, id, __acc0_),
//@ end
}
pub struct PathBuf;
impl AsRef<Path> for Path { uninterp spec fn content(&self) -> Seq<u8>; }
impl<'a> AsRef<Path> for &'a Path { open spec fn content(&self) -> Seq<u8> { (*self).content() } }
//@ file simulate_from_snapshot/src/snapshot_utils/unpacked.rs
//@ struct UnpackedSnapshotExtractor
impl UnpackedSnapshotExtractor {
//@ fn UnpackedSnapshotExtractor::open_append_vec ret=r
    ensures opened(self.accounts_db_fields, slot, id, path.content(), r),
//@ loop 0
    invariant_except_break
        __acc0_ is None,
        forall|j: int| 0 <= j < __it0_.pos() ==> (#[trigger] listed(self.accounts_db_fields, slot)[j]).id != id,
    invariant
        __it0_.items().len() == listed(self.accounts_db_fields, slot).len(),
        forall|j: int| 0 <= j < __it0_.items().len() ==> *(#[trigger] __it0_.items()[j]) == listed(self.accounts_db_fields, slot)[j],
    ensures
        __acc0_ is None ==> not_listed(self.accounts_db_fields, slot, id),
        stands_in(self.accounts_db_fields, slot, id, __acc0_),
//@ end
}
