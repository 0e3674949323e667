//@ include prelude/base.rs
//@ include prelude/maps.rs
verus! {
//@ include lib/types.vspec
//@ include lib/filters.vspec
impl Clone for AccountFilterType {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ---- the filter types of the RPC client library (dependency) ----
pub enum MemcmpEncodedBytes { Binary(String), Base58(String), Base64(String), Bytes(Vec<u8>) }
pub struct RpcMemcmp { pub offset: usize, pub bytes: MemcmpEncodedBytes }
pub enum RpcFilterType { DataSize(u64), Memcmp(RpcMemcmp), TokenAccountState }
impl MemcmpEncodedBytes {
    pub open spec fn valid(&self) -> bool {
        match self {
            MemcmpEncodedBytes::Bytes(_) => true,
            MemcmpEncodedBytes::Binary(s) => b58_valid(s@),
            MemcmpEncodedBytes::Base58(s) => b58_valid(s@),
            MemcmpEncodedBytes::Base64(s) => b64_valid(s@),
        }
    }
    pub open spec fn plain(&self) -> Seq<u8> {
        match self {
            MemcmpEncodedBytes::Bytes(b) => b@,
            MemcmpEncodedBytes::Binary(s) => b58_bytes(s@),
            MemcmpEncodedBytes::Base58(s) => b58_bytes(s@),
            MemcmpEncodedBytes::Base64(s) => b64_bytes(s@),
        }
    }
}
// what the library matches: what decodes, at the offset; nothing if it does not decode
pub open spec fn rpc_allows(f: RpcFilterType, data: Seq<u8>) -> bool {
    match f {
        RpcFilterType::DataSize(n) => data.len() == n,
        RpcFilterType::Memcmp(m) => m.bytes.valid() && m.offset + m.bytes.plain().len() <= data.len()
            && data.subrange(m.offset as int, m.offset + m.bytes.plain().len()) =~= m.bytes.plain(),
        RpcFilterType::TokenAccountState => false,
    }
}
impl RpcMemcmp {
    #[verifier::external_body]
    pub fn new(offset: usize, encoded_bytes: MemcmpEncodedBytes) -> (r: Self)
        ensures r.offset == offset, r.bytes == encoded_bytes,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes<'a>(&'a self) -> (r: Option<&'a Vec<u8>>)
        ensures r is Some <==> self.bytes.valid(), r is Some ==> r->0@ == self.bytes.plain(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_match(&self, data: &[u8]) -> (r: bool)
        ensures r == rpc_allows(RpcFilterType::Memcmp(*self), data@),
    { unimplemented!() }
}
// the two filters admit the same contents
pub open spec fn same_meaning(f: AccountFilterType, g: RpcFilterType) -> bool {
    match g {
        RpcFilterType::DataSize(n) => f == AccountFilterType::Datasize(n),
        RpcFilterType::Memcmp(m) => match f {
            AccountFilterType::Memcmp(k) => k.offset == m.offset && k.data.valid() == m.bytes.valid()
                && (k.data.valid() ==> k.data.plain() =~= m.bytes.plain()),
            _ => false,
        },
        RpcFilterType::TokenAccountState => false,
    }
}
proof fn lemma_same_meaning(f: AccountFilterType, g: RpcFilterType, data: Seq<u8>)
    requires same_meaning(f, g),
    ensures allows_f(f.ftype(), data) == rpc_allows(g, data),
{}
// to the RPC filter and back, the meaning is the one of the start
proof fn lemma_there_and_back(f: AccountFilterType, g: RpcFilterType, h: AccountFilterType, data: Seq<u8>)
    requires same_meaning(f, g), same_meaning(h, g),
    ensures allows_f(f.ftype(), data) == allows_f(h.ftype(), data),
{}
//@ file common/src/account_filter.rs
impl AccountFilterType {
//@ fn From<&RpcFilterType> for AccountFilterType::from ret=r
    requires !(value is TokenAccountState),
    ensures same_meaning(r, *value),
//@ end
}
pub open spec fn converted(items: Seq<AccountFilterType>, acc: Seq<RpcFilterType>, n: int) -> bool {
    acc.len() == n && n <= items.len() && forall |i: int| 0 <= i < n ==> same_meaning(#[trigger] items[i], acc[i])
}
impl AccountFilter {
//@ fn AccountFilter::get_rpc_filter ret=r
    ensures
        (r is Some) == (self.filters is Some),
        r is Some ==> (r->0)@.len() == (self.filters->0)@.len(),
        r is Some ==> forall |i: int| 0 <= i < (r->0)@.len() ==> same_meaning(#[trigger] (self.filters->0)@[i], (r->0)@[i]),
//@ loop 0
    invariant_except_break
        converted((self.filters->0)@, __acc0_@, __it0_.pos() as int),
    invariant
        __it0_.items().len() == filters@.len(),
        forall |i: int| 0 <= i < filters@.len() ==> *(#[trigger] __it0_.items()[i]) == filters@[i],
        self.filters is Some, filters@ =~= (self.filters->0)@,
    ensures
        converted((self.filters->0)@, __acc0_@, filters@.len() as int),
//@ end
}
//@ file common/src/account_data.rs
impl AccountData {
//@ fn AccountData::allows ret=r
    requires self.account.data.ok(),
    ensures r == rpc_allows(*filter, self.account.data.plain()),
//@ end
}
} // verus!
fn main() {}
