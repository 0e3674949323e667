//@ file common/src/account_filter.rs
//@ struct AccountFilter
//@ type AccountFilters

// ---- text decoders (dependencies): assumed total functions of the text -----------------------
pub uninterp spec fn b58_valid(s: Seq<char>) -> bool;
pub uninterp spec fn b58_bytes(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn b64_valid(s: Seq<char>) -> bool;
pub uninterp spec fn b64_bytes(s: Seq<char>) -> Seq<u8>;
#[derive(Debug)]
pub struct DecodeError;
pub struct B58<'a>(pub &'a String);
pub fn bs58_decode<'a>(s: &'a String) -> (r: B58<'a>) ensures r.0@ == s@ { B58(s) }
impl<'a> B58<'a> {
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Result<Vec<u8>, DecodeError>)
        ensures r is Ok <==> b58_valid(self.0@), r is Ok ==> r->Ok_0@ == b58_bytes(self.0@),
    { unimplemented!() }
}
pub struct B64Engine;
pub const STANDARD: B64Engine = B64Engine;
impl B64Engine {
    #[verifier::external_body]
    pub fn decode(&self, s: &String) -> (r: Result<Vec<u8>, DecodeError>)
        ensures r is Ok <==> b64_valid(s@), r is Ok ==> r->Ok_0@ == b64_bytes(s@),
    { unimplemented!() }
}

// ---- specification: what a filter means ------------------------------------------------------
impl MemcmpFilterData {
    pub open spec fn valid(&self) -> bool {
        match self { MemcmpFilterData::Bytes(_) => true, MemcmpFilterData::Base58(s) => b58_valid(s@), MemcmpFilterData::Base64(s) => b64_valid(s@) }
    }
    pub open spec fn plain(&self) -> Seq<u8> {
        match self { MemcmpFilterData::Bytes(b) => b@, MemcmpFilterData::Base58(s) => b58_bytes(s@), MemcmpFilterData::Base64(s) => b64_bytes(s@) }
    }
}
pub open spec fn mem_match(offset: u64, bytes: Seq<u8>, data: Seq<u8>) -> bool {
    offset + bytes.len() <= data.len() && data.subrange(offset as int, offset + bytes.len()) =~= bytes
}
// the filter with its bytes decoded: two filters with the same meaning are equal here
// (one whose text does not decode is only equal to the same text)
pub enum FType { Size(u64), Mem(u64, Seq<u8>), Never(u64, bool, Seq<char>) }
pub open spec fn mem_type(offset: u64, d: MemcmpFilterData) -> FType {
    match d {
        MemcmpFilterData::Bytes(b) => FType::Mem(offset, b@),
        MemcmpFilterData::Base58(s) => if b58_valid(s@) { FType::Mem(offset, b58_bytes(s@)) } else { FType::Never(offset, false, s@) },
        MemcmpFilterData::Base64(s) => if b64_valid(s@) { FType::Mem(offset, b64_bytes(s@)) } else { FType::Never(offset, true, s@) },
    }
}
impl AccountFilterType {
    pub open spec fn ftype(&self) -> FType {
        match self { AccountFilterType::Datasize(n) => FType::Size(*n), AccountFilterType::Memcmp(m) => mem_type(m.offset, m.data) }
    }
}
pub open spec fn allows_f(f: FType, data: Seq<u8>) -> bool {
    match f { FType::Size(n) => data.len() == n, FType::Mem(o, b) => mem_match(o, b, data), FType::Never(_, _, _) => false }
}
impl Clone for MemcmpFilterData {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

impl MemcmpFilter {
//@ fn MemcmpFilter::bytes ret=r
    ensures r is Some <==> self.data.valid(), r is Some ==> r->0@ == self.data.plain(),
//@ end
//@ fn MemcmpFilter::bytes_match ret=r
    ensures r == allows_f(mem_type(self.offset, self.data), data@),
//@ end
}
impl AccountFilterType {
//@ fn AccountFilterType::allows ret=r
    ensures r == allows_f(self.ftype(), account_data@),
//@ end
}
