//@ file common/src/commitment.rs
//@ enum Commitment derive(Clone,Copy,PartialEq,Eq,Structural) rank
//@ file common/src/account_data.rs
//@ enum Data
//@ struct Account
//@ struct AccountData
//@ file common/src/account_filter.rs
//@ enum MemcmpFilterData
//@ struct MemcmpFilter
//@ enum AccountFilterType

// the derived order of the commitments: that of the variants as they stand in the source
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Commitment {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Commitment) -> Option<core::cmp::Ordering> {
        if self.rank() < o.rank() { Some(core::cmp::Ordering::Less) } else if self.rank() == o.rank() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for Commitment {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Commitment) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
impl Commitment {
    #[verifier::external_body]
    pub fn max(self, o: Commitment) -> (r: Commitment) ensures r == (if o.rank() >= self.rank() { o } else { self }) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Commitment) -> (r: Commitment) ensures r == (if o.rank() < self.rank() { o } else { self }) { unimplemented!() }
}
proof fn lemma_commitments_ordered()
    ensures Commitment::Processed.rank() < Commitment::Confirmed.rank() < Commitment::Finalized.rank(),
{}
impl Clone for AccountData {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- compression libraries (dependencies): decompressing what was compressed gives it back ----
pub uninterp spec fn lz4_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn lz4_plain(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn zstd_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn zstd_plain(b: Seq<u8>) -> Seq<u8>;
#[derive(Debug)]
pub struct IoError;
pub enum CompressionMode { HIGHCOMPRESSION(i32), FAST(i32), DEFAULT }
#[verifier::external_body]
pub fn lz4_compress(d: &[u8], mode: Option<CompressionMode>, prepend_size: bool) -> (r: Result<Vec<u8>, IoError>)
    ensures r is Ok, prepend_size ==> lz4_ok(r->Ok_0@) && lz4_plain(r->Ok_0@) == d@,
{ unimplemented!() }
#[verifier::external_body]
pub fn lz4_decompress(b: &[u8], size: Option<i32>) -> (r: Result<Vec<u8>, IoError>)
    ensures size is None && lz4_ok(b@) ==> r is Ok && r->Ok_0@ == lz4_plain(b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn zstd_compress(d: &[u8], level: i32) -> (r: Result<Vec<u8>, IoError>)
    ensures r is Ok, zstd_ok(r->Ok_0@), zstd_plain(r->Ok_0@) == d@,
{ unimplemented!() }
#[verifier::external_body]
pub fn zstd_decompress(b: &[u8], capacity: usize) -> (r: Result<Vec<u8>, IoError>)
    ensures zstd_ok(b@) && zstd_plain(b@).len() <= capacity ==> r is Ok && r->Ok_0@ == zstd_plain(b@),
{ unimplemented!() }

//@ file common/src/account_data.rs
//@ const MAX_ACCOUNT_SIZE
//@ enum CompressionMethod
// the uncompressed content an account data container stands for
impl Data {
    pub open spec fn plain(&self) -> Seq<u8> {
        match self {
            Data::Uncompressed(d) => d@,
            Data::Lz4 { binary, len } => lz4_plain(binary@),
            Data::Zstd { binary, len } => zstd_plain(binary@),
        }
    }
    pub open spec fn ok(&self) -> bool {
        match self {
            Data::Uncompressed(d) => true,
            Data::Lz4 { binary, len } => lz4_ok(binary@) && len == lz4_plain(binary@).len(),
            Data::Zstd { binary, len } => zstd_ok(binary@) && len == zstd_plain(binary@).len() && len <= 64 * 1024 * 1024,
        }
    }
//@ fn Data::new ret=r
    requires compression_method is Zstd ==> data@.len() <= 64 * 1024 * 1024,
    ensures r.ok(), r.plain() == data@,
        compression_method is None ==> r is Uncompressed,
//@ end
//@ fn Data::len ret=r
    requires self.ok(),
    ensures r == self.plain().len(),
//@ end
//@ fn Data::is_empty ret=r
    requires self.ok(),
    ensures r == (self.plain().len() == 0),
//@ end
//@ fn Data::data ret=r
    requires self.ok(),
    ensures r@ == self.plain(),
//@ end
}
