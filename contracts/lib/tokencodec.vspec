// ---- byte conversions (dependencies: core, arrayref, solana_sdk) ------------------------------
pub trait VxLe: Sized {
    type Arr;
    fn vx_to_le(self) -> (r: Self::Arr) ensures self.le_enc(r);
    fn vx_from_le(x: Self::Arr) -> (r: Self) ensures Self::le_dec(x, r);
    spec fn le_enc(self, r: Self::Arr) -> bool;
    spec fn le_dec(x: Self::Arr, r: Self) -> bool;
}
pub open spec fn le32_of(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8] }
pub open spec fn le32(s: Seq<u8>) -> u32 { (s[0] as u32) | (s[1] as u32) << 8 | (s[2] as u32) << 16 | (s[3] as u32) << 24 }
impl VxLe for u32 {
    type Arr = [u8; 4];
    open spec fn le_enc(self, r: [u8; 4]) -> bool { r@ == le32_of(self) }
    open spec fn le_dec(x: [u8; 4], r: u32) -> bool { r == le32(x@) }
    #[verifier::external_body]
    fn vx_to_le(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le(x: [u8; 4]) -> (r: u32) { u32::from_le_bytes(x) }
}
impl VxLe for u64 {
    type Arr = [u8; 8];
    open spec fn le_enc(self, r: [u8; 8]) -> bool { r@ == vstd::bytes::spec_u64_to_le_bytes(self) }
    open spec fn le_dec(x: [u8; 8], r: u64) -> bool { r == vstd::bytes::spec_u64_from_le_bytes(x@) }
    #[verifier::external_body]
    fn vx_to_le(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le(x: [u8; 8]) -> (r: u64) { u64::from_le_bytes(x) }
}
#[verifier::external_body]
pub fn vx_to_array<const N: usize>(s: &[u8]) -> (r: [u8; N]) requires s@.len() == N, ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_array_ref<'a, const N: usize>(s: &'a [u8]) -> (r: &'a [u8; N]) requires s@.len() == N, ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_aref<'a, const N: usize>(s: &'a [u8], o: usize) -> (r: &'a [u8; N]) requires o + N <= s@.len(), ensures r@ == s@.subrange(o as int, o + N) { unimplemented!() }
impl Pubkey {
    #[verifier::external_body]
    pub fn to_bytes(self) -> (r: [u8; 32]) ensures r == self.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new_from_array(a: [u8; 32]) -> (r: Pubkey) ensures r.0 == a { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Pubkey) ensures r == default_pk() { unimplemented!() }
}
pub uninterp spec fn default_pk() -> Pubkey;
proof fn lemma_pk_ext(a: Pubkey, b: Pubkey)
    requires a.0@ =~= b.0@,
    ensures a == b,
{
    assert(a.0 =~= b.0);
}

//@ file token_account_storage/src/account_types.rs
//@ type MintIndex
//@ type TokenAccountIndex
//@ enum Program derive(Clone,Copy,PartialEq,Eq,Structural)
//@ enum TokenProgramAccountState derive(Clone,Copy,PartialEq,Eq,Structural)
//@ struct TokenAccount
//@ const INITIALIZED_STATE_BITS
//@ const FROZEN_STATE_BITS
//@ const UNITITIALIZED_STATE_BITS

// ---- specification: contents -----------------------------------------------------------------
impl TokenAccount {
    // the lengths the encoding can express
    pub open spec fn wf(&self) -> bool { self.additional_data is Some ==> self.additional_data->0@.len() <= u32::MAX }
    // equality of the contents
    pub open spec fn eqv(&self, o: TokenAccount) -> bool {
        &&& self.program == o.program && self.is_deleted == o.is_deleted && self.pubkey == o.pubkey && self.owner == o.owner
        &&& self.mint == o.mint && self.amount == o.amount && self.state == o.state && self.delegate == o.delegate
        &&& self.is_native == o.is_native && self.close_authority == o.close_authority
        &&& match (self.additional_data, o.additional_data) { (None, None) => true, (Some(a), Some(b)) => a@ == b@, _ => false }
    }
}
proof fn lemma_le()
    ensures
        forall|x: u32| (#[trigger] le32_of(x)).len() == 4 && le32(le32_of(x)) == x,
        forall|x: u64| (#[trigger] vstd::bytes::spec_u64_to_le_bytes(x)).len() == 8 && vstd::bytes::spec_u64_from_le_bytes(vstd::bytes::spec_u64_to_le_bytes(x)) == x,
{
    assert forall|x: u32| (#[trigger] le32_of(x)).len() == 4 && le32(le32_of(x)) == x by {
        assert(x == ((x & 0xff) as u8 as u32) | ((((x >> 8) & 0xff) as u8) as u32) << 8 | ((((x >> 16) & 0xff) as u8) as u32) << 16 | ((((x >> 24) & 0xff) as u8) as u32) << 24) by (bit_vector);
    }
    assert forall|x: u64| (#[trigger] vstd::bytes::spec_u64_to_le_bytes(x)).len() == 8 && vstd::bytes::spec_u64_from_le_bytes(vstd::bytes::spec_u64_to_le_bytes(x)) == x by {
        vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes();
    }
}
// ---- specification: what a byte sequence stands for -------------------------------------------
#[verifier::opaque]
pub open spec fn bit(x: u8, k: u8) -> bool { (x >> k) & 1 == 1 }
pub open spec fn has_delegate(v: Seq<u8>) -> bool { bit(v[0], 4) }
pub open spec fn has_native(v: Seq<u8>) -> bool { bit(v[0], 5) }
pub open spec fn has_close(v: Seq<u8>) -> bool { bit(v[0], 6) }
pub open spec fn has_more(v: Seq<u8>) -> bool { bit(v[0], 7) }
pub open spec fn off_native(v: Seq<u8>) -> int { 78 + if has_delegate(v) { 40int } else { 0 } }
pub open spec fn off_close(v: Seq<u8>) -> int { off_native(v) + if has_native(v) { 8int } else { 0 } }
pub open spec fn off_more(v: Seq<u8>) -> int { off_close(v) + if has_close(v) { 32int } else { 0 } }
pub open spec fn le64(s: Seq<u8>) -> u64 { vstd::bytes::spec_u64_from_le_bytes(s) }
pub open spec fn dec_ok(v: Seq<u8>) -> bool {
    &&& v.len() >= 78 && !(bit(v[0], 2) && bit(v[0], 3)) && v[1] <= 1
    &&& v.len() >= off_more(v)
    &&& has_more(v) ==> v.len() >= off_more(v) + 4 && v.len() >= off_more(v) + 4 + le32(v.subrange(off_more(v), off_more(v) + 4))
}
pub open spec fn dec_flags(v: Seq<u8>, r: TokenAccount) -> bool {
    &&& (r.program == Program::Token2022Program) == bit(v[0], 0)
    &&& r.state == (if !bit(v[0], 2) && !bit(v[0], 3) { TokenProgramAccountState::Initialized } else if bit(v[0], 2) { TokenProgramAccountState::Frozen } else { TokenProgramAccountState::Uninitialized })
    &&& r.is_deleted == (v[1] == 1)
}
pub open spec fn dec_head(v: Seq<u8>, r: TokenAccount) -> bool {
    r.pubkey.0@ == v.subrange(2, 34) && r.owner.0@ == v.subrange(34, 66) && r.mint == le32(v.subrange(66, 70)) && r.amount == le64(v.subrange(70, 78))
}
pub open spec fn dec_delegate(v: Seq<u8>, r: TokenAccount) -> bool {
    &&& r.delegate is Some == has_delegate(v)
    &&& has_delegate(v) ==> (r.delegate->0).0.0@ == v.subrange(78, 110) && (r.delegate->0).1 == le64(v.subrange(110, 118))
}
pub open spec fn dec_native(v: Seq<u8>, r: TokenAccount) -> bool {
    &&& r.is_native is Some == has_native(v)
    &&& has_native(v) ==> r.is_native->0 == le64(v.subrange(off_native(v), off_native(v) + 8))
}
pub open spec fn dec_close(v: Seq<u8>, r: TokenAccount) -> bool {
    &&& r.close_authority is Some == has_close(v)
    &&& has_close(v) ==> (r.close_authority->0).0@ == v.subrange(off_close(v), off_close(v) + 32)
}
pub open spec fn dec_more(v: Seq<u8>, r: TokenAccount) -> bool {
    &&& r.additional_data is Some == has_more(v)
    &&& has_more(v) ==> r.additional_data->0@ == v.subrange(off_more(v) + 4, off_more(v) + 4 + le32(v.subrange(off_more(v), off_more(v) + 4)))
}
pub open spec fn decodes(v: Seq<u8>, r: TokenAccount) -> bool {
    dec_flags(v, r) && dec_head(v, r) && dec_delegate(v, r) && dec_native(v, r) && dec_close(v, r) && dec_more(v, r)
}
// C09: a byte sequence stands for one content only, so decoding an encoded account gives its contents back
proof fn lemma_codec(v: Seq<u8>, a: TokenAccount, r: TokenAccount)
    requires decodes(v, a), decodes(v, r),
    ensures r.eqv(a),
{
    lemma_pk_ext(r.pubkey, a.pubkey);
    lemma_pk_ext(r.owner, a.owner);
    if a.delegate is Some { lemma_pk_ext((r.delegate->0).0, (a.delegate->0).0); assert(r.delegate->0 == a.delegate->0); }
    if a.close_authority is Some { lemma_pk_ext(r.close_authority->0, a.close_authority->0); }
}
// what shifts and masks of the flag byte give, whatever the order they are applied in
proof fn lemma_bits()
    ensures
        forall|x: u8, y: u8, k: u8| k < 8 ==> #[trigger] bit(x | y, k) == (bit(x, k) || bit(y, k)),
        forall|k: u8| k < 8 ==> !#[trigger] bit(0, k),
        forall|k: u8| k < 8 ==> #[trigger] bit(1, k) == (k == 0),
        forall|k: u8| k < 8 ==> #[trigger] bit(4, k) == (k == 2),
        forall|k: u8| k < 8 ==> #[trigger] bit(8, k) == (k == 3),
        forall|k: u8| k < 8 ==> #[trigger] bit(16, k) == (k == 4),
        forall|k: u8| k < 8 ==> #[trigger] bit(32, k) == (k == 5),
        forall|k: u8| k < 8 ==> #[trigger] bit(64, k) == (k == 6),
        forall|k: u8| k < 8 ==> #[trigger] bit(128, k) == (k == 7),
        0u8 << 2 == 0u8, 1u8 << 2 == 4u8, 2u8 << 2 == 8u8, 1u8 << 4 == 16u8, 1u8 << 5 == 32u8, 1u8 << 6 == 64u8, 1u8 << 7 == 128u8,
        forall|x: u8| (#[trigger] (x & 1) == 1) == bit(x, 0) && (x & 1 == 0) == !bit(x, 0),
        forall|x: u8| (#[trigger] ((x >> 2) & 3) == 0) == (!bit(x, 2) && !bit(x, 3)) && ((x >> 2) & 3 == 1) == (bit(x, 2) && !bit(x, 3))
            && ((x >> 2) & 3 == 2) == (!bit(x, 2) && bit(x, 3)),
        forall|x: u8, k: u8| k < 8 ==> (#[trigger] ((x >> k) & 1) == 1) == bit(x, k),
{
    reveal(bit);
    assert(0u8 << 2 == 0u8 && 1u8 << 2 == 4u8 && 2u8 << 2 == 8u8 && 1u8 << 4 == 16u8 && 1u8 << 5 == 32u8 && 1u8 << 6 == 64u8 && 1u8 << 7 == 128u8) by (bit_vector);
    assert forall|x: u8, y: u8, k: u8| k < 8 implies #[trigger] bit(x | y, k) == (bit(x, k) || bit(y, k)) by {
        assert(k < 8 ==> ((((x | y) >> k) & 1 == 1) == ((x >> k) & 1 == 1 || (y >> k) & 1 == 1))) by (bit_vector);
    }
    assert forall|k: u8| k < 8 implies !#[trigger] bit(0, k) by { assert(k < 8 ==> ((0u8 >> k) & 1 == 1) == false) by (bit_vector); }
    assert forall|k: u8| k < 8 implies #[trigger] bit(1, k) == (k == 0) by { assert(k < 8 ==> ((1u8 >> k) & 1 == 1) == (k == 0)) by (bit_vector); }
    assert forall|k: u8| k < 8 implies #[trigger] bit(4, k) == (k == 2) by { assert(k < 8 ==> ((4u8 >> k) & 1 == 1) == (k == 2)) by (bit_vector); }
    assert forall|k: u8| k < 8 implies #[trigger] bit(8, k) == (k == 3) by { assert(k < 8 ==> ((8u8 >> k) & 1 == 1) == (k == 3)) by (bit_vector); }
    assert forall|k: u8| k < 8 implies #[trigger] bit(16, k) == (k == 4) by { assert(k < 8 ==> ((16u8 >> k) & 1 == 1) == (k == 4)) by (bit_vector); }
    assert forall|k: u8| k < 8 implies #[trigger] bit(32, k) == (k == 5) by { assert(k < 8 ==> ((32u8 >> k) & 1 == 1) == (k == 5)) by (bit_vector); }
    assert forall|k: u8| k < 8 implies #[trigger] bit(64, k) == (k == 6) by { assert(k < 8 ==> ((64u8 >> k) & 1 == 1) == (k == 6)) by (bit_vector); }
    assert forall|k: u8| k < 8 implies #[trigger] bit(128, k) == (k == 7) by { assert(k < 8 ==> ((128u8 >> k) & 1 == 1) == (k == 7)) by (bit_vector); }
    assert forall|x: u8| (#[trigger] (x & 1) == 1) == bit(x, 0) && (x & 1 == 0) == !bit(x, 0) by {
        assert((x & 1 == 1) == ((x >> 0) & 1 == 1) && (x & 1 == 0) == !((x >> 0) & 1 == 1)) by (bit_vector);
    }
    assert forall|x: u8| (#[trigger] ((x >> 2) & 3) == 0) == (!bit(x, 2) && !bit(x, 3)) && ((x >> 2) & 3 == 1) == (bit(x, 2) && !bit(x, 3))
            && ((x >> 2) & 3 == 2) == (!bit(x, 2) && bit(x, 3)) by {
        assert((((x >> 2) & 3) == 0) == (!((x >> 2) & 1 == 1) && !((x >> 3) & 1 == 1)) && ((x >> 2) & 3 == 1) == ((x >> 2) & 1 == 1 && !((x >> 3) & 1 == 1))
            && ((x >> 2) & 3 == 2) == (!((x >> 2) & 1 == 1) && (x >> 3) & 1 == 1)) by (bit_vector);
    }
}
pub broadcast proof fn lemma_sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}

pub broadcast proof fn lemma_add_sub_left(s: Seq<u8>, t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures #[trigger] (s + t).subrange(a, b) == s.subrange(a, b),
{
    assert((s + t).subrange(a, b) =~= s.subrange(a, b));
}
pub broadcast proof fn lemma_add_sub_right(s: Seq<u8>, t: Seq<u8>, a: int, b: int)
    requires s.len() <= a <= b <= s.len() + t.len(),
    ensures #[trigger] (s + t).subrange(a, b) == t.subrange(a - s.len(), b - s.len()),
{
    assert((s + t).subrange(a, b) =~= t.subrange(a - s.len(), b - s.len()));
}
pub broadcast proof fn lemma_sub_full(s: Seq<u8>, b: int)
    requires b == s.len(),
    ensures #[trigger] s.subrange(0, b) == s,
{
    assert(s.subrange(0, b) =~= s);
}

// the key of an encoded account
pub open spec fn is_key(v: Seq<u8>, pk: Pubkey) -> bool { pk.0@ == v.subrange(2, 34) }
pub open spec fn key_of(v: Seq<u8>) -> Pubkey { choose|pk: Pubkey| is_key(v, pk) }
pub broadcast proof fn lemma_key(v: Seq<u8>, pk: Pubkey)
    requires #[trigger] is_key(v, pk),
    ensures key_of(v) == pk,
{
    lemma_pk_ext(key_of(v), pk);
}

impl TokenAccount {
//@ fn TokenAccount::to_bytes ret=r attr=verifier::rlimit(400) attr=verifier::spinoff_prover
    requires self.wf(),
    ensures dec_ok(r@), !bit(r@[0], 1), dec_flags(r@, *self), dec_head(r@, *self), dec_delegate(r@, *self), dec_native(r@, *self), dec_close(r@, *self), dec_more(r@, *self),
//@ start
    broadcast use lemma_add_sub_left, lemma_add_sub_right, lemma_sub_full;
    proof { lemma_le(); lemma_bits(); }
//@ end
//@ fn TokenAccount::from_bytes ret=r attr=verifier::rlimit(400) attr=verifier::spinoff_prover
    requires dec_ok(v@),
    ensures dec_flags(v@, r), dec_head(v@, r), dec_delegate(v@, r), dec_native(v@, r), dec_close(v@, r), dec_more(v@, r),
//@ start
    broadcast use lemma_sub_sub;
    proof { lemma_bits(); }
//@ end
//@ fn TokenAccount::get_pubkey_from_binary ret=r
    requires binary@.len() >= 78,
    ensures r.0@ == binary@.subrange(2, 34), is_key(binary@, r), key_of(binary@) == r,
//@ start
    broadcast use lemma_key;
//@ end
//@ fn TokenAccount::get_owner_from_binary ret=r
    requires binary@.len() >= 78,
    ensures r.0@ == binary@.subrange(34, 66),
//@ end
//@ fn TokenAccount::get_mint_index_from_binary ret=r
    requires binary@.len() >= 78,
    ensures r == le32(binary@.subrange(66, 70)),
//@ end
}
