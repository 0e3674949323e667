// ---- the account layouts of the token programs (dependencies: spl_token, spl_token_2022) --------
pub struct AnyError;
pub type AnyResult<T> = Result<T, AnyError>;
#[verifier::external_body]
pub fn vx_any_error() -> (r: AnyError) { unimplemented!() }
pub uninterp spec fn legacy_id() -> Pubkey;
pub uninterp spec fn new_id() -> Pubkey;
pub axiom fn axiom_ids() ensures legacy_id() != new_id();
#[verifier::external_body]
pub exec const SPL_TOKEN_ID: Pubkey ensures SPL_TOKEN_ID == legacy_id() { Pubkey([0u8; 32]) }
#[verifier::external_body]
pub exec const SPL_TOKEN_2022_ID: Pubkey ensures SPL_TOKEN_2022_ID == new_id() { Pubkey([0u8; 32]) }
#[verifier::external_body]
pub fn spl_token_id() -> (r: Pubkey) ensures r == legacy_id() { unimplemented!() }
#[verifier::external_body]
pub fn spl_token_2022_id() -> (r: Pubkey) ensures r == new_id() { unimplemented!() }

pub enum SplAccountState { Uninitialized, Initialized, Frozen }
pub enum Spl2022AccountState { Uninitialized, Initialized, Frozen }
pub struct SplTokenAccount { pub mint: Pubkey, pub owner: Pubkey, pub amount: u64, pub delegate: Option<Pubkey>, pub state: SplAccountState, pub is_native: Option<u64>, pub delegated_amount: u64, pub close_authority: Option<Pubkey> }
pub struct SplToken2022Account { pub mint: Pubkey, pub owner: Pubkey, pub amount: u64, pub delegate: Option<Pubkey>, pub state: Spl2022AccountState, pub is_native: Option<u64>, pub delegated_amount: u64, pub close_authority: Option<Pubkey> }
pub struct SplTokenMint { pub mint_authority: Option<Pubkey>, pub supply: u64, pub decimals: u8, pub is_initialized: bool, pub freeze_authority: Option<Pubkey> }
pub struct SplToken2022Mint { pub mint_authority: Option<Pubkey>, pub supply: u64, pub decimals: u8, pub is_initialized: bool, pub freeze_authority: Option<Pubkey> }
pub const MAX_SIGNERS: usize = 11;
pub struct SplTokenMultisig { pub m: u8, pub n: u8, pub is_initialized: bool, pub signers: [Pubkey; 11] }
pub struct SplToken2022Multisig { pub m: u8, pub n: u8, pub is_initialized: bool, pub signers: [Pubkey; 11] }

// what the bytes of an account say
pub ghost struct TokView { pub mint: Pubkey, pub owner: Pubkey, pub amount: u64, pub delegate: Option<Pubkey>, pub state: TokenProgramAccountState, pub is_native: Option<u64>, pub delegated_amount: u64, pub close_authority: Option<Pubkey> }
pub ghost struct MintView { pub mint_authority: Option<Pubkey>, pub supply: u64, pub decimals: u8, pub is_initialized: bool, pub freeze_authority: Option<Pubkey> }
pub ghost struct MultiView { pub m: u8, pub n: u8, pub is_initialized: bool, pub signers: Seq<Pubkey> }
pub uninterp spec fn tok_bytes(v: TokView) -> Seq<u8>;
pub uninterp spec fn tok_ok(d: Seq<u8>) -> bool;
pub uninterp spec fn tok_read(d: Seq<u8>) -> TokView;
pub uninterp spec fn mint_bytes(v: MintView) -> Seq<u8>;
pub uninterp spec fn mint_ok(d: Seq<u8>) -> bool;
pub uninterp spec fn mint_read(d: Seq<u8>) -> MintView;
pub uninterp spec fn multi_bytes(v: MultiView) -> Seq<u8>;
pub uninterp spec fn multi_ok(d: Seq<u8>) -> bool;
pub uninterp spec fn multi_read(d: Seq<u8>) -> MultiView;
// the layouts: lengths, and where the mint and the owner of a token account are
pub broadcast axiom fn axiom_tok(v: TokView)
    ensures (#[trigger] tok_bytes(v)).len() == 165, tok_ok(tok_bytes(v)), tok_read(tok_bytes(v)) == v,
        tok_bytes(v).subrange(0, 32) == v.mint.0@, tok_bytes(v).subrange(32, 64) == v.owner.0@;
pub broadcast axiom fn axiom_mint(v: MintView)
    ensures (#[trigger] mint_bytes(v)).len() == 82, mint_ok(mint_bytes(v)), mint_read(mint_bytes(v)) == v;
pub broadcast axiom fn axiom_multi(v: MultiView)
    ensures (#[trigger] multi_bytes(v)).len() == 355, v.signers.len() == 11 ==> multi_ok(multi_bytes(v)) && multi_read(multi_bytes(v)) == v;
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub broadcast proof fn lemma_add_none(s: Seq<u8>, t: Seq<u8>)
    requires t.len() == 0,
    ensures #[trigger] (s + t) == s,
{ assert(s + t =~= s); }
pub broadcast proof fn lemma_skip_zeros(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0u8,
    ensures #[trigger] s.skip(n) == zeros((s.len() - n) as nat),
{ assert(s.skip(n) =~= zeros((s.len() - n) as nat)); }
pub broadcast proof fn lemma_take_all(s: Seq<u8>, n: int)
    requires n == s.len(),
    ensures #[trigger] s.take(n) == s,
{ assert(s.take(n) =~= s); }
pub proof fn lemma_two(s: Seq<u8>, a: int)
    requires 0 <= a <= s.len(),
    ensures s.take(a) + s.subrange(a, s.len() as int) == s,
{ assert(s.take(a) + s.subrange(a, s.len() as int) =~= s); }
pub proof fn lemma_three(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures s.take(a) + s.subrange(a, b) + s.subrange(b, s.len() as int) == s,
{ assert(s.take(a) + s.subrange(a, b) + s.subrange(b, s.len() as int) =~= s); }

impl SplAccountState { pub open spec fn st(&self) -> TokenProgramAccountState { match self { SplAccountState::Uninitialized => TokenProgramAccountState::Uninitialized, SplAccountState::Initialized => TokenProgramAccountState::Initialized, SplAccountState::Frozen => TokenProgramAccountState::Frozen } } }
impl Spl2022AccountState { pub open spec fn st(&self) -> TokenProgramAccountState { match self { Spl2022AccountState::Uninitialized => TokenProgramAccountState::Uninitialized, Spl2022AccountState::Initialized => TokenProgramAccountState::Initialized, Spl2022AccountState::Frozen => TokenProgramAccountState::Frozen } } }
impl SplTokenAccount {
    pub const LEN: usize = 165;
    pub open spec fn vw(&self) -> TokView { TokView { mint: self.mint, owner: self.owner, amount: self.amount, delegate: self.delegate, state: self.state.st(), is_native: self.is_native, delegated_amount: self.delegated_amount, close_authority: self.close_authority } }
    #[verifier::external_body]
    pub fn get_packed_len() -> (r: usize) ensures r == 165 { unimplemented!() }
    #[verifier::external_body]
    pub fn unpack_unchecked(d: &[u8]) -> (r: AnyResult<SplTokenAccount>) ensures r is Ok == (d@.len() == 165 && tok_ok(d@)), r is Ok ==> r->Ok_0.vw() == tok_read(d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pack_into_slice(&self, d: &mut Vec<u8>) requires old(d)@.len() >= 165, ensures final(d)@.len() == old(d)@.len(), (forall|i: int| 0 <= i < 165 ==> #[trigger] old(d)@[i] == 0u8) ==> final(d)@ == tok_bytes(self.vw()) + old(d)@.skip(165) { unimplemented!() }
}
impl SplToken2022Account {
    pub const LEN: usize = 165;
    pub open spec fn vw(&self) -> TokView { TokView { mint: self.mint, owner: self.owner, amount: self.amount, delegate: self.delegate, state: self.state.st(), is_native: self.is_native, delegated_amount: self.delegated_amount, close_authority: self.close_authority } }
    #[verifier::external_body]
    pub fn get_packed_len() -> (r: usize) ensures r == 165 { unimplemented!() }
    #[verifier::external_body]
    pub fn unpack_unchecked(d: &[u8]) -> (r: AnyResult<SplToken2022Account>) ensures r is Ok == (d@.len() == 165 && tok_ok(d@)), r is Ok ==> r->Ok_0.vw() == tok_read(d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pack_into_slice(&self, d: &mut Vec<u8>) requires old(d)@.len() >= 165, ensures final(d)@.len() == old(d)@.len(), (forall|i: int| 0 <= i < 165 ==> #[trigger] old(d)@[i] == 0u8) ==> final(d)@ == tok_bytes(self.vw()) + old(d)@.skip(165) { unimplemented!() }
}
impl SplTokenMint {
    pub const LEN: usize = 82;
    pub open spec fn vw(&self) -> MintView { MintView { mint_authority: self.mint_authority, supply: self.supply, decimals: self.decimals, is_initialized: self.is_initialized, freeze_authority: self.freeze_authority } }
    #[verifier::external_body]
    pub fn unpack_unchecked(d: &[u8]) -> (r: AnyResult<SplTokenMint>) ensures r is Ok == (d@.len() == 82 && mint_ok(d@)), r is Ok ==> r->Ok_0.vw() == mint_read(d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pack_into_slice(&self, d: &mut Vec<u8>) requires old(d)@.len() >= 82, ensures final(d)@.len() == old(d)@.len(), (forall|i: int| 0 <= i < 82 ==> #[trigger] old(d)@[i] == 0u8) ==> final(d)@ == mint_bytes(self.vw()) + old(d)@.skip(82) { unimplemented!() }
}
impl SplToken2022Mint {
    pub const LEN: usize = 82;
    pub open spec fn vw(&self) -> MintView { MintView { mint_authority: self.mint_authority, supply: self.supply, decimals: self.decimals, is_initialized: self.is_initialized, freeze_authority: self.freeze_authority } }
    #[verifier::external_body]
    pub fn unpack_unchecked(d: &[u8]) -> (r: AnyResult<SplToken2022Mint>) ensures r is Ok == (d@.len() == 82 && mint_ok(d@)), r is Ok ==> r->Ok_0.vw() == mint_read(d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pack_into_slice(&self, d: &mut Vec<u8>) requires old(d)@.len() >= 82, ensures final(d)@.len() == old(d)@.len(), (forall|i: int| 0 <= i < 82 ==> #[trigger] old(d)@[i] == 0u8) ==> final(d)@ == mint_bytes(self.vw()) + old(d)@.skip(82) { unimplemented!() }
}
impl SplTokenMultisig {
    pub const LEN: usize = 355;
    pub open spec fn vw(&self) -> MultiView { MultiView { m: self.m, n: self.n, is_initialized: self.is_initialized, signers: self.signers@ } }
    #[verifier::external_body]
    pub fn unpack_unchecked(d: &[u8]) -> (r: AnyResult<SplTokenMultisig>) ensures r is Ok == (d@.len() == 355 && multi_ok(d@)), r is Ok ==> r->Ok_0.vw() == multi_read(d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pack_into_slice(&self, d: &mut Vec<u8>) requires old(d)@.len() >= 355, ensures final(d)@ == multi_bytes(self.vw()) + old(d)@.skip(355) { unimplemented!() }
}
impl SplToken2022Multisig {
    pub const LEN: usize = 355;
    pub open spec fn vw(&self) -> MultiView { MultiView { m: self.m, n: self.n, is_initialized: self.is_initialized, signers: self.signers@ } }
    #[verifier::external_body]
    pub fn unpack_unchecked(d: &[u8]) -> (r: AnyResult<SplToken2022Multisig>) ensures r is Ok == (d@.len() == 355 && multi_ok(d@)), r is Ok ==> r->Ok_0.vw() == multi_read(d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pack_into_slice(&self, d: &mut Vec<u8>) requires old(d)@.len() >= 355, ensures final(d)@ == multi_bytes(self.vw()) + old(d)@.skip(355) { unimplemented!() }
}
pub struct Rent;
impl Rent {
    #[verifier::external_body]
    pub fn default() -> (r: Rent) { unimplemented!() }
    #[verifier::external_body]
    pub fn minimum_balance(&self, n: usize) -> (r: u64) { unimplemented!() }
}
// ---- plain values -------------------------------------------------------------------------------
pub trait VxDefault: Sized { spec fn dflt(r: Self) -> bool; fn vx_default_of() -> (r: Self) ensures Self::dflt(r); }
impl VxDefault for (Pubkey, u64) {
    open spec fn dflt(r: Self) -> bool { r == (default_pk(), 0u64) }
    #[verifier::external_body]
    fn vx_default_of() -> (r: Self) { unimplemented!() }
}
pub fn vx_default<T: VxDefault>() -> (r: T) ensures T::dflt(r) { T::vx_default_of() }
impl<T> VxConv<Option<T>> for Option<T> {
    open spec fn conv(self, r: Option<T>) -> bool { r == self }
    fn vx_conv(self) -> (r: Option<T>) { self }
}
#[verifier::external_body]
pub fn vx_copy_prefix<T: Copy, const N: usize>(a: &mut [T; N], n: usize, b: &Vec<T>)
    requires n <= N, b@.len() == n,
    ensures final(a)@ == b@ + old(a)@.skip(n as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_opt_slice_eq<const N: usize>(a: Option<&[u8]>, b: &[u8; N]) -> (r: bool) ensures r == (a is Some && a->0@ == b@) { unimplemented!() }
impl Pubkey {
    #[verifier::external_body]
    pub fn try_from(s: &[u8]) -> (r: Result<Pubkey, AnyError>) ensures r is Ok == (s@.len() == 32), r is Ok ==> r->Ok_0.0@ == s@ { unimplemented!() }
}
pub const PUBKEY_BYTES: usize = 32;
pub trait VxAtomic<T> {
    spec fn cur(&self) -> T;
    spec fn inc(a: T, b: T) -> T;
    spec fn big(a: T, b: T) -> T;
    fn vx_load(&self) -> (r: T) ensures r == self.cur();
    fn vx_store(&mut self, v: T) ensures final(self).cur() == v;
    fn vx_fetch_add(&mut self, v: T) -> (r: T) ensures r == old(self).cur(), final(self).cur() == Self::inc(old(self).cur(), v);
    fn vx_fetch_max(&mut self, v: T) -> (r: T) ensures r == old(self).cur(), final(self).cur() == Self::big(old(self).cur(), v);
}
impl VxAtomic<u32> for u32 {
    open spec fn cur(&self) -> u32 { *self }
    open spec fn inc(a: u32, b: u32) -> u32 { vstd::wrapping::u32_specs::wrapping_add(a, b) }
    open spec fn big(a: u32, b: u32) -> u32 { if a < b { b } else { a } }
    fn vx_load(&self) -> (r: u32) { *self }
    fn vx_store(&mut self, v: u32) { *self = v; }
    fn vx_fetch_add(&mut self, v: u32) -> (r: u32) { let r = *self; *self = r.wrapping_add(v); r }
    fn vx_fetch_max(&mut self, v: u32) -> (r: u32) { let r = *self; if r < v { *self = v; } r }
}
impl VxAtomic<u64> for u64 {
    open spec fn cur(&self) -> u64 { *self }
    open spec fn inc(a: u64, b: u64) -> u64 { vstd::wrapping::u64_specs::wrapping_add(a, b) }
    open spec fn big(a: u64, b: u64) -> u64 { if a < b { b } else { a } }
    fn vx_load(&self) -> (r: u64) { *self }
    fn vx_store(&mut self, v: u64) { *self = v; }
    fn vx_fetch_add(&mut self, v: u64) -> (r: u64) { let r = *self; *self = r.wrapping_add(v); r }
    fn vx_fetch_max(&mut self, v: u64) -> (r: u64) { let r = *self; if r < v { *self = v; } r }
}
