//@ mutarg get_or_create_mint_index 2,3,4
//@ file token_account_storage/src/account_types.rs
impl MintAccount {
    // a mint account is stored (otherwise only its pubkey is known)
    pub open spec fn is_there(&self) -> bool { self.lamports > 0 }
    pub open spec fn vw(&self) -> MintView { MintView { mint_authority: self.mint_authority, supply: self.supply, decimals: self.decimals, is_initialized: self.is_initialized, freeze_authority: self.freeze_authority } }
    // the bytes of the account
    pub open spec fn bytes(&self) -> Seq<u8> {
        if self.program is Token2022Program && self.additional_data is Some { mint_bytes(self.vw()) + zeros(83) + self.additional_data->0@ } else { mint_bytes(self.vw()) }
    }
//@ fn MintAccount::not_existing ret=r
    ensures r.program == program, r.pubkey == pubkey, !r.is_there(),
//@ end
//@ fn MintAccount::exists ret=r
    ensures r == self.is_there(),
//@ end
}
// what follows the account proper begins with the type of the account
pub open spec fn tagged(more: Option<Seq<u8>>, tag: u8) -> bool { more is Some ==> (more->0).len() > 0 && (more->0)[0] == tag }
impl MintAccount {
    pub open spec fn tagged(&self) -> bool { self.additional_data is Some ==> tagged(Some(self.additional_data->0@), 1) }
}
pub open spec fn program_id_of(p: Program) -> Pubkey { if p is TokenProgram { legacy_id() } else { new_id() } }
pub open spec fn unused(n: nat) -> Seq<Pubkey> { Seq::new(n, |i: int| default_pk()) }
pub broadcast proof fn lemma_skip_unused(s: Seq<Pubkey>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == default_pk(),
    ensures #[trigger] s.skip(n) == unused((s.len() - n) as nat),
{ assert(s.skip(n) =~= unused((s.len() - n) as nat)); }
pub broadcast proof fn lemma_unpad(s: Seq<Pubkey>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> #[trigger] s[i] == default_pk(),
    ensures (#[trigger] s.take(k)) + unused((s.len() - k) as nat) == s,
{ assert(s.take(k) + unused((s.len() - k) as nat) =~= s); }
impl MultiSig {
    pub open spec fn wf(&self) -> bool { self.signers@.len() <= 11 }
    pub open spec fn padded(&self) -> Seq<Pubkey> { self.signers@ + unused((11 - self.signers@.len()) as nat) }
    pub open spec fn bytes(&self) -> Seq<u8> { multi_bytes(MultiView { m: self.m, n: self.n, is_initialized: self.is_initialized, signers: self.padded() }) }
}
impl TokenAccount {
    pub open spec fn vw(&self, mint: Pubkey) -> TokView {
        TokView { mint, owner: self.owner, amount: self.amount, delegate: if self.delegate is Some { Some((self.delegate->0).0) } else { None }, state: self.state, is_native: self.is_native,
            delegated_amount: if self.delegate is Some { (self.delegate->0).1 } else { 0 }, close_authority: self.close_authority }
    }
    pub open spec fn bytes(&self, mint: Pubkey) -> Seq<u8> {
        if self.program is Token2022Program && self.additional_data is Some { tok_bytes(self.vw(mint)) + self.additional_data->0@ } else { tok_bytes(self.vw(mint)) }
    }
}
// ---- the mints known to the storage: an index for every mint pubkey ----------------------------
pub ghost struct Mints { pub by_pk: Map<Pubkey, u32>, pub count: u32, pub by_ix: Map<u32, MintAccount> }
pub open spec fn mints(by_pk: Map<Pubkey, u32>, count: u32, by_ix: Map<u32, MintAccount>) -> Mints { Mints { by_pk, count, by_ix } }
impl Mints {
    #[verifier::opaque]
    pub open spec fn wf(self) -> bool {
        &&& forall|pk: Pubkey| #[trigger] self.by_pk.contains_key(pk) ==> self.by_pk[pk] < self.count && self.by_ix.contains_key(self.by_pk[pk]) && self.by_ix[self.by_pk[pk]].pubkey == pk
        &&& forall|i: u32| #[trigger] self.by_ix.contains_key(i) ==> i < self.count && self.by_pk.contains_key(self.by_ix[i].pubkey) && self.by_pk[self.by_ix[i].pubkey] == i
    }
    // an index stands for the same mint pubkey from then on; accounts are left as they are
    #[verifier::opaque]
    pub open spec fn grown(self, o: Mints) -> bool {
        &&& self.count <= o.count
        &&& forall|pk: Pubkey| #[trigger] self.by_pk.contains_key(pk) ==> o.by_pk.contains_key(pk) && o.by_pk[pk] == self.by_pk[pk]
        &&& forall|i: u32| #[trigger] self.by_ix.contains_key(i) ==> o.by_ix.contains_key(i) && o.by_ix[i] == self.by_ix[i]
        &&& forall|i: u32| #[trigger] o.by_ix.contains_key(i) && !self.by_ix.contains_key(i) ==> !o.by_ix[i].is_there()
    }
    pub open spec fn knows(self, i: u32) -> bool { self.by_ix.contains_key(i) }
    pub open spec fn key(self, i: u32) -> Pubkey { self.by_ix[i].pubkey }
}
// ---- what is stored of an account, and what it is shown as --------------------------------------
pub ghost struct Shown { pub pubkey: Pubkey, pub owner: Pubkey, pub data: Seq<u8> }
impl AccountData {
    pub open spec fn shown(&self) -> Shown { Shown { pubkey: self.pubkey, owner: self.account.owner, data: self.account.data.plain() } }
}
pub enum Kind { Token, Mint, Multi, Unknown }
pub open spec fn kind_of(owner: Pubkey, d: Seq<u8>) -> Kind {
    if d.len() == 82 { Kind::Mint } else if d.len() == 165 { Kind::Token } else if owner == legacy_id() || d.len() == 355 { Kind::Multi }
    else if d.len() > 165 && d[165] == 1 { Kind::Mint } else if d.len() > 165 && d[165] == 2 { Kind::Token } else { Kind::Unknown }
}
// data as the token programs write it: nothing but zeros where nothing is stored
pub open spec fn canonical(owner: Pubkey, d: Seq<u8>) -> bool {
    match kind_of(owner, d) {
        Kind::Token => tok_ok(d.take(165)) && tok_bytes(tok_read(d.take(165))) == d.take(165) && (tok_read(d.take(165)).delegate is None ==> tok_read(d.take(165)).delegated_amount == 0),
        Kind::Mint => mint_ok(d.take(82)) && mint_bytes(mint_read(d.take(82))) == d.take(82) && (d.len() > 82 ==> d.subrange(82, 165) == zeros(83)),
        Kind::Multi => d.len() == 355 && multi_ok(d) && multi_read(d).signers.len() == 11 && multi_bytes(multi_read(d)) == d,
        Kind::Unknown => false,
    }
}
impl TokenProgramAccountType {
    pub open spec fn key(&self) -> Pubkey {
        match self { TokenProgramAccountType::TokenAccount(a) => a.pubkey, TokenProgramAccountType::Mint(m) => m.pubkey, TokenProgramAccountType::MultiSig(_, pk) => *pk, TokenProgramAccountType::Deleted(pk) => *pk }
    }
    // the accounts the storage holds: the mint of a token account is known by its index
    pub open spec fn wf(&self, m: Mints) -> bool {
        match self {
            TokenProgramAccountType::TokenAccount(a) => m.knows(a.mint) && !a.is_deleted && a.wf() && tagged(a.st().more, 2),
            TokenProgramAccountType::Mint(a) => a.is_there() && a.tagged(),
            TokenProgramAccountType::MultiSig(s, pk) => s.wf() && s.pubkey == *pk,
            TokenProgramAccountType::Deleted(_) => true,
        }
    }
    pub open spec fn kind(&self) -> Kind {
        match self { TokenProgramAccountType::TokenAccount(a) => Kind::Token, TokenProgramAccountType::Mint(_) => Kind::Mint, TokenProgramAccountType::MultiSig(_, _) => Kind::Multi, TokenProgramAccountType::Deleted(_) => Kind::Unknown }
    }
    pub open spec fn program(&self) -> Program {
        match self { TokenProgramAccountType::TokenAccount(a) => a.program, TokenProgramAccountType::Mint(m) => m.program, TokenProgramAccountType::MultiSig(s, _) => s.program, TokenProgramAccountType::Deleted(_) => Program::TokenProgram }
    }
    pub open spec fn shown(&self, m: Mints) -> Option<Shown> {
        match self {
            TokenProgramAccountType::TokenAccount(a) => shown_token(*a, m),
            TokenProgramAccountType::Mint(a) => Some(shown_mint(*a)),
            TokenProgramAccountType::MultiSig(s, pk) => Some(shown_multi(*s, *pk)),
            TokenProgramAccountType::Deleted(_) => None,
        }
    }
}
pub open spec fn shown_token(a: TokenAccount, m: Mints) -> Option<Shown> {
    if a.is_deleted { None } else { Some(Shown { pubkey: a.pubkey, owner: program_id_of(a.program), data: a.bytes(m.key(a.mint)) }) }
}
pub open spec fn shown_mint(a: MintAccount) -> Shown { Shown { pubkey: a.pubkey, owner: program_id_of(a.program), data: a.bytes() } }
pub open spec fn shown_multi(s: MultiSig, pk: Pubkey) -> Shown { Shown { pubkey: pk, owner: program_id_of(s.program), data: s.bytes() } }
// the account is gone: no lamports, or it belongs to another program
pub open spec fn gone(ad: AccountData) -> bool { ad.account.lamports == 0 || (ad.account.owner != legacy_id() && ad.account.owner != new_id()) }
// C13: what an update says is what is stored
#[verifier::opaque]
pub open spec fn says(ad: AccountData, t: TokenProgramAccountType, m: Mints) -> bool {
    &&& t.key() == ad.pubkey
    &&& t is Deleted == gone(ad)
    &&& !gone(ad) ==> t.kind() == kind_of(ad.account.owner, ad.account.data.plain()) && program_id_of(t.program()) == ad.account.owner
    &&& !gone(ad) && canonical(ad.account.owner, ad.account.data.plain()) ==> t.shown(m) == Some(ad.shown())
}
//@ file token_account_storage/src/token_program_utils.rs
impl TokenProgramAccountType {
//@ fn TokenProgramAccountType::pubkey ret=r
    ensures r == self.key(),
//@ end
}
//@ fn get_or_create_mint_index ret=r mut=mint_index_by_pubkey,mint_index_count,mints_by_index
    requires mints(old(mint_index_by_pubkey)@, *old(mint_index_count), old(mints_by_index)@).wf(), *old(mint_index_count) < u32::MAX,
    ensures
        ({
            let m = mints(old(mint_index_by_pubkey)@, *old(mint_index_count), old(mints_by_index)@);
            let n = mints(final(mint_index_by_pubkey)@, *final(mint_index_count), final(mints_by_index)@);
            n.wf() && m.grown(n) && n.knows(r) && n.key(r) == mint && n.count <= m.count + 1
        }),
//@ start
    proof { reveal(Mints::wf); reveal(Mints::grown); }
//@ end
//@ fn without_unused_signers ret=r
    ensures r@.len() <= signers@.len(), r@ == signers@.take(r@.len() as int), forall|i: int| r@.len() <= i < signers@.len() ==> #[trigger] signers@[i] == default_pk(),
//@ loop 0
    invariant used <= signers@.len(), forall|i: int| used <= i < signers@.len() ==> #[trigger] signers@[i] == default_pk(),
    decreases used,
//@ end
//@ fn get_token_program_account_type ret=r mut=mint_index_by_pubkey,mint_index_count,mints_by_index
    requires mints(old(mint_index_by_pubkey)@, *old(mint_index_count), old(mints_by_index)@).wf(), *old(mint_index_count) < u32::MAX,
        account_data.account.data.ok(), account_data.account.data.plain().len() <= u32::MAX,
    ensures
        ({
            let m = mints(old(mint_index_by_pubkey)@, *old(mint_index_count), old(mints_by_index)@);
            let n = mints(final(mint_index_by_pubkey)@, *final(mint_index_count), final(mints_by_index)@);
            &&& n.wf() && m.grown(n) && n.count <= m.count + 1
            &&& r is Ok ==> r->Ok_0.wf(n) && says(*account_data, r->Ok_0, n)
            &&& gone(*account_data) || canonical(account_data.account.owner, account_data.account.data.plain()) ==> r is Ok
        }),
//@ start
    broadcast use lemma_take_all, lemma_unpad, axiom_tok, axiom_mint, axiom_multi;
    proof {
        axiom_ids(); reveal(says); reveal(Mints::grown);
        let d = account_data.account.data.plain();
        if d.len() >= 165 { lemma_two(d, 165); lemma_three(d, 82, 165); }
    }
//@ end
//@ fn token_account_to_solana_account ret=r
    requires !token_account.is_deleted ==> mints_by_index@.contains_key(token_account.mint),
    ensures token_account.is_deleted == (r is None),
        r is Some ==> r->0.account.data.ok() && r->0.updated_slot == updated_slot && r->0.write_version == write_version
            && r->0.shown() == (Shown { pubkey: token_account.pubkey, owner: program_id_of(token_account.program), data: token_account.bytes(mints_by_index@[token_account.mint].pubkey) }),
//@ start
    broadcast use axiom_tok, lemma_add_none, lemma_skip_zeros;
//@ end
//@ fn token_mint_to_solana_account ret=r
    ensures r.account.data.ok(), r.updated_slot == updated_slot, r.write_version == write_version, r.shown() == shown_mint(*mint_account), r.account.lamports == mint_account.lamports,
//@ start
    broadcast use axiom_mint, lemma_add_none, lemma_skip_zeros;
//@ end
//@ fn token_multisig_to_solana_account ret=r
    requires multsig.wf(),
    ensures r.account.data.ok(), r.updated_slot == updated_slot, r.write_version == write_version, r.shown() == shown_multi(*multsig, pubkey), r.account.lamports == multsig.lamports,
//@ start
    broadcast use axiom_multi, lemma_add_none, lemma_skip_unused;
//@ end
//@ fn token_program_account_to_solana_account ret=r
    requires match token_program_account { TokenProgramAccountType::TokenAccount(a) => !a.is_deleted ==> mints_by_index@.contains_key(a.mint), TokenProgramAccountType::MultiSig(s, pk) => s.wf(), _ => true },
    ensures
        ({
            let s = token_program_account.shown(mints(Map::empty(), 0, mints_by_index@));
            r is Some == s is Some && (r is Some ==> r->0.shown() == s->0 && r->0.account.data.ok() && r->0.updated_slot == updated_slot && r->0.write_version == write_version)
        }),
//@ end
// ---- choosing an index from the filters of a list request ---------------------------------------
// the bytes a filter asks for at an offset
pub open spec fn asks(f: AccountFilterType, off: u64, b: Seq<u8>) -> bool {
    match f { AccountFilterType::Memcmp(m) => m.offset == off && (match m.data { MemcmpFilterData::Bytes(x) => x@ == b, _ => false }), _ => false }
}
pub open spec fn some_asks(fs: Seq<AccountFilterType>, off: u64, b: Seq<u8>) -> bool { exists|i: int| 0 <= i < fs.len() && asks(#[trigger] fs[i], off, b) }
pub open spec fn sized(f: AccountFilterType, n: u64) -> bool { match f { AccountFilterType::Datasize(x) => x == n, _ => false } }
pub open spec fn some_sized(fs: Seq<AccountFilterType>, n: u64) -> bool { exists|i: int| 0 <= i < fs.len() && sized(#[trigger] fs[i], n) }
// only token accounts have this size, or this account type
pub open spec fn only_tokens(p: Pubkey, fs: Seq<AccountFilterType>) -> bool { some_sized(fs, 165) || (p == new_id() && some_asks(fs, 165, seq![2u8])) }
// the chosen keys are asked for by the filters, and as only token accounts have them where the filters look
pub open spec fn chosen(p: Pubkey, fs: Seq<AccountFilterType>, r: (Option<Pubkey>, Option<Pubkey>)) -> bool {
    &&& r.0 is Some ==> some_asks(fs, 32, (r.0->0).0@)
    &&& r.1 is Some ==> some_asks(fs, 0, (r.1->0).0@)
    &&& r.0 is Some || r.1 is Some ==> only_tokens(p, fs)
}
// nothing is refused that could be looked up
pub open spec fn one_size(fs: Seq<AccountFilterType>, n: u64) -> bool { some_sized(fs, n) && forall|i: int| 0 <= i < fs.len() ==> ((#[trigger] fs[i]) is Datasize ==> sized(fs[i], n)) }
pub open spec fn some_key(fs: Seq<AccountFilterType>, off: u64) -> bool { exists|b: Seq<u8>| b.len() == 32 && #[trigger] some_asks(fs, off, b) }
#[verifier::opaque]
pub open spec fn seen(p: Pubkey, fs: Seq<AccountFilterType>, n: int, size: Option<u64>, ty: Option<&[u8]>, owner: Option<Pubkey>, mint: Option<Pubkey>) -> bool {
    let g = fs.take(n);
    &&& size is Some ==> some_sized(g, size->0)
    &&& size is None ==> forall|i: int| 0 <= i < g.len() ==> !((#[trigger] g[i]) is Datasize)
    &&& ty is Some ==> some_asks(g, 165, ty->0@) && p == new_id()
    &&& owner is Some ==> some_asks(g, 32, (owner->0).0@)
    &&& mint is Some ==> some_asks(g, 0, (mint->0).0@)
    &&& some_key(g, 32) ==> owner is Some
    &&& some_key(g, 0) ==> mint is Some
}
proof fn lemma_seen_step(p: Pubkey, fs: Seq<AccountFilterType>, n: int, s0: Option<u64>, t0: Option<&[u8]>, o0: Option<Pubkey>, m0: Option<Pubkey>, s1: Option<u64>, t1: Option<&[u8]>, o1: Option<Pubkey>, m1: Option<Pubkey>)
    requires 0 <= n < fs.len(), seen(p, fs, n, s0, t0, o0, m0),
        s1 == s0 && !(fs[n] is Datasize) || s1 is Some && sized(fs[n], s1->0),
        t1 == t0 || t1 is Some && asks(fs[n], 165, t1->0@) && p == new_id(),
        o1 == o0 && (forall|b: Seq<u8>| b.len() == 32 ==> !#[trigger] asks(fs[n], 32, b)) || o1 is Some && asks(fs[n], 32, (o1->0).0@),
        m1 == m0 && (forall|b: Seq<u8>| b.len() == 32 ==> !#[trigger] asks(fs[n], 0, b)) || m1 is Some && asks(fs[n], 0, (m1->0).0@),
    ensures seen(p, fs, n + 1, s1, t1, o1, m1),
{
    reveal(seen);
    let g = fs.take(n);
    let h = fs.take(n + 1);
    assert(h =~= g.push(fs[n]));
    assert(h[n] == fs[n]);
    assert(forall|i: int| 0 <= i < g.len() ==> g[i] == #[trigger] h[i]);
    assert forall|off: u64, b: Seq<u8>| #[trigger] some_asks(g, off, b) implies some_asks(h, off, b) by {
        let i = choose|i: int| 0 <= i < g.len() && asks(#[trigger] g[i], off, b);
        assert(asks(h[i], off, b));
    }
    assert forall|k: u64| #[trigger] some_sized(g, k) implies some_sized(h, k) by {
        let i = choose|i: int| 0 <= i < g.len() && sized(#[trigger] g[i], k);
        assert(sized(h[i], k));
    }
    assert forall|off: u64, b: Seq<u8>| #[trigger] some_asks(h, off, b) implies some_asks(g, off, b) || asks(fs[n], off, b) by {
        let i = choose|i: int| 0 <= i < h.len() && asks(#[trigger] h[i], off, b);
        if i < n { assert(asks(g[i], off, b)); }
    }
}
//@ fn get_spl_token_owner_mint_filter ret=r
    ensures chosen(*program_id, filters@, r),
        one_size(filters@, 165) ==> (r.0 is Some == some_key(filters@, 32)) && (r.1 is Some == some_key(filters@, 0)),
//@ loop 0
    invariant account_packed_len == 165, SPL_TOKEN_ACCOUNT_OWNER_OFFSET == 32, SPL_TOKEN_ACCOUNT_MINT_OFFSET == 0,
        __it0_.items() == Seq::new(filters@.len(), |i: int| &filters@[i]),
        seen(*program_id, filters@, __it0_.pos() as int, data_size_filter, memcmp_filter, owner_key, mint),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    let ghost (s0, t0, o0, m0) = (data_size_filter, memcmp_filter, owner_key, mint);
    let ghost n = __it0_.pos() as int;
//@ loopend 0
    proof {
        let f = filters@[n];
        assert(*__it0_.items()[n] == f);
        let k = f is Memcmp && f->Memcmp_0.data is Bytes && f->Memcmp_0.data->Bytes_0@.len() == 32;
        if k && f->Memcmp_0.offset == 32 { assert(owner_key is Some && (owner_key->0).0@ == f->Memcmp_0.data->Bytes_0@); } else { assert(owner_key == o0); assert(forall|b: Seq<u8>| b.len() == 32 ==> !#[trigger] asks(f, 32, b)); }
        if k && f->Memcmp_0.offset == 0 { assert(mint is Some && (mint->0).0@ == f->Memcmp_0.data->Bytes_0@); } else { assert(mint == m0); assert(forall|b: Seq<u8>| b.len() == 32 ==> !#[trigger] asks(f, 0, b)); }
        lemma_seen_step(*program_id, filters@, n, s0, t0, o0, m0, data_size_filter, memcmp_filter, owner_key, mint);
    }
//@ loopafter 0
    proof { assert(filters@.take(filters@.len() as int) =~= filters@); }
//@ start
    proof { reveal(seen); }
//@ exit
    proof {
        assert(data_size_filter == Some(165u64) || memcmp_filter is Some && memcmp_filter->0@ =~= seq![2u8] || __ret == (None::<Pubkey>, None::<Pubkey>));
        if one_size(filters@, 165) {
            assert(data_size_filter == Some(165u64)) by {
                let i = choose|i: int| 0 <= i < filters@.len() && sized(#[trigger] filters@[i], 165);
                assert(filters@[i] is Datasize);
                let j = choose|j: int| 0 <= j < filters@.len() && sized(#[trigger] filters@[j], data_size_filter->0);
                assert(sized(filters@[j], 165));
            }
            assert(owner_key is Some ==> some_key(filters@, 32));
            assert(mint is Some ==> some_key(filters@, 0));
        }
    }
//@ end
