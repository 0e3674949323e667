//@ contracted serialize deserialize bincode_serialize bincode_deserialize
//@ mutarg get_token_program_account_type 1,2,3
// ---- the storage of the finalized token accounts (its in-memory form is proved to behave so: unit tokenindex) ----
#[verifier::external_body]
pub struct DynTokenAccountStorageInterface { _p: () }
impl DynTokenAccountStorageInterface {
    pub uninterp spec fn cells(&self) -> Seq<Cell>;
    pub uninterp spec fn inv(&self) -> bool;
    pub open spec fn wf(&self) -> bool { self.inv() && cells_wf(self.cells()) }
    #[verifier::external_body]
    pub fn contains(&self, pubkey: &Pubkey) -> (r: Option<u32>) requires self.wf(), ensures cells_contain(self.cells(), *pubkey, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_by_pubkey(&self, pubkey: &Pubkey) -> (r: Option<TokenAccount>) requires self.wf(), ensures cells_get(self.cells(), *pubkey, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_or_update(&mut self, token_account: TokenAccount) -> (r: (u32, bool))
        requires old(self).wf(), token_account.wf(), !token_account.is_deleted, old(self).cells().len() < u32::MAX,
        ensures final(self).wf(), cells_saved(old(self).cells(), final(self).cells(), token_account.st(), r.0, r.1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete(&mut self, pubkey: &Pubkey) requires old(self).wf(), ensures final(self).wf(), cells_removed(old(self).cells(), final(self).cells(), *pubkey) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_by_index(&self, indexes: HashSet<u32>) -> (r: Result<Vec<TokenAccount>, AccountLoadingError>)
        requires self.wf(),
        ensures r is Ok, exists|s: Seq<u32>| #[trigger] cells_listed(self.cells(), indexes@, s, r->Ok_0@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_snapshot(&self, program: Program) -> (r: Result<Vec<Vec<u8>>, AccountLoadingError>)
        requires self.wf(),
        ensures r is Ok, exists|s: Seq<int>| #[trigger] cells_encoded(self.cells(), program, s, r->Ok_0@),
    { unimplemented!() }
}
pub trait VxHas<T> { spec fn vx_had(&self, x: T) -> bool; fn contains(&self, x: &T) -> (r: bool) ensures r == self.vx_had(*x); }
impl VxHas<u32> for Vec<u32> {
    open spec fn vx_had(&self, x: u32) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn contains(&self, x: &u32) -> (r: bool) { unimplemented!() }
}
pub uninterp spec fn vx_eq_some(v: Seq<AccountFilterType>, x: AccountFilterType) -> bool;
impl VxHas<AccountFilterType> for Vec<AccountFilterType> {
    open spec fn vx_had(&self, x: AccountFilterType) -> bool { if x is Datasize { some_sized(self@, x->Datasize_0) } else { vx_eq_some(self@, x) } }
    #[verifier::external_body]
    fn contains(&self, x: &AccountFilterType) -> (r: bool) { unimplemented!() }
}
impl VxHas<u32> for VecDeque<u32> {
    open spec fn vx_had(&self, x: u32) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn contains(&self, x: &u32) -> (r: bool) { unimplemented!() }
}
impl Clone for AccountFilterType {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait VxGetMut<T> {
    spec fn vx_now(&self) -> Seq<T>;
    fn get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>)
        ensures match r {
            Some(v) => i < old(self).vx_now().len() && *v == old(self).vx_now()[i as int] && final(self).vx_now() == old(self).vx_now().update(i as int, *final(v)),
            None => i >= old(self).vx_now().len() && final(self).vx_now() == old(self).vx_now(),
        };
}
impl<T> VxGetMut<T> for Vec<T> {
    open spec fn vx_now(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>) { unimplemented!() }
}
pub open spec fn each_once<T>(t: Seq<T>, s: Set<T>) -> bool { t.no_duplicates() && forall|x: T| #[trigger] t.contains(x) <==> s.contains(x) }
pub trait VxAddAll<T> {
    spec fn vx_had_all(&self) -> Seq<T>;
    fn vx_extend(&mut self, s: HashSet<T>) ensures exists|t: Seq<T>| #[trigger] each_once(t, s@) && final(self).vx_had_all() == old(self).vx_had_all() + t;
}
impl<T> VxAddAll<T> for Vec<T> {
    open spec fn vx_had_all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, s: HashSet<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
impl<T> VxSeq<T> for Option<T> {
    open spec fn vx_seq(&self) -> Seq<T> { match self { Some(x) => seq![*x], None => Seq::empty() } }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
//@ file token_account_storage/src/inmemory_token_storage.rs
//@ struct TokenProgramAccountsStorage
//@ struct TokenProgramSnapshot
// ---- bincode (dependency): deserializing what was serialized gives it back ---------------------
pub ghost struct SnapView { pub mints: Seq<(u32, MintAccount)>, pub multisigs: Seq<MultiSig>, pub tokens: Seq<Vec<u8>> }
impl TokenProgramSnapshot { pub open spec fn vw(&self) -> SnapView { SnapView { mints: self.mints@, multisigs: self.multisigs@, tokens: self.token_accounts@ } } }
pub uninterp spec fn decoded_snap(b: Seq<u8>) -> Option<SnapView>;
#[verifier::external_body]
pub fn bincode_serialize(v: &TokenProgramSnapshot) -> (r: Result<Vec<u8>, IoError>) ensures r is Ok, decoded_snap(r->Ok_0@) == Some(v.vw()) { unimplemented!() }
#[verifier::external_body]
pub fn bincode_deserialize<T>(b: &Vec<u8>) -> (r: Result<TokenProgramSnapshot, IoError>)
    ensures match r { Ok(v) => decoded_snap(b@) == Some(v.vw()), Err(_) => decoded_snap(b@) is None }
{ unimplemented!() }
impl Clone for MintAccount {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for MultiSig {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl ProcessedAccountStore {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.processed_slot_accounts@ == Map::<u64, ProcessedAccountBySlot>::empty() { unimplemented!() }
}

// ---- the finalized accounts of the storage ------------------------------------------------------
impl TokState {
    pub open spec fn vw(self, mint: Pubkey) -> TokView {
        TokView { mint, owner: self.owner, amount: self.amount, delegate: if self.delegate is Some { Some((self.delegate->0).0) } else { None }, state: self.state, is_native: self.is_native,
            delegated_amount: if self.delegate is Some { (self.delegate->0).1 } else { 0 }, close_authority: self.close_authority }
    }
    pub open spec fn bytes(self, mint: Pubkey) -> Seq<u8> { if self.program is Token2022Program && self.more is Some { tok_bytes(self.vw(mint)) + self.more->0 } else { tok_bytes(self.vw(mint)) } }
    pub open spec fn shown(self, m: Mints) -> Shown { Shown { pubkey: self.pubkey, owner: program_id_of(self.program), data: self.bytes(m.key(self.mint)) } }
}
proof fn lemma_st(t: TokenAccount, m: Mints)
    ensures !t.is_deleted ==> shown_token(t, m) == Some(t.st().shown(m)),
{
    assert(t.bytes(m.key(t.mint)) == t.st().bytes(m.key(t.mint)));
}
// the mint account of a key, if there is one
pub open spec fn mint_there(m: Mints, pk: Pubkey) -> bool { m.by_pk.contains_key(pk) && m.by_ix[m.by_pk[pk]].is_there() }
// an index stands for the same mint pubkey from then on
#[verifier::opaque]
pub open spec fn keeps(m: Mints, n: Mints) -> bool {
    &&& m.count <= n.count
    &&& forall|pk: Pubkey| #[trigger] m.by_pk.contains_key(pk) ==> n.by_pk.contains_key(pk) && n.by_pk[pk] == m.by_pk[pk]
    &&& forall|i: u32| #[trigger] m.by_ix.contains_key(i) ==> n.by_ix.contains_key(i) && n.by_ix[i].pubkey == m.by_ix[i].pubkey
}
pub open spec fn listed<K>(m: Map<K, Vec<u32>>, k: K, i: u32) -> bool { m.contains_key(k) && m[k]@.contains(i) }
pub open spec fn queued(m: Map<u32, VecDeque<u32>>, k: u32, i: u32) -> bool { m.contains_key(k) && m[k]@.contains(i) }
pub open spec fn mm(b: Map<u32, MintAccount>) -> Mints { mints(Map::empty(), 0, b) }
pub open spec fn entry_ok(m: Map<u64, SlotView>, ms: Mints, s: u64, pk: Pubkey) -> bool {
    acct(m, s, pk) ==> ({ let p = m[s].accounts[pk].processed_account; p.wf(ms) && p.key() == pk })
}
impl TokenProgramAccountsStorage {
    pub open spec fn mts(&self) -> Mints { mints(self.mints_index_by_pubkey@, self.mint_counter, self.mints_by_index@) }
    pub open spec fn cells(&self) -> Seq<Cell> { self.token_accounts_storage.cells() }
    // every live token account can be found by its owner and by its mint
    pub open spec fn cell_ok(&self, i: u32) -> bool {
        let c = self.cells()[i as int];
        c.live ==> self.mts().knows(c.t.mint) && listed(self.account_by_owner_pubkey@, part(c.t.owner), i) && queued(self.accounts_index_by_mint@, c.t.mint, i) && tagged(c.t.more, 2)
    }
    // a key stands for one kind of account
    pub open spec fn one_kind(&self, pk: Pubkey) -> bool {
        &&& self.multisigs@.contains_key(pk) ==> !mint_there(self.mts(), pk) && !held(self.cells(), pk)
        &&& mint_there(self.mts(), pk) ==> !held(self.cells(), pk)
    }
    pub open spec fn wf_fin(&self) -> bool {
        &&& self.mts().wf() && self.token_accounts_storage.wf()
        &&& forall|pk: Pubkey| #[trigger] self.one_kind(pk)
        &&& forall|pk: Pubkey| #[trigger] self.multisigs@.contains_key(pk) ==> self.multisigs@[pk].wf() && self.multisigs@[pk].pubkey == pk
        &&& forall|i: u32| #[trigger] self.mts().by_ix.contains_key(i) && self.mts().by_ix[i].is_there() ==> self.mts().by_ix[i].tagged()
        &&& forall|i: u32| i < self.cells().len() ==> #[trigger] self.cell_ok(i)
    }
    // what the finalized state of a key reads as
    pub open spec fn fin(&self, pk: Pubkey) -> Option<Shown> {
        if self.multisigs@.contains_key(pk) { Some(shown_multi(self.multisigs@[pk], pk)) }
        else if mint_there(self.mts(), pk) { Some(shown_mint(self.mts().by_ix[self.mts().by_pk[pk]])) }
        else if held(self.cells(), pk) { let i = choose|i: u32| #[trigger] at(self.cells(), pk, i); Some(self.cells()[i as int].t.shown(self.mts())) }
        else { None }
    }
    // an account of the key is, or was, here
    pub open spec fn has_seen(&self, pk: Pubkey) -> bool {
        self.mts().by_pk.contains_key(pk) || self.multisigs@.contains_key(pk) || held(self.cells(), pk) || exists|s: u64| #[trigger] acct(self.processed_storage.slots(), s, pk)
    }
    // the states that are not finalized are states of the account they are kept for
    pub open spec fn proc_ok(&self, s: u64, pk: Pubkey) -> bool {
        entry_ok(self.processed_storage.slots(), mm(self.mints_by_index@), s, pk)
    }
    pub open spec fn wf(&self) -> bool { self.wf_fin() && self.processed_storage.wf() && forall|s: u64, pk: Pubkey| #[trigger] self.proc_ok(s, pk) }
    pub open spec fn has_room(&self) -> bool { self.cells().len() < u32::MAX && self.mint_counter < u32::MAX - 1 }
    // the account is one of a token program, or was
    pub open spec fn concerns(&self, ad: AccountData) -> bool { self.has_seen(ad.pubkey) || ad.account.owner == legacy_id() || ad.account.owner == new_id() }
    // all reads but those of one key are as before
    pub open spec fn reads_same_but(&self, o: Self, k: Option<Pubkey>) -> bool { forall|pk: Pubkey| k != Some(pk) ==> #[trigger] self.fin(pk) == o.fin(pk) }
    // the parts that finalized writes leave alone
    pub open spec fn same_rest(&self, o: Self) -> bool {
        self.processed_storage == o.processed_storage && self.confirmed_slot == o.confirmed_slot && self.finalized_slot == o.finalized_slot
    }
}
// the other kinds of accounts that had the key are gone
pub open spec fn cleared(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, t: TokenProgramAccountType) -> bool {
    let pk = t.key();
    &&& n.same_rest(o) && n.accounts_index_by_mint == o.accounts_index_by_mint && n.account_by_owner_pubkey == o.account_by_owner_pubkey
    &&& n.mints_index_by_pubkey == o.mints_index_by_pubkey && n.mint_counter == o.mint_counter
    &&& n.multisigs@ == (if t is MultiSig { o.multisigs@ } else { o.multisigs@.remove(pk) })
    &&& if t is TokenAccount { n.token_accounts_storage == o.token_accounts_storage } else { n.token_accounts_storage.wf() && cells_removed(o.cells(), n.cells(), pk) }
    &&& if t is Mint || !o.mts().by_pk.contains_key(pk) { n.mints_by_index@ == o.mints_by_index@ } else {
        let i = o.mts().by_pk[pk];
        n.mints_by_index@ == o.mints_by_index@.insert(i, n.mints_by_index@[i]) && n.mints_by_index@[i].pubkey == pk && !n.mints_by_index@[i].is_there()
    }
}
pub broadcast proof fn lemma_push_has(s: Seq<u32>, x: u32, y: u32)
    ensures #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x),
{
    assert(s.push(x)[s.len() as int] == x);
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    if s.push(x).contains(y) && y != x { let i = choose|i: int| 0 <= i < s.len() + 1 && s.push(x)[i] == y; assert(s[i] == y); }
}
pub broadcast proof fn lemma_saved(o: Seq<Cell>, n: Seq<Cell>, t: TokState, i: u32, fresh: bool)
    requires #[trigger] cells_saved(o, n, t, i, fresh), cells_wf(o), o.len() < u32::MAX,
    ensures cells_wf(n), n.len() <= o.len() + 1, at(n, t.pubkey, i), n[i as int] == (Cell { live: true, t }),
        forall|j: u32| j < n.len() && j != i ==> j < o.len() && n[j as int] == #[trigger] o[j as int],
        forall|pk: Pubkey| pk != t.pubkey ==> #[trigger] held(n, pk) == held(o, pk),
        forall|pk: Pubkey, j: u32| pk != t.pubkey ==> #[trigger] at(n, pk, j) == at(o, pk, j),
{
    assert forall|pk: Pubkey, j: u32| #[trigger] at(n, pk, j) == (if pk == t.pubkey { j == i } else { at(o, pk, j) }) by {
        if !fresh && at(o, pk, j) && pk == t.pubkey { assert(at(o, pk, i)); }
        if !fresh && j == i && pk != t.pubkey { assert(at(o, t.pubkey, i)); }
        if fresh && at(n, pk, j) && pk == t.pubkey && j != i { assert(at(o, pk, j)); }
    }
    assert forall|pk: Pubkey| pk != t.pubkey implies #[trigger] held(n, pk) == held(o, pk) by {
        if held(n, pk) { let j = choose|j: u32| #[trigger] at(n, pk, j); assert(at(o, pk, j)); }
        if held(o, pk) { let j = choose|j: u32| #[trigger] at(o, pk, j); assert(at(n, pk, j)); }
    }
}
pub broadcast proof fn lemma_removed(o: Seq<Cell>, n: Seq<Cell>, k: Pubkey)
    requires #[trigger] cells_removed(o, n, k), cells_wf(o),
    ensures cells_wf(n), !held(n, k),
        forall|pk: Pubkey| pk != k ==> #[trigger] held(n, pk) == held(o, pk),
        forall|pk: Pubkey, j: u32| #[trigger] at(n, pk, j) == (pk != k && at(o, pk, j)),
{
    assert forall|pk: Pubkey, j: u32| #[trigger] at(n, pk, j) == (pk != k && at(o, pk, j)) by {
        if j < o.len() { assert(if at(o, k, j) { !n[j as int].live } else { n[j as int] == o[j as int] }); assert(j as int as u32 == j); }
    }
    assert forall|pk: Pubkey| pk != k implies #[trigger] held(n, pk) == held(o, pk) by {
        if held(n, pk) { let j = choose|j: u32| #[trigger] at(n, pk, j); assert(at(o, pk, j)); }
        if held(o, pk) { let j = choose|j: u32| #[trigger] at(o, pk, j); assert(at(n, pk, j)); }
    }
}
impl TokenProgramAccountsStorage {
//@ fn TokenProgramAccountsStorage::remove_other_account_types self=mut
    requires old(self).wf_fin(),
    ensures cleared(*old(self), *final(self), *account), final(self).wf_fin(), keeps(old(self).mts(), final(self).mts()),
        forall|pk: Pubkey| pk != account.key() ==> #[trigger] final(self).fin(pk) == old(self).fin(pk),
        account is Deleted ==> final(self).fin(account.key()) is None,
        !(account is TokenAccount) ==> !held(final(self).cells(), account.key()),
        !(account is Mint) ==> !mint_there(final(self).mts(), account.key()),
        !(account is MultiSig) ==> !final(self).multisigs@.contains_key(account.key()),
//@ start
    broadcast use lemma_removed;
    proof { reveal(Mints::wf); reveal(keeps); }
//@ exit
    proof { lemma_cleared(*old(self), *self, *account); }
//@ end
//@ fn TokenProgramAccountsStorage::add_account_finalized ret=r self=mut
    requires old(self).wf_fin(), account.wf(old(self).mts()), old(self).cells().len() < u32::MAX, old(self).mint_counter < u32::MAX,
    ensures r, final(self).wf_fin(), keeps(old(self).mts(), final(self).mts()), final(self).same_rest(*old(self)),
        final(self).fin(account.key()) == account.shown(old(self).mts()),
        forall|pk: Pubkey| pk != account.key() ==> #[trigger] final(self).fin(pk) == old(self).fin(pk),
        final(self).cells().len() <= old(self).cells().len() + 1, final(self).mint_counter <= old(self).mint_counter + 1,
//@ start
    broadcast use lemma_removed, lemma_saved, lemma_part, lemma_push_has;
    proof { reveal(Mints::wf); reveal(keeps); }
//@ exit
    proof {
        let o = *old(self);
        let n = *self;
        assert(n.mts().wf());
        assert forall|pk: Pubkey| #[trigger] n.one_kind(pk) by {
            assert(o.one_kind(pk));
            if pk != account.key() { lemma_fin_same(o, n, pk); }
        }
        assert forall|pk: Pubkey| pk != account.key() implies #[trigger] n.fin(pk) == o.fin(pk) by { lemma_fin_same(o, n, pk); }
        assert forall|i: u32| i < n.cells().len() implies #[trigger] n.cell_ok(i) by {
            if i < o.cells().len() { assert(o.cell_ok(i)); }
            let t = n.cells()[i as int].t;
            if n.cells()[i as int].live {
                assert(at(n.cells(), t.pubkey, i));
                if t.pubkey == account.key() {
                    assert(listed(n.account_by_owner_pubkey@, part(t.owner), i));
                    assert(queued(n.accounts_index_by_mint@, t.mint, i));
                } else {
                    assert(at(o.cells(), t.pubkey, i));
                    assert(listed(n.account_by_owner_pubkey@, part(t.owner), i));
                    assert(queued(n.accounts_index_by_mint@, t.mint, i));
                }
            }
        }
    }
//@ end
//@ fn TokenProgramAccountsStorage::is_token_program_account ret=r
    requires self.wf_fin(),
    ensures r == (self.has_seen(account_data.pubkey) || account_data.account.owner == legacy_id() || account_data.account.owner == new_id()),
//@ start
    proof { axiom_ids(); }
//@ end
//@ fn TokenProgramAccountsStorage::get_account_finalized ret=r
    requires self.wf_fin(),
    ensures r is Some == self.fin(account_pk) is Some,
        r is Some ==> r->0.shown() == self.fin(account_pk)->0 && r->0.account.data.ok() && r->0.updated_slot == self.finalized_slot && r->0.write_version == 0,
//@ start
    proof {
        reveal(Mints::wf); assert(self.one_kind(account_pk));
        assert forall|i: u32| #[trigger] at(self.cells(), account_pk, i) implies self.mts().knows(self.cells()[i as int].t.mint) by { assert(self.cell_ok(i)); }
    }
//@ end
//@ fn AccountStorageInterface for TokenProgramAccountsStorage::update_account ret=r self=mut
    requires old(self).wf(), old(self).has_room(), account_data.account.data.ok(), account_data.account.data.plain().len() <= u32::MAX,
    ensures final(self).wf(), keeps(old(self).mts(), final(self).mts()),
        updated(*old(self), *final(self), account_data, commitment, r),
//@ start
    let ghost o = *old(self);
    let ghost mut mid = *self;
    let ghost mut t = None::<TokenProgramAccountType>;
//@ aftercall get_token_program_account_type
    proof { mid = *self; t = Some(token_program_account); lemma_grown(o, mid); lemma_says(account_data, token_program_account, mid.mts()); }
//@ exit
    proof {
        lemma_keeps(o.mts(), mid.mts(), self.mts());
        lemma_keeps(mid.mts(), mid.mts(), self.mts());
        if t is Some {
            if commitment == Commitment::Finalized { lemma_kept(mid, *self); } else { lemma_inserted(mid, *self, t->0, account_data, __ret); }
            lemma_write(o, mid, *self, t->0, account_data, commitment, __ret);
        } else { lemma_grown(o, *self); reveal(keeps); }
    }
//@ end
//@ fn AccountStorageInterface for TokenProgramAccountsStorage::initilize_or_update_account self=mut
    requires old(self).wf(), old(self).has_room(), account_data.account.data.ok(), account_data.account.data.plain().len() <= u32::MAX,
    ensures final(self).wf(), keeps(old(self).mts(), final(self).mts()),
        updated(*old(self), *final(self), account_data, Commitment::Finalized, true) || updated(*old(self), *final(self), account_data, Commitment::Finalized, false),
//@ start
    let ghost o = *old(self);
    let ghost mut mid = *self;
    let ghost mut t = None::<TokenProgramAccountType>;
//@ aftercall get_token_program_account_type
    proof { mid = *self; t = Some(token_program_account); lemma_grown(o, mid); lemma_says(account_data, token_program_account, mid.mts()); }
//@ exit
    proof {
        lemma_keeps(o.mts(), mid.mts(), self.mts());
        if t is Some {
            lemma_kept(mid, *self);
            lemma_write(o, mid, *self, t->0, account_data, Commitment::Finalized, true);
        } else { lemma_grown(o, *self); }
    }
//@ end
//@ fn AccountStorageInterface for TokenProgramAccountsStorage::get_account ret=r
    requires self.wf(),
    ensures r is Ok, reads(*self, account_pk, commitment, r->Ok_0),
//@ start
    proof {
        assert forall|p: Option<(ProcessedAccount, u64)>| #[trigger] at_commitment(self.processed_storage.slots(), commitment, self.confirmed_slot, account_pk, p) && p is Some
            implies (p->0).0.processed_account.wf(self.mts()) by { lemma_state_ok(*self, account_pk, commitment, p); }
    }
//@ end
//@ fn AccountStorageInterface for TokenProgramAccountsStorage::get_program_accounts ret=r
    requires self.wf(),
    ensures
        (program_pubkey == legacy_id() || program_pubkey == new_id()) && account_filters is Some && can_list(account_filters->0@) ==> r is Ok,
        r is Ok ==> account_filters is Some && listed_at(*self, program_pubkey, account_filters->0@, commitment, r->Ok_0@),
//@ start
    let ghost c = *self;
    let ghost p = program_pubkey;
    let ghost fs = if account_filters is Some { account_filters->0@ } else { Seq::empty() };
    let ghost mut f = Seq::<AccountData>::empty();
    let ghost mut a = Seq::<AccountData>::empty();
    let ghost mut am = Seq::<AccountData>::empty();
    let ghost mut ar = Seq::<AccountData>::empty();
    let ghost mut add = Seq::<AccountData>::empty();
    let ghost mut t = Seq::<Pubkey>::empty();
    let ghost mut rest = Set::<Pubkey>::empty();
    let ghost mut ks = Seq::<Pubkey>::empty();
    let ghost mut pr = Seq::<Option<(ProcessedAccount, u64)>>::empty();
    let ghost mut all = Seq::<Option<(Shown, u64)>>::empty();
    let ghost mut ixa = Seq::<int>::empty();
    let ghost mut ix = Seq::<int>::empty();
    let ghost mut idx = Seq::<int>::empty();
//@ aftercall get_program_accounts_finalized
    proof { f = account_data@; reveal(fin_list); }
//@ loop 0
    invariant
        f == account_data@, __it0_.items().len() == f.len(), __it0_.pos() <= __it0_.items().len(), __acc0_@.len() == __it0_.pos(),
        forall|i: int| 0 <= i < f.len() ==> *(#[trigger] __it0_.items()[i]) == f[i],
        forall|i: int| 0 <= i < __acc0_@.len() ==> #[trigger] __acc0_@[i] == f[i].pubkey,
    ensures __it0_.pos() == __it0_.items().len(),
//@ aftercall get_account_pubkeys
    let ghost every = processed_pks@;
//@ loop 1
    invariant
        __it1_.items().len() == pks@.len(), __it1_.pos() <= __it1_.items().len(),
        forall|i: int| 0 <= i < pks@.len() ==> *(#[trigger] __it1_.items()[i]) == pks@[i],
        forall|pk: Pubkey| #[trigger] processed_pks@.contains(pk) <==> every.contains(pk) && !before(pks@, __it1_.pos() as int, pk),
    ensures __it1_.pos() == __it1_.items().len(),
//@ loopafter 1
    proof { t = pks@; rest = processed_pks@; }
//@ aftercall vx_extend
    proof { ks = pks@; let u = choose|u: Seq<Pubkey>| #[trigger] each_once(u, rest) && ks == t + u; assert(more_keys(f, every, t, u, rest)); lemma_keys_all(c, p, fs, f, every, ks); }
//@ aftercall get_accounts
    proof {
        pr = processed_accounts@;
        all = all_of(c, f, ks, pr);
        lemma_merged_start(all, f);
    }
//@ loop 2
    invariant
        c == *self, c.wf(), keys_all(c, f, ks), pr == processed_accounts@, pr.len() == ks.len(), all == all_of(c, f, ks, pr), __it2_.items().len() == pr.len(), __it2_.pos() <= __it2_.items().len(),
        forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).account.data.ok(),
        pr.len() <= usize::MAX, commitment != Commitment::Finalized,
        forall|i: int| 0 <= i < pr.len() ==> (#[trigger] __it2_.items()[i]).0 == i as usize && *__it2_.items()[i].1 == pr[i],
        forall|i: int| 0 <= i < pr.len() ==> at_commitment(c.processed_storage.slots(), commitment, c.confirmed_slot, ks[i], #[trigger] pr[i]),
        merged(all, f, __it2_.pos() as int, account_data@, to_remove@, ixa, to_add@),
    ensures __it2_.pos() == __it2_.items().len(),
//@ loopstart 2
    let ghost n = __it2_.pos() as int;
    let ghost a0 = account_data@;
    let ghost rm0 = to_remove@;
    let ghost add0 = to_add@;
    proof {
        if n < pr.len() {
            assert(*__it2_.items()[n].1 == pr[n]);
            lemma_state_ok(c, ks[n], commitment, pr[n]);
            assert(all[n] == (if pr[n] is Some { seen_as(c, ks[n], pr[n]) } else if n < f.len() { Some(f[n].seen()) } else { None }));
            assert(a0.len() == f.len()) by { reveal(merged); }
        }
    }
//@ loopend 2
    proof {
        lemma_merged_step(all, f, n, a0, rm0, ixa, add0, account_data@, to_remove@, to_add@);
        if to_add@.len() > add0.len() { ixa = ixa.push(n); }
    }
//@ loopafter 2
    proof { am = account_data@; ix = Seq::new(f.len(), |i: int| i); lemma_cut_start(all, f, am, to_remove@, ixa, to_add@); }
//@ loop 3
    invariant
        am.len() == f.len(), rm_ok(to_remove@, f.len() as int), __it3_.items().len() == to_remove@.len(), __it3_.pos() <= __it3_.items().len(),
        forall|i: int| 0 <= i < to_remove@.len() ==> *(#[trigger] __it3_.items()[i]) == to_remove@[to_remove@.len() - 1 - i],
        cut(f.len() as int, am, to_remove@, to_remove@.len() - __it3_.pos(), ix, account_data@),
    ensures __it3_.pos() == __it3_.items().len(),
//@ loopstart 3
    let ghost k = to_remove@.len() - __it3_.pos();
    let ghost a0 = account_data@;
    proof { if k > 0 { assert(*__it3_.items()[__it3_.pos() as int] == to_remove@[k - 1]); assert(to_remove@[k - 1] < a0.len()) by { reveal(cut); } } }
//@ loopend 3
    proof { lemma_cut_step(f.len() as int, am, to_remove@, k, ix, a0, account_data@); ix = ix.remove(to_remove@[k - 1] as int); }
//@ loopafter 3
    proof { ar = account_data@; add = to_add@; }
//@ aftercall append
    proof { lemma_joined(all, f, am, to_remove@, ixa, add, ix, ar, account_data@); lemma_gathered(c, p, fs, commitment, f, ks, pr, ix + ixa, account_data@); }
//@ aftercall vx_take
    proof {
        a = __it4_.items();
        if commitment == Commitment::Finalized { lemma_gathered_fin(c, p, fs, a); }
        lemma_picked_none(wanted(p, fs, a));
    }
//@ loop 4
    invariant
        p == program_pubkey, account_filters is Some, fs == account_filters->0@, gathered(c, p, fs, commitment, a), a == __it4_.items(), __it4_.pos() <= __it4_.items().len(),
        picked(wanted(p, fs, a), __it4_.pos() as int, idx, __acc4_@),
    ensures __it4_.pos() == __it4_.items().len(),
//@ loopstart 4
    let ghost n = __it4_.pos() as int;
    let ghost r0 = __acc4_@;
    proof { if n < a.len() { assert(a[n].account.data.ok()) by { reveal(gathered); } assert(wanted(p, fs, a)[n] == (if wants(p, fs, a[n].shown()) { Some(a[n].seen()) } else { None })); } }
//@ loopend 4
    proof { lemma_picked_step(wanted(p, fs, a), n, idx, r0, __acc4_@); if __acc4_@.len() > r0.len() { idx = idx.push(n); } }
//@ loopafter 4
    proof { lemma_listed(c, p, fs, commitment, a, idx, __acc4_@); }
//@ loop 5
    invariant_except_break
        __acc5_,
    invariant
        account_filters is Some, fs == account_filters->0@, __it5_.items().len() == 1, __it5_.pos() <= 1, account.account.data.ok(), *__it5_.items()[0] == account_filters->0,
        __acc5_ && __it5_.pos() == 1 ==> allowed(fs, account.account.data.plain()),
    ensures __acc5_ == allowed(fs, account.account.data.plain()),
//@ loop 6
    invariant_except_break
        __acc5_,
    invariant
        __it6_.items().len() == fs.len(), __it6_.pos() <= __it6_.items().len(), account.account.data.ok(),
        forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] __it6_.items()[i]) == fs[i],
        __acc5_ ==> forall|i: int| 0 <= i < __it6_.pos() ==> allows_f((#[trigger] fs[i]).ftype(), account.account.data.plain()),
    ensures __acc5_ == allowed(fs, account.account.data.plain()),
//@ end
//@ fn TokenProgramAccountsStorage::new ret=r
    requires token_accounts_storage.wf(), token_accounts_storage.cells().len() == 0,
    ensures r.wf(), r.confirmed_slot == 0, r.finalized_slot == 0, forall|pk: Pubkey| !#[trigger] r.has_seen(pk) && r.fin(pk) is None,
//@ exit
    proof {
        reveal(Mints::wf);
        let n = __ret;
        assert forall|pk: Pubkey| #[trigger] n.one_kind(pk) && !n.has_seen(pk) && n.fin(pk) is None by { }
        assert forall|s: u64, pk: Pubkey| #[trigger] n.proc_ok(s, pk) by { }
    }
//@ end
//@ fn AccountStorageInterface for TokenProgramAccountsStorage::create_snapshot ret=r
    requires self.wf(),
    ensures
        r is Ok <==> program_id == legacy_id() || program_id == new_id(),
        r is Ok ==> lz4_ok(r->Ok_0@) && decoded_snap(lz4_plain(r->Ok_0@)) is Some && snap_of(*self, program_id, decoded_snap(lz4_plain(r->Ok_0@))->0),
//@ start
    let ghost c = *self;
    let ghost pid = program_id;
    let ghost mut tk = Seq::<Vec<u8>>::empty();
    let ghost mut s = Seq::<int>::empty();
    let ghost mut mi = Seq::<int>::empty();
    let ghost mut ks = Seq::<Pubkey>::empty();
    proof { reveal(Mints::wf); }
//@ aftercall create_snapshot
    proof { tk = token_accounts@; s = choose|s: Seq<int>| cells_encoded(c.cells(), program, s, tk); assert(cells_encoded(c.cells(), program, s, tk)); }
//@ loop 0
    invariant
        tk == token_accounts@, __it0_.items().len() == tk.len(), __it0_.pos() <= __it0_.items().len(), cells_encoded(c.cells(), program, s, tk),
        forall|i: int| 0 <= i < tk.len() ==> *(#[trigger] __it0_.items()[i]) == tk[i],
        forall|i: int| 0 <= i < __it0_.pos() ==> __acc0_@.contains(tok_of((#[trigger] tk[i])@).mint),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof { if __it0_.pos() < tk.len() { assert(*__it0_.items()[__it0_.pos() as int] == tk[__it0_.pos() as int]); assert(enc_ok(tk[__it0_.pos() as int]@)); } }
//@ loopafter 0
    proof { lemma_mints_none(c, program, __acc0_@); }
//@ loop 1
    invariant
        c == *self, c.wf(), enumerates_refs(__it1_.items(), c.mints_by_index@), __it1_.pos() <= __it1_.items().len(),
        mints_of(c, program, used_mints@, __it1_.items(), __it1_.pos() as int, mi, __acc1_@),
    ensures __it1_.pos() == __it1_.items().len(), enumerates_refs(__it1_.items(), c.mints_by_index@),
//@ loopstart 1
    let ghost n = __it1_.pos() as int;
    let ghost r0 = __acc1_@;
//@ loopend 1
    proof { lemma_mints_of_step(c, program, used_mints@, __it1_.items(), n, mi, r0, __acc1_@); if __acc1_@.len() > r0.len() { mi = mi.push(n); } }
//@ loopafter 1
    proof { lemma_mints_of(c, program, used_mints@, __it1_.items(), mi, __acc1_@); }
//@ loop 2
    invariant
        c == *self, c.wf(), enumerates_refs(__it2_.items(), c.multisigs@), __it2_.pos() <= __it2_.items().len(),
        multis_of(c, program, __acc2_@),
        forall|j: int| 0 <= j < __it2_.pos() && (#[trigger] __it2_.items()[j]).1.program == program ==> __acc2_@.contains(*__it2_.items()[j].1),
    ensures __it2_.pos() == __it2_.items().len(), enumerates_refs(__it2_.items(), c.multisigs@),
//@ loopstart 2
    let ghost n = __it2_.pos() as int;
    let ghost r0 = __acc2_@;
//@ loopend 2
    proof {
        let x = *__it2_.items()[n].1;
        assert(c.multisigs@.contains_key(*__it2_.items()[n].0));
        assert forall|j: int| 0 <= j < n + 1 && (#[trigger] __it2_.items()[j]).1.program == program implies __acc2_@.contains(*__it2_.items()[j].1) by {
            let y = *__it2_.items()[j].1;
            if j < n { let i = choose|i: int| 0 <= i < r0.len() && r0[i] == y; assert(__acc2_@[i] == y); } else { assert(__acc2_@[r0.len() as int] == y); }
        }
    }
//@ loopafter 2
    proof {
        assert forall|pk: Pubkey| #[trigger] c.multisigs@.contains_key(pk) && c.multisigs@[pk].program == program implies __acc2_@.contains(c.multisigs@[pk]) by {
            let j = choose|j: int| 0 <= j < __it2_.items().len() && *(#[trigger] __it2_.items()[j]).0 == pk;
            assert(*__it2_.items()[j].1 == c.multisigs@[pk]);
        }
    }
//@ aftercall bincode_serialize
    proof { lemma_snap_of(c, program, pid, s, used_mints@, decoded_snap(binary@)->0); }
//@ end
//@ fn AccountStorageInterface for TokenProgramAccountsStorage::load_from_snapshot ret=r self=mut
    requires old(self).wf(), lz4_ok(snapshot@), decoded_snap(lz4_plain(snapshot@)) is Some, snap_ok(decoded_snap(lz4_plain(snapshot@))->0),
        old(self).room_for_snap(decoded_snap(lz4_plain(snapshot@))->0),
    ensures r is Ok, loaded(*old(self), *final(self), decoded_snap(lz4_plain(snapshot@))->0),
//@ start
    let ghost o = *self;
    let ghost v = decoded_snap(lz4_plain(snapshot@))->0;
    let ghost nm = v.multisigs.len() as int;
    let ghost nt = v.mints.len() as int;
    proof { lemma_loading_start(o, v); reveal(Mints::wf); }
//@ loop 0
    invariant
        o.wf(), snap_ok(v), o.room_for_snap(v), nm == v.multisigs.len(), __it0_.items() == v.multisigs, __it0_.pos() <= __it0_.items().len(), loading(o, *self, v, __it0_.pos() as int),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    let ghost n = __it0_.pos() as int;
    let ghost c0 = *self;
    proof { lemma_room(o, c0, v, n); lemma_snap_parts(v); if n < nm { assert(v.multisigs[n].wf()); } }
//@ loopend 0
    proof { lemma_loading_step(o, c0, *self, v, n); }
//@ loopafter 0
    proof { lemma_mapped_none(v); }
//@ loop 1
    invariant
        o.wf(), snap_ok(v), o.room_for_snap(v), nm == v.multisigs.len(), nt == v.mints.len(), __it1_.items() == v.mints, __it1_.pos() <= __it1_.items().len(), loading(o, *self, v, nm + __it1_.pos()),
        mapped(mint_mapping@, v, __it1_.pos() as int, self.mts()),
    ensures __it1_.pos() == __it1_.items().len(),
//@ loopstart 1
    let ghost n = __it1_.pos() as int;
    let ghost c0 = *self;
    let ghost m0 = mint_mapping@;
    let ghost mut c1 = *self;
    proof { lemma_room(o, c0, v, nm + n); lemma_snap_parts(v); if n < nt { assert(v.mints[n].1.is_there() ==> v.mints[n].1.tagged()); } }
//@ aftercall get_or_create_mint_index
    proof { c1 = *self; lemma_loading_wf(o, c0, v, nm + n); lemma_grown(c0, c1); }
//@ loopend 1
    proof {
        if !v.mints[n].1.is_there() { lemma_keeps_self(c1.mts()); }
        lemma_keeps(c0.mts(), c1.mts(), self.mts());
        lemma_loading_step(o, c0, *self, v, nm + n);
        lemma_mapped(m0, v, n, c0.mts(), c1.mts(), mint_mapping@);
        lemma_mapped_kept(mint_mapping@, v, n + 1, c1.mts(), self.mts());
    }
//@ loop 2
    invariant
        o.wf(), snap_ok(v), o.room_for_snap(v), nm == v.multisigs.len(), nt == v.mints.len(), __it2_.items() == v.tokens, __it2_.pos() <= __it2_.items().len(), loading(o, *self, v, nm + nt + __it2_.pos()),
        mapped(mint_mapping@, v, nt, self.mts()),
    ensures __it2_.pos() == __it2_.items().len(),
//@ loopstart 2
    let ghost n = __it2_.pos() as int;
    let ghost c0 = *self;
    proof { lemma_room(o, c0, v, nm + nt + n); if n < v.tokens.len() { lemma_token_ok(v, n, mint_mapping@, c0.mts()); } }
//@ aftercall from_bytes
    let ghost t0 = token_account;
    proof { assert(decodes(v.tokens[n]@, t0)); lemma_tok_of(v.tokens[n]@, t0); }
//@ aftercall add_account_finalized 2
    proof {
        assert(token_account.st() == (TokState { mint: mint_mapping@[t0.mint], ..t0.st() }));
        assert(shown_token(token_account, c0.mts()) == Some(snap_token(v, tok_of(v.tokens[n]@))));
    }
//@ loopend 2
    proof {
        lemma_loading_step(o, c0, *self, v, nm + nt + n);
        lemma_mapped_kept(mint_mapping@, v, nt, c0.mts(), self.mts());
    }
//@ loopafter 2
    proof { lemma_loaded(o, *self, v); }
//@ end
}
impl ProcessedAccountStore {
//@ fn ProcessedAccountStore::get_processed_for_slot ret=r self=mut
    requires old(self).wf(), forall|pk: Pubkey| #[trigger] entry_ok(old(self).slots(), mm(mints_by_index@), slot_info.slot, pk),
    ensures final(self).wf(),
        final(self).slots() == (if old(self).slots().contains_key(slot_info.slot) { old(self).slots() } else { slots_after(old(self).slots(), slot_info) }),
        exists|ks: Seq<Pubkey>| #[trigger] told(old(self).slots(), slot_info.slot, false, mints_by_index@, ks, r@),
//@ start
    let ghost m0 = self.slots();
    let ghost b = mints_by_index@;
    let ghost mut idx = Seq::<int>::empty();
    let ghost mut all = Seq::<(ProcessedAccount, u64)>::empty();
    let ghost mut ks = Seq::<Pubkey>::empty();
    proof { reveal(sel); lemma_told_none(m0, slot_info.slot, b); }
//@ loop 0
    invariant
        m0 == slot_views(lk@), lk@.contains_key(slot_info.slot), acc.processed_accounts@ == m0[slot_info.slot].accounts, b == mints_by_index@,
        enumerates_refs(__it0_.items(), m0[slot_info.slot].accounts), __it0_.pos() <= __it0_.items().len(),
        forall|pk: Pubkey| #[trigger] entry_ok(m0, mm(b), slot_info.slot, pk),
        sel(listing(__it0_.items(), slot_info.slot), __it0_.pos() as int, b, idx, __acc0_@),
    ensures __it0_.pos() == __it0_.items().len(), all == listing(__it0_.items(), slot_info.slot), ks == Seq::new(__it0_.items().len(), |i: int| *__it0_.items()[i].0),
//@ loopstart 0
    let ghost n = __it0_.pos() as int;
    let ghost r0 = __acc0_@;
    proof {
        all = listing(__it0_.items(), slot_info.slot);
        ks = Seq::new(__it0_.items().len(), |i: int| *__it0_.items()[i].0);
        if n < __it0_.items().len() { assert(entry_ok(m0, mm(b), slot_info.slot, *__it0_.items()[n].0)); assert(acct(m0, slot_info.slot, *__it0_.items()[n].0)); assert(all[n] == (*__it0_.items()[n].1, slot_info.slot)); }
    }
//@ loopend 0
    proof { lemma_sel_step(all, n, b, idx, r0, __acc0_@); if __acc0_@.len() > r0.len() { idx = idx.push(n); } }
//@ loopafter 0
    proof {
        assert forall|pk: Pubkey| (#[trigger] source(m0, slot_info.slot, false, pk)) is Some implies ks.contains(pk) by {
            let i = choose|i: int| 0 <= i < __it0_.items().len() && *(#[trigger] __it0_.items()[i]).0 == pk;
            assert(ks[i] == pk);
        }
        lemma_told(m0, slot_info.slot, false, b, ks, all, idx, __acc0_@);
    }
//@ end
}
impl TokenProgramAccountsStorage {
//@ fn AccountStorageInterface for TokenProgramAccountsStorage::process_slot_data ret=r self=mut
    requires old(self).wf(), commitment == Commitment::Finalized ==> old(self).room_for(slot_info),
    ensures final(self).wf(), slot_done(*old(self), *final(self), slot_info, commitment, r@),
//@ start
    let ghost o = *old(self);
    let ghost b = o.mints_by_index@;
    let ghost mut fins = Seq::<(ProcessedAccount, u64)>::empty();
    let ghost mut mid = *self;
    let ghost mut ks = Seq::<Pubkey>::empty();
    let ghost mut m1 = o.processed_storage.slots();
    proof {
        reveal(sel);
        lemma_slots_after(o, slot_info);
        assert forall|pk: Pubkey| #[trigger] entry_ok(o.processed_storage.slots(), mm(b), slot_info.slot, pk) by { assert(o.proc_ok(slot_info.slot, pk)); }
    }
//@ aftercall finalize
    proof {
        m1 = slots_seen(o, slot_info);
        mid = *self; fins = finalized_accounts@;
        ks = choose|ks: Seq<Pubkey>| #[trigger] moved(m1, slot_info.slot, ks, finalized_accounts@);
        lemma_moved_ok(o, slot_info, ks, fins);
        lemma_trimmed(o, mid, slot_info);
        lemma_keeps(o.mts(), o.mts(), o.mts());
    }
    let ghost mut idx = Seq::<int>::empty();
//@ loop 0
    invariant
        b == self.mints_by_index@, finalized_accounts@ == fins, *self == mid,
        __it0_.items().len() == fins.len(), forall|i: int| 0 <= i < fins.len() ==> *(#[trigger] __it0_.items()[i]) == fins[i],
        forall|i: int| 0 <= i < fins.len() ==> (#[trigger] fins[i]).0.processed_account.wf(mm(b)),
        sel(fins, __it0_.pos() as int, b, idx, __acc0_@),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    let ghost n = __it0_.pos() as int;
    let ghost r0 = __acc0_@;
//@ loopend 0
    proof { lemma_sel_step(fins, n, b, idx, r0, __acc0_@); if __acc0_@.len() > r0.len() { idx = idx.push(n); } }
//@ loopafter 0
    proof { lemma_told(m1, slot_info.slot, true, b, ks, fins, idx, __acc0_@); }
//@ loop 1
    invariant
        __it1_.items() == fins, o.wf(), b == o.mints_by_index@, ks.len() == fins.len(), ks.no_duplicates(), mid.wf(), mid.mts() == o.mts(),
        o.cells().len() + fins.len() < u32::MAX, o.mint_counter + fins.len() < u32::MAX, self.wf_fin(), self.same_rest(mid), keeps(mid.mts(), self.mts()),
        self.cells().len() <= o.cells().len() + __it1_.pos(), self.mint_counter <= o.mint_counter + __it1_.pos(),
        forall|i: int| 0 <= i < fins.len() ==> (#[trigger] fins[i]).0.processed_account.wf(mm(b)) && fins[i].0.processed_account.key() == ks[i],
        forall|pk: Pubkey| #[trigger] self.fin(pk) == fin_upto(mid, ks, fins, __it1_.pos() as int, pk),
    ensures __it1_.pos() == __it1_.items().len(),
//@ loopstart 1
    proof { if __it1_.pos() < fins.len() { lemma_wf_kept(fins[__it1_.pos() as int].0.processed_account, b, o.mts(), self.mts()); lemma_keeps(o.mts(), self.mts(), self.mts()); } }
    let ghost before = *self;
//@ loopend 1
    proof { lemma_keeps(o.mts(), before.mts(), self.mts()); }
//@ loopafter 1
    proof { lemma_final_state(o, mid, slot_info, ks, fins); lemma_kept(mid, *self); }
//@ exit
    proof {
        if commitment != Commitment::Finalized { lemma_reported(o, *self, slot_info); }
        if commitment == Commitment::Confirmed {
            let m = slots_known(o, slot_info);
            if o.confirmed_slot < slot_info.slot { assert(m == slots_after(o.processed_storage.slots(), slot_info)); assert(told(m, slot_info.slot, false, b, choose|ks: Seq<Pubkey>| told(m, slot_info.slot, false, b, ks, __ret@), __ret@)); }
            else { assert(m == o.processed_storage.slots()); assert(told(m, slot_info.slot, false, b, choose|ks: Seq<Pubkey>| told(m, slot_info.slot, false, b, ks, __ret@), __ret@)); }
        }
    }
//@ end
//@ fn TokenProgramAccountsStorage::get_program_accounts_finalized ret=r
    requires self.wf_fin(),
    ensures
        account_filters is None ==> r is Err,
        account_filters is Some && can_list(account_filters->0@) ==> r is Ok,
        r is Ok ==> account_filters is Some && fin_list(*self, program_pubkey, account_filters->0@, r->Ok_0@),
//@ start
    broadcast use lemma_part;
    let ghost c = *self;
    let ghost p = program_pubkey;
    let ghost fs = if account_filters is Some { account_filters->0@ } else { Seq::empty() };
    let ghost mut g = (None::<Pubkey>, None::<Pubkey>);
    let ghost mut idx = Seq::<int>::empty();
    let ghost mut all = Seq::<Option<(Shown, u64)>>::empty();
    let ghost mut v = Seq::<TokenAccount>::empty();
    let ghost mut s = Seq::<u32>::empty();
    let ghost mut want = Set::<u32>::empty();
    proof { reveal(picked); reveal(Mints::wf); }
//@ aftercall get_spl_token_owner_mint_filter
    proof { g = (owner, mint); lemma_chosen(fs, g); lemma_nothing(c, p, fs, g); }
//@ loop 0
    invariant
        __it0_.pos() <= __it0_.items().len(), c == *self,
        __it0_.items().len() == c.account_by_owner_pubkey@[part(owner)]@.len(),
        forall|j: int| 0 <= j < __it0_.items().len() ==> *(#[trigger] __it0_.items()[j]) == c.account_by_owner_pubkey@[part(owner)]@[j],
        forall|x: u32| #[trigger] __acc0_@.contains(x) <==> exists|j: int| 0 <= j < __it0_.pos() && *(#[trigger] __it0_.items()[j]) == x,
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopafter 0
    proof {
        assert forall|x: u32| #[trigger] listed(c.account_by_owner_pubkey@, part(owner), x) implies __acc0_@.contains(x) by {
            let j = choose|j: int| 0 <= j < c.account_by_owner_pubkey@[part(owner)]@.len() && c.account_by_owner_pubkey@[part(owner)]@[j] == x;
            assert(*__it0_.items()[j] == x);
        }
    }
//@ loop 2
    invariant
        __it2_.pos() <= __it2_.items().len(), c == *self,
        __it2_.items().len() == token_acc_indexes@.len(),
        forall|j: int| 0 <= j < __it2_.items().len() ==> *(#[trigger] __it2_.items()[j]) == token_acc_indexes@[j],
        forall|x: u32| #[trigger] __acc2_@.contains(x) <==> exists|j: int| 0 <= j < __it2_.pos() && *(#[trigger] __it2_.items()[j]) == x,
    ensures __it2_.pos() == __it2_.items().len(),
//@ loopafter 2
    proof {
        let mi = c.mts().by_pk[mint];
        assert forall|x: u32| #[trigger] queued(c.accounts_index_by_mint@, mi, x) implies __acc2_@.contains(x) by {
            let j = choose|j: int| 0 <= j < c.accounts_index_by_mint@[mi]@.len() && c.accounts_index_by_mint@[mi]@[j] == x;
            assert(*__it2_.items()[j] == x);
        }
    }
//@ aftercall get_by_index 0
    proof {
        want = indexes@;
        v = __src1_@;
        s = choose|s: Seq<u32>| cells_listed(c.cells(), want, s, v);
        all = tok_all(c, v, Some(owner), mint);
    }
//@ aftercall get_by_index 1
    proof {
        want = indexes@;
        v = __src3_@;
        s = choose|s: Seq<u32>| cells_listed(c.cells(), want, s, v);
        all = tok_all(c, v, None, Some(*mint_index));
    }
//@ loop 1
    invariant
        c == *self, c.wf_fin(), __it1_.pos() <= __it1_.items().len(), finalized_slot == self.finalized_slot,
        v.len() == __it1_.items().len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] __it1_.items()[i]) == v[i], cells_listed(c.cells(), want, s, v),
        all == tok_all(c, v, Some(owner), mint),
        picked(all, __it1_.pos() as int, idx, __acc1_@),
    ensures __it1_.pos() == __it1_.items().len(),
//@ loopstart 1
    let ghost n = __it1_.pos() as int;
    let ghost r0 = __acc1_@;
    proof { if n < v.len() { assert(v[n] == *__it1_.items()[n]); assert(s[n] < c.cells().len()); assert(c.cell_ok(s[n])); assert(all[n] == tok_pick(c, v[n], Some(owner), mint)); lemma_st(v[n], c.mts()); } }
//@ loopend 1
    proof { lemma_picked_step(all, n, idx, r0, __acc1_@); if __acc1_@.len() > r0.len() { idx = idx.push(n); } }
//@ loopafter 1
    proof { lemma_tok_list(c, p, fs, g, Some(owner), mint, want, s, v, idx, __acc1_@); }
//@ loop 3
    invariant
        c == *self, c.wf_fin(), __it3_.pos() <= __it3_.items().len(), finalized_slot == self.finalized_slot,
        v.len() == __it3_.items().len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] __it3_.items()[i]) == v[i], cells_listed(c.cells(), want, s, v),
        all == tok_all(c, v, None, Some(*mint_index)),
        picked(all, __it3_.pos() as int, idx, __acc3_@),
    ensures __it3_.pos() == __it3_.items().len(),
//@ loopstart 3
    let ghost n = __it3_.pos() as int;
    let ghost r0 = __acc3_@;
    proof { if n < v.len() { assert(v[n] == *__it3_.items()[n]); assert(s[n] < c.cells().len()); assert(c.cell_ok(s[n])); assert(all[n] == tok_pick(c, v[n], None, Some(*mint_index))); lemma_st(v[n], c.mts()); } }
//@ loopend 3
    proof { lemma_picked_step(all, n, idx, r0, __acc3_@); if __acc3_@.len() > r0.len() { idx = idx.push(n); } }
//@ loopafter 3
    proof { lemma_tok_list(c, p, fs, g, None, Some(*mint_index), want, s, v, idx, __acc3_@); }
//@ loop 4
    invariant
        c == *self, c.wf_fin(), enumerates_refs(__it4_.items(), c.mints_by_index@), __it4_.pos() <= __it4_.items().len(), finalized_slot == self.finalized_slot,
        fs == account_filters@,
        picked(mint_all(__it4_.items(), fs, c.finalized_slot), __it4_.pos() as int, idx, __acc4_@),
    ensures __it4_.pos() == __it4_.items().len(),
//@ loopstart 4
    let ghost n = __it4_.pos() as int;
    let ghost r0 = __acc4_@;
    proof { if n < __it4_.items().len() { assert(mint_all(__it4_.items(), fs, c.finalized_slot)[n] == mint_pick(*__it4_.items()[n].1, fs, c.finalized_slot)); } }
//@ loop 5
    invariant_except_break
        __acc5_,
    invariant
        __it5_.items().len() == fs.len(), __it5_.pos() <= __it5_.items().len(), account.account.data.ok(),
        forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] __it5_.items()[i]) == fs[i],
        __acc5_ ==> forall|i: int| 0 <= i < __it5_.pos() ==> allows_f((#[trigger] fs[i]).ftype(), account.account.data.plain()),
    ensures __acc5_ == allowed(fs, account.account.data.plain()),
//@ loopend 4
    proof { lemma_picked_step(mint_all(__it4_.items(), fs, c.finalized_slot), n, idx, r0, __acc4_@); if __acc4_@.len() > r0.len() { idx = idx.push(n); } }
//@ loopafter 4
    proof { lemma_mint_list(c, p, fs, __it4_.items(), idx, __acc4_@); }
//@ end
}
proof fn lemma_fin_same(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, pk: Pubkey)
    requires o.wf_fin(), n.mts().wf(), cells_wf(n.cells()), keeps(o.mts(), n.mts()),
        n.multisigs@.contains_key(pk) == o.multisigs@.contains_key(pk), o.multisigs@.contains_key(pk) ==> n.multisigs@[pk] == o.multisigs@[pk],
        n.mts().by_pk.contains_key(pk) ==> o.mts().by_pk.contains_key(pk) && n.mts().by_ix[n.mts().by_pk[pk]] == o.mts().by_ix[o.mts().by_pk[pk]] || !mint_there(o.mts(), pk) && !mint_there(n.mts(), pk),
        forall|j: u32| #[trigger] at(n.cells(), pk, j) == at(o.cells(), pk, j), forall|j: u32| #[trigger] at(o.cells(), pk, j) ==> n.cells()[j as int] == o.cells()[j as int],
    ensures n.fin(pk) == o.fin(pk), o.one_kind(pk) ==> n.one_kind(pk),
{
    reveal(keeps);
    assert(held(o.cells(), pk) == held(n.cells(), pk)) by {
        if held(o.cells(), pk) { let j = choose|j: u32| #[trigger] at(o.cells(), pk, j); assert(at(n.cells(), pk, j)); }
        if held(n.cells(), pk) { let j = choose|j: u32| #[trigger] at(n.cells(), pk, j); assert(at(o.cells(), pk, j)); }
    }
    if held(o.cells(), pk) {
        let i = choose|i: u32| #[trigger] at(o.cells(), pk, i);
        let j = choose|j: u32| #[trigger] at(n.cells(), pk, j);
        assert(at(n.cells(), pk, i) && at(o.cells(), pk, j));
        assert(i == j);
        assert(o.cell_ok(i));
    }
}
proof fn lemma_cleared(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, t: TokenProgramAccountType)
    requires o.wf_fin(), cleared(o, n, t),
    ensures n.wf_fin(), keeps(o.mts(), n.mts()),
        forall|pk: Pubkey| pk != t.key() ==> #[trigger] n.fin(pk) == o.fin(pk),
        t is Deleted ==> n.fin(t.key()) is None,
        !(t is TokenAccount) ==> !held(n.cells(), t.key()),
        !(t is Mint) ==> !mint_there(n.mts(), t.key()),
        !(t is MultiSig) ==> !n.multisigs@.contains_key(t.key()),
{
    broadcast use lemma_removed;
    reveal(Mints::wf); reveal(keeps);
    assert(o.mts().wf());
    assert forall|pk: Pubkey| #[trigger] n.one_kind(pk) by {
        assert(o.one_kind(pk));
        if pk != t.key() { lemma_fin_same(o, n, pk); }
    }
    assert forall|pk: Pubkey| pk != t.key() implies #[trigger] n.fin(pk) == o.fin(pk) by { lemma_fin_same(o, n, pk); }
    assert forall|i: u32| i < n.cells().len() implies #[trigger] n.cell_ok(i) by {
        assert(o.cell_ok(i));
        if !(t is TokenAccount) && n.cells()[i as int].live { assert(at(n.cells(), n.cells()[i as int].t.pubkey, i)); assert(at(o.cells(), n.cells()[i as int].t.pubkey, i)); assert(!at(o.cells(), t.key(), i)); }
    }
}
pub open spec fn only_grown(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage) -> bool {
    n.mts().wf() && o.mts().grown(n.mts()) && n.same_rest(o) && n.multisigs == o.multisigs && n.accounts_index_by_mint == o.accounts_index_by_mint
        && n.account_by_owner_pubkey == o.account_by_owner_pubkey && n.token_accounts_storage == o.token_accounts_storage
}
proof fn lemma_grown(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage)
    requires o.wf(),
    ensures only_grown(o, n) ==> n.wf() && n.reads_same_but(o, None) && keeps(o.mts(), n.mts()),
{
    if only_grown(o, n) {
        reveal(Mints::wf); reveal(Mints::grown); reveal(keeps);
        assert forall|pk: Pubkey| #[trigger] n.fin(pk) == o.fin(pk) && n.one_kind(pk) by {
            assert(o.one_kind(pk));
            lemma_fin_same(o, n, pk);
        }
        assert(forall|pk: Pubkey| #[trigger] n.one_kind(pk)) by { assert forall|pk: Pubkey| #[trigger] n.one_kind(pk) by { assert(o.one_kind(pk)); lemma_fin_same(o, n, pk); } }
        assert forall|i: u32| i < n.cells().len() implies #[trigger] n.cell_ok(i) by { assert(o.cell_ok(i)); }
        assert forall|s: u64, pk: Pubkey| #[trigger] n.proc_ok(s, pk) by { assert(o.proc_ok(s, pk)); }
    }
}
proof fn lemma_says(ad: AccountData, t: TokenProgramAccountType, m: Mints)
    requires says(ad, t, m),
    ensures t.key() == ad.pubkey,
{ reveal(says); }
proof fn lemma_keeps(a: Mints, b: Mints, c: Mints)
    ensures keeps(a, b) && keeps(b, c) ==> keeps(a, c), keeps(a, a),
{ reveal(keeps); }
proof fn lemma_inserted(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, t: TokenProgramAccountType, ad: AccountData, r: bool)
    requires o.wf(), t.wf(o.mts()), t.key() == ad.pubkey, n == (TokenProgramAccountsStorage { processed_storage: n.processed_storage, ..o }), n.processed_storage.wf(), placed(o, n, t, ad, r),
    ensures n.wf(), n.reads_same_but(o, None),
{
    assert forall|pk: Pubkey| #[trigger] n.fin(pk) == o.fin(pk) && n.one_kind(pk) by { assert(o.one_kind(pk)); }
    assert(forall|pk: Pubkey| #[trigger] n.one_kind(pk)) by { assert forall|pk: Pubkey| #[trigger] n.one_kind(pk) by { assert(o.one_kind(pk)); } }
    assert forall|i: u32| i < n.cells().len() implies #[trigger] n.cell_ok(i) by { assert(o.cell_ok(i)); }
    assert forall|s: u64, pk: Pubkey| #[trigger] n.proc_ok(s, pk) by { assert(o.proc_ok(s, pk)); }
}
proof fn lemma_write(o: TokenProgramAccountsStorage, m: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, t: TokenProgramAccountType, ad: AccountData, c: Commitment, r: bool)
    requires only_grown(o, m), m.reads_same_but(o, None), keeps(m.mts(), n.mts()), t.wf(m.mts()), says(ad, t, m.mts()),
        if c == Commitment::Finalized { r && n.same_rest(m) && n.fin(ad.pubkey) == t.shown(m.mts()) && n.reads_same_but(m, Some(ad.pubkey)) }
        else { placed(m, n, t, ad, r) && n.reads_same_but(m, None) && n.confirmed_slot == m.confirmed_slot && n.finalized_slot == m.finalized_slot },
    ensures write_of(o, n, t, ad, c, r),
{
    reveal(keeps); reveal(says); reveal(written);
    assert forall|pk: Pubkey| #[trigger] n.fin(pk) == o.fin(pk) || pk == ad.pubkey by { assert(m.fin(pk) == o.fin(pk)); }
}
proof fn lemma_kept(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage)
    requires o.wf(), n.wf_fin(), keeps(o.mts(), n.mts()), n.same_rest(o),
    ensures n.wf(),
{
    reveal(keeps);
    assert forall|s: u64, pk: Pubkey| #[trigger] n.proc_ok(s, pk) by { assert(o.proc_ok(s, pk)); }
}
// a state is kept for its slot, if it is newer than the one that is there
pub open spec fn placed(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, t: TokenProgramAccountType, ad: AccountData, r: bool) -> bool {
    let m = o.processed_storage.slots();
    let s = ad.updated_slot;
    &&& r == !(acct(m, s, ad.pubkey) && m[s].accounts[ad.pubkey].write_version >= ad.write_version)
    &&& n.processed_storage.slots() == (if r { m.insert(s, SlotView {
            accounts: slot_or_empty(m, s).accounts.insert(ad.pubkey, ProcessedAccount { processed_account: t, write_version: ad.write_version }), parent: slot_or_empty(m, s).parent }) } else { m })
}
// an update at a commitment: finalized at once, or kept for its slot
#[verifier::opaque]
pub open spec fn written(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, t: TokenProgramAccountType, ad: AccountData, c: Commitment, r: bool) -> bool {
    if c == Commitment::Finalized { r && n.same_rest(o) && n.fin(ad.pubkey) == t.shown(n.mts()) && n.reads_same_but(o, Some(ad.pubkey)) }
    else {
        placed(o, n, t, ad, r) && n.reads_same_but(o, None) && n.confirmed_slot == o.confirmed_slot && n.finalized_slot == o.finalized_slot
    }
}
pub open spec fn write_of(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, t: TokenProgramAccountType, ad: AccountData, c: Commitment, r: bool) -> bool { t.wf(n.mts()) && says(ad, t, n.mts()) && written(o, n, t, ad, c, r) }
pub open spec fn updated(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, ad: AccountData, c: Commitment, r: bool) -> bool {
    if !o.concerns(ad) { !r && n == o }
    else {
        ||| exists|t: TokenProgramAccountType| #[trigger] write_of(o, n, t, ad, c, r)
        ||| !r && n.same_rest(o) && n.reads_same_but(o, None) && !gone(ad) && !canonical(ad.account.owner, ad.account.data.plain())
    }
}
// the states that are not finalized are kept for the account they are states of
proof fn lemma_chain_acct(m: Map<u64, SlotView>, s: Option<u64>, pk: Pubkey)
    ensures ({ let r = on_chain(m, s, pk); r is Some ==> acct(m, (r->0).1, pk) && (r->0).0 == m[(r->0).1].accounts[pk] }),
    decreases (match s { Some(x) => x as nat + 1, None => 0nat }),
{
    if s is Some && m.contains_key(s->0) && !m[s->0].accounts.contains_key(pk) && m[s->0].parent is Some && m[s->0].parent->0 < s->0 { lemma_chain_acct(m, m[s->0].parent, pk); }
}
proof fn lemma_state_ok(c: TokenProgramAccountsStorage, pk: Pubkey, at: Commitment, p: Option<(ProcessedAccount, u64)>)
    requires c.wf(), at_commitment(c.processed_storage.slots(), at, c.confirmed_slot, pk, p),
    ensures p is Some ==> (p->0).0.processed_account.wf(c.mts()) && (p->0).0.processed_account.key() == pk && acct(c.processed_storage.slots(), (p->0).1, pk),
{
    lemma_chain_acct(c.processed_storage.slots(), Some(c.confirmed_slot), pk);
    if p is Some { assert(c.proc_ok((p->0).1, pk)); }
}
// the slots after a slot was reported
pub open spec fn slots_after(m: Map<u64, SlotView>, si: SlotInfo) -> Map<u64, SlotView> {
    m.insert(si.slot, SlotView { accounts: slot_or_empty(m, si.slot).accounts, parent: if si.parent < si.slot { Some(si.parent) } else { None } })
}
// ---- what is reported of the states of a slot ---------------------------------------------------
pub open spec fn listing(items: Seq<(&Pubkey, &ProcessedAccount)>, slot: u64) -> Seq<(ProcessedAccount, u64)> { Seq::new(items.len(), |i: int| (*items[i].1, slot)) }
pub open spec fn shows(p: (ProcessedAccount, u64), b: Map<u32, MintAccount>, ad: AccountData) -> bool {
    p.0.processed_account.shown(mm(b)) == Some(ad.shown()) && ad.account.data.ok() && ad.updated_slot == p.1 && ad.write_version == p.0.write_version
}
pub open spec fn has_state(p: (ProcessedAccount, u64), b: Map<u32, MintAccount>) -> bool { p.0.processed_account.shown(mm(b)) is Some }
// the accounts that exist among the first n states, in order
#[verifier::opaque]
pub open spec fn sel(all: Seq<(ProcessedAccount, u64)>, n: int, b: Map<u32, MintAccount>, idx: Seq<int>, r: Seq<AccountData>) -> bool {
    &&& idx.len() == r.len()
    &&& forall|i: int| 0 <= i < idx.len() ==> 0 <= (#[trigger] idx[i]) < n && shows(all[idx[i]], b, r[i])
    &&& forall|i: int, j: int| 0 <= i < j < idx.len() ==> (#[trigger] idx[i]) < (#[trigger] idx[j])
    &&& forall|j: int| 0 <= j < n && #[trigger] has_state(all[j], b) ==> idx.contains(j)
}
proof fn lemma_sel_step(all: Seq<(ProcessedAccount, u64)>, n: int, b: Map<u32, MintAccount>, idx: Seq<int>, r0: Seq<AccountData>, r: Seq<AccountData>)
    requires 0 <= n < all.len(), sel(all, n, b, idx, r0), r == r0 && !has_state(all[n], b) || r.len() == r0.len() + 1 && r == r0.push(r.last()) && shows(all[n], b, r.last()),
    ensures sel(all, n + 1, b, if r.len() > r0.len() { idx.push(n) } else { idx }, r),
{
    reveal(sel);
    let x = if r.len() > r0.len() { idx.push(n) } else { idx };
    assert forall|j: int| 0 <= j < n + 1 && #[trigger] has_state(all[j], b) implies x.contains(j) by {
        if j < n { let i = choose|i: int| 0 <= i < idx.len() && idx[i] == j; assert(x[i] == j); } else { assert(x[idx.len() as int] == n); }
    }
}
// the state of a key in a slot, or on the whole chain of the slot
pub open spec fn source(m: Map<u64, SlotView>, slot: u64, whole: bool, pk: Pubkey) -> Option<(ProcessedAccount, u64)> {
    if whole { on_chain(m, Some(slot), pk) } else if acct(m, slot, pk) { Some((m[slot].accounts[pk], slot)) } else { None }
}
// every account with such a state is reported, once, as that state
#[verifier::opaque]
pub open spec fn told(m: Map<u64, SlotView>, slot: u64, whole: bool, b: Map<u32, MintAccount>, ks: Seq<Pubkey>, r: Seq<AccountData>) -> bool {
    &&& ks.len() == r.len() && ks.no_duplicates()
    &&& forall|i: int| 0 <= i < ks.len() ==> source(m, slot, whole, #[trigger] ks[i]) is Some && shows(source(m, slot, whole, ks[i])->0, b, r[i])
    &&& forall|pk: Pubkey| (#[trigger] source(m, slot, whole, pk)) is Some && has_state(source(m, slot, whole, pk)->0, b) ==> ks.contains(pk)
}
proof fn lemma_told_none(m: Map<u64, SlotView>, slot: u64, b: Map<u32, MintAccount>)
    ensures !m.contains_key(slot) ==> told(m, slot, false, b, Seq::empty(), Seq::empty()),
{ reveal(told); }
proof fn lemma_told(m: Map<u64, SlotView>, slot: u64, whole: bool, b: Map<u32, MintAccount>, ks: Seq<Pubkey>, all: Seq<(ProcessedAccount, u64)>, idx: Seq<int>, r: Seq<AccountData>)
    requires ks.len() == all.len(), ks.no_duplicates(), forall|i: int| 0 <= i < ks.len() ==> source(m, slot, whole, #[trigger] ks[i]) == Some(all[i]),
        forall|pk: Pubkey| (#[trigger] source(m, slot, whole, pk)) is Some ==> ks.contains(pk), sel(all, all.len() as int, b, idx, r),
    ensures exists|k: Seq<Pubkey>| #[trigger] told(m, slot, whole, b, k, r),
{
    reveal(sel); reveal(told);
    let k = Seq::new(idx.len(), |i: int| ks[idx[i]]);
    assert forall|pk: Pubkey| (#[trigger] source(m, slot, whole, pk)) is Some && has_state(source(m, slot, whole, pk)->0, b) implies k.contains(pk) by {
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == pk;
        assert(source(m, slot, whole, ks[j]) == Some(all[j]));
        assert(has_state(all[j], b));
        let i = choose|i: int| 0 <= i < idx.len() && idx[i] == j;
        assert(k[i] == pk);
    }
    assert forall|i: int| 0 <= i < k.len() implies source(m, slot, whole, #[trigger] k[i]) is Some && shows(source(m, slot, whole, k[i])->0, b, r[i]) by {
        assert(idx[i] < all.len());
        assert(source(m, slot, whole, ks[idx[i]]) == Some(all[idx[i]]));
    }
    assert(told(m, slot, whole, b, k, r));
}
// what a read at a commitment returns: the newest state that is not finalized, or else the finalized one
pub open spec fn state_of(c: TokenProgramAccountsStorage, pk: Pubkey, p: Option<(ProcessedAccount, u64)>) -> Option<Shown> {
    if p is Some { (p->0).0.processed_account.shown(c.mts()) } else { c.fin(pk) }
}
pub open spec fn reads_as(c: TokenProgramAccountsStorage, pk: Pubkey, p: Option<(ProcessedAccount, u64)>, r: Option<AccountData>) -> bool {
    &&& r is Some == state_of(c, pk, p) is Some
    &&& r is Some ==> r->0.shown() == state_of(c, pk, p)->0 && r->0.account.data.ok() && r->0.updated_slot == (if p is Some { (p->0).1 } else { c.finalized_slot })
}
pub open spec fn reads(c: TokenProgramAccountsStorage, pk: Pubkey, at: Commitment, r: Option<AccountData>) -> bool {
    if at == Commitment::Finalized { reads_as(c, pk, None, r) }
    else { exists|p: Option<(ProcessedAccount, u64)>| #[trigger] at_commitment(c.processed_storage.slots(), at, c.confirmed_slot, pk, p) && reads_as(c, pk, p, r) }
}
impl TokenProgramAccountsStorage {
    // the accounts that a slot finalizes can be indexed
    pub open spec fn room_for(&self, si: SlotInfo) -> bool {
        forall|ks: Seq<Pubkey>, r: Seq<(ProcessedAccount, u64)>| #[trigger] moved(slots_seen(*self, si), si.slot, ks, r) ==> self.cells().len() + r.len() < u32::MAX && self.mint_counter + r.len() < u32::MAX
    }
}
// the slots when a slot is about to be finalized
pub open spec fn slots_seen(c: TokenProgramAccountsStorage, si: SlotInfo) -> Map<u64, SlotView> {
    if c.finalized_slot < si.slot { slots_after(c.processed_storage.slots(), si) } else { c.processed_storage.slots() }
}
proof fn lemma_slots_after(c: TokenProgramAccountsStorage, si: SlotInfo)
    requires c.wf(),
    ensures ({ let m = slots_after(c.processed_storage.slots(), si); parents_below(m) && forall|s: u64, pk: Pubkey| #[trigger] entry_ok(m, mm(c.mints_by_index@), s, pk) }),
{
    let m = slots_after(c.processed_storage.slots(), si);
    assert forall|s: u64, pk: Pubkey| #[trigger] entry_ok(m, mm(c.mints_by_index@), s, pk) by { assert(c.proc_ok(s, pk)); }
}
pub open spec fn trimmed(m: Map<u64, SlotView>, n: Map<u64, SlotView>, slot: u64) -> bool {
    &&& forall|s: u64| #[trigger] n.contains_key(s) <==> s > slot && m.contains_key(s)
    &&& forall|s: u64| #[trigger] n.contains_key(s) ==> n[s] == m[s]
}
proof fn lemma_trimmed(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, si: SlotInfo)
    requires o.wf(), n == (TokenProgramAccountsStorage { processed_storage: n.processed_storage, finalized_slot: n.finalized_slot, ..o }), n.processed_storage.wf(),
        trimmed(slots_seen(o, si), n.processed_storage.slots(), si.slot),
    ensures n.wf(), n.reads_same_but(o, None),
{
    lemma_slots_after(o, si);
    assert forall|pk: Pubkey| #[trigger] n.fin(pk) == o.fin(pk) && n.one_kind(pk) by { assert(o.one_kind(pk)); }
    assert(forall|pk: Pubkey| #[trigger] n.one_kind(pk)) by { assert forall|pk: Pubkey| #[trigger] n.one_kind(pk) by { assert(o.one_kind(pk)); } }
    assert forall|i: u32| i < n.cells().len() implies #[trigger] n.cell_ok(i) by { assert(o.cell_ok(i)); }
    assert forall|s: u64, pk: Pubkey| #[trigger] n.proc_ok(s, pk) by { assert(o.proc_ok(s, pk)); assert(entry_ok(slots_seen(o, si), mm(o.mints_by_index@), s, pk)); }
}
proof fn lemma_reported(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, si: SlotInfo)
    requires o.wf(), n == (TokenProgramAccountsStorage { processed_storage: n.processed_storage, confirmed_slot: n.confirmed_slot, ..o }), n.processed_storage.wf(),
        n.processed_storage.slots() == o.processed_storage.slots() || n.processed_storage.slots() == slots_after(o.processed_storage.slots(), si),
    ensures n.wf(), n.reads_same_but(o, None),
{
    lemma_slots_after(o, si);
    assert forall|pk: Pubkey| #[trigger] n.fin(pk) == o.fin(pk) && n.one_kind(pk) by { assert(o.one_kind(pk)); }
    assert(forall|pk: Pubkey| #[trigger] n.one_kind(pk)) by { assert forall|pk: Pubkey| #[trigger] n.one_kind(pk) by { assert(o.one_kind(pk)); } }
    assert forall|i: u32| i < n.cells().len() implies #[trigger] n.cell_ok(i) by { assert(o.cell_ok(i)); }
    assert forall|s: u64, pk: Pubkey| #[trigger] n.proc_ok(s, pk) by { assert(o.proc_ok(s, pk)); assert(entry_ok(slots_after(o.processed_storage.slots(), si), mm(o.mints_by_index@), s, pk)); }
}
proof fn lemma_moved_ok(o: TokenProgramAccountsStorage, si: SlotInfo, ks: Seq<Pubkey>, r: Seq<(ProcessedAccount, u64)>)
    requires o.wf(), moved(slots_seen(o, si), si.slot, ks, r),
    ensures ks.len() == r.len(), ks.no_duplicates(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0.processed_account.wf(mm(o.mints_by_index@)) && r[i].0.processed_account.key() == ks[i],
        forall|i: int| 0 <= i < ks.len() ==> source(slots_seen(o, si), si.slot, true, #[trigger] ks[i]) == Some(r[i]),
        forall|pk: Pubkey| (#[trigger] source(slots_seen(o, si), si.slot, true, pk)) is Some ==> ks.contains(pk),
{
    lemma_slots_after(o, si);
    let m = slots_seen(o, si);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0.processed_account.wf(mm(o.mints_by_index@)) && r[i].0.processed_account.key() == ks[i] by {
        assert(on_chain(m, Some(si.slot), ks[i]) == Some(r[i]));
        lemma_chain_acct(m, Some(si.slot), ks[i]);
        assert(o.proc_ok(r[i].1, ks[i]));
        assert(entry_ok(m, mm(o.mints_by_index@), r[i].1, ks[i]));
    }
    assert forall|pk: Pubkey| (#[trigger] source(m, si.slot, true, pk)) is Some implies ks.contains(pk) by { assert(on_chain(m, Some(si.slot), pk) is Some); }
}
pub open spec fn fin_upto(c: TokenProgramAccountsStorage, ks: Seq<Pubkey>, r: Seq<(ProcessedAccount, u64)>, n: int, pk: Pubkey) -> Option<Shown>
    decreases n,
{
    if n <= 0 { c.fin(pk) } else if ks[n - 1] == pk { r[n - 1].0.processed_account.shown(c.mts()) } else { fin_upto(c, ks, r, n - 1, pk) }
}
proof fn lemma_wf_kept(t: TokenProgramAccountType, b: Map<u32, MintAccount>, m: Mints, n: Mints)
    requires keeps(m, n), m.by_ix == b, t.wf(mm(b)),
    ensures t.wf(n), t.shown(n) == t.shown(m), t.shown(m) == t.shown(mm(b)),
{ reveal(keeps); }
proof fn lemma_fin_upto(c: TokenProgramAccountsStorage, ks: Seq<Pubkey>, r: Seq<(ProcessedAccount, u64)>, n: int, pk: Pubkey)
    requires 0 <= n <= ks.len(), ks.len() == r.len(), ks.no_duplicates(),
    ensures forall|i: int| 0 <= i < n && #[trigger] ks[i] == pk ==> fin_upto(c, ks, r, n, pk) == r[i].0.processed_account.shown(c.mts()),
        (forall|i: int| 0 <= i < n ==> #[trigger] ks[i] != pk) ==> fin_upto(c, ks, r, n, pk) == c.fin(pk),
    decreases n,
{
    if n > 0 { lemma_fin_upto(c, ks, r, n - 1, pk); }
}
// the finalized state of a key when a slot is finalized
pub open spec fn final_state(o: TokenProgramAccountsStorage, si: SlotInfo, pk: Pubkey) -> Option<Shown> {
    let p = on_chain(slots_seen(o, si), Some(si.slot), pk);
    if p is Some { (p->0).0.processed_account.shown(o.mts()) } else { o.fin(pk) }
}
proof fn lemma_final_state(o: TokenProgramAccountsStorage, mid: TokenProgramAccountsStorage, si: SlotInfo, ks: Seq<Pubkey>, r: Seq<(ProcessedAccount, u64)>)
    requires o.wf(), moved(slots_seen(o, si), si.slot, ks, r), mid.mts() == o.mts(), mid.reads_same_but(o, None),
    ensures forall|pk: Pubkey| #[trigger] fin_upto(mid, ks, r, ks.len() as int, pk) == final_state(o, si, pk),
{
    assert forall|pk: Pubkey| #[trigger] fin_upto(mid, ks, r, ks.len() as int, pk) == final_state(o, si, pk) by {
        lemma_fin_upto(mid, ks, r, ks.len() as int, pk);
        assert(mid.fin(pk) == o.fin(pk));
        let p = on_chain(slots_seen(o, si), Some(si.slot), pk);
        if p is Some { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == pk; assert(on_chain(slots_seen(o, si), Some(si.slot), ks[i]) == Some(r[i])); }
        else { assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] != pk by { assert(on_chain(slots_seen(o, si), Some(si.slot), ks[i]) == Some(r[i])); } }
    }
}
pub open spec fn slots_known(c: TokenProgramAccountsStorage, si: SlotInfo) -> Map<u64, SlotView> {
    if c.confirmed_slot < si.slot { slots_after(c.processed_storage.slots(), si) } else { c.processed_storage.slots() }
}
pub open spec fn newer(a: u64, b: u64) -> u64 { if a < b { b } else { a } }
pub open spec fn slot_done(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, si: SlotInfo, c: Commitment, r: Seq<AccountData>) -> bool {
    let m = o.processed_storage.slots();
    let k = n.processed_storage.slots();
    match c {
        Commitment::Processed => k == slots_after(m, si) && r.len() == 0 && n.reads_same_but(o, None) && n.confirmed_slot == o.confirmed_slot && n.finalized_slot == o.finalized_slot,
        Commitment::Confirmed => {
            &&& n.confirmed_slot == newer(o.confirmed_slot, si.slot) && n.finalized_slot == o.finalized_slot && n.reads_same_but(o, None)
            &&& k == (if o.confirmed_slot < si.slot || !m.contains_key(si.slot) { slots_after(m, si) } else { m })
            &&& exists|ks: Seq<Pubkey>| #[trigger] told(slots_known(o, si), si.slot, false, o.mints_by_index@, ks, r)
        },
        Commitment::Finalized => {
            &&& n.finalized_slot == newer(o.finalized_slot, si.slot) && n.confirmed_slot == o.confirmed_slot
            &&& trimmed(slots_seen(o, si), k, si.slot)
            &&& forall|pk: Pubkey| #[trigger] n.fin(pk) == final_state(o, si, pk)
            &&& exists|ks: Seq<Pubkey>| #[trigger] told(slots_seen(o, si), si.slot, true, o.mints_by_index@, ks, r)
        },
    }
}
// ---- lists --------------------------------------------------------------------------------------
pub open spec fn allowed(fs: Seq<AccountFilterType>, d: Seq<u8>) -> bool { forall|i: int| 0 <= i < fs.len() ==> allows_f((#[trigger] fs[i]).ftype(), d) }
pub open spec fn wants(p: Pubkey, fs: Seq<AccountFilterType>, x: Shown) -> bool { x.owner == p && allowed(fs, x.data) }
pub open spec fn in_list(r: Seq<AccountData>, pk: Pubkey) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).pubkey == pk }
// the requests that are answered
pub open spec fn can_list(fs: Seq<AccountFilterType>) -> bool { some_sized(fs, 82) || (one_size(fs, 165) && (some_key(fs, 32) || some_key(fs, 0))) }
// finalized accounts, each once, and all that are wanted (multisig accounts have no index)
#[verifier::opaque]
pub open spec fn fin_list(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, r: Seq<AccountData>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).pubkey != (#[trigger] r[j]).pubkey
    &&& forall|i: int| 0 <= i < r.len() ==> c.fin((#[trigger] r[i]).pubkey) == Some(r[i].shown()) && r[i].account.data.ok() && r[i].updated_slot == c.finalized_slot
    &&& forall|pk: Pubkey| !c.multisigs@.contains_key(pk) && (#[trigger] c.fin(pk)) is Some && wants(p, fs, c.fin(pk)->0) ==> in_list(r, pk)
}
impl AccountData { pub open spec fn seen(self) -> (Shown, u64) { (self.shown(), self.updated_slot) } }
impl TokenProgramAccountsStorage {
    pub open spec fn fin_seen(&self, pk: Pubkey) -> Option<(Shown, u64)> { if self.fin(pk) is Some { Some((self.fin(pk)->0, self.finalized_slot)) } else { None } }
}
// a selection of states
#[verifier::opaque]
pub open spec fn picked(all: Seq<Option<(Shown, u64)>>, n: int, idx: Seq<int>, r: Seq<AccountData>) -> bool {
    &&& idx.len() == r.len()
    &&& forall|i: int| 0 <= i < idx.len() ==> 0 <= (#[trigger] idx[i]) < n && all[idx[i]] == Some(r[i].seen()) && r[i].account.data.ok()
    &&& forall|i: int, j: int| 0 <= i < j < idx.len() ==> (#[trigger] idx[i]) < (#[trigger] idx[j])
    &&& forall|j: int| 0 <= j < n && (#[trigger] all[j]) is Some ==> idx.contains(j)
}
proof fn lemma_picked_step(all: Seq<Option<(Shown, u64)>>, n: int, idx: Seq<int>, r0: Seq<AccountData>, r: Seq<AccountData>)
    requires 0 <= n < all.len(), picked(all, n, idx, r0), r == r0 && all[n] is None || r.len() == r0.len() + 1 && r == r0.push(r.last()) && all[n] == Some(r.last().seen()) && r.last().account.data.ok(),
    ensures picked(all, n + 1, if r.len() > r0.len() { idx.push(n) } else { idx }, r),
{
    reveal(picked);
    let x = if r.len() > r0.len() { idx.push(n) } else { idx };
    assert forall|j: int| 0 <= j < n + 1 && (#[trigger] all[j]) is Some implies x.contains(j) by {
        if j < n { let i = choose|i: int| 0 <= i < idx.len() && idx[i] == j; assert(x[i] == j); } else { assert(x[idx.len() as int] == n); }
    }
}
// what is picked is a list of finalized accounts
proof fn lemma_picked_list(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, all: Seq<Option<(Shown, u64)>>, idx: Seq<int>, r: Seq<AccountData>)
    requires picked(all, all.len() as int, idx, r),
        forall|j: int| 0 <= j < all.len() && (#[trigger] all[j]) is Some ==> c.fin((all[j]->0).0.pubkey) == Some((all[j]->0).0) && (all[j]->0).1 == c.finalized_slot,
        forall|i: int, j: int| 0 <= i < j < all.len() && (#[trigger] all[i]) is Some && (#[trigger] all[j]) is Some ==> (all[i]->0).0.pubkey != (all[j]->0).0.pubkey,
        forall|pk: Pubkey| !c.multisigs@.contains_key(pk) && (#[trigger] c.fin(pk)) is Some && wants(p, fs, c.fin(pk)->0) ==> exists|j: int| 0 <= j < all.len() && #[trigger] all[j] == c.fin_seen(pk) && (c.fin(pk)->0).pubkey == pk,
    ensures fin_list(c, p, fs, r),
{
    reveal(picked); reveal(fin_list);
    assert forall|i: int| 0 <= i < r.len() implies c.fin((#[trigger] r[i]).pubkey) == Some(r[i].shown()) && r[i].account.data.ok() && r[i].updated_slot == c.finalized_slot by { assert(all[idx[i]] == Some(r[i].seen())); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).pubkey != (#[trigger] r[j]).pubkey by { assert(idx[i] < idx[j]); assert(all[idx[i]] == Some(r[i].seen()) && all[idx[j]] == Some(r[j].seen())); }
    assert forall|pk: Pubkey| !c.multisigs@.contains_key(pk) && (#[trigger] c.fin(pk)) is Some && wants(p, fs, c.fin(pk)->0) implies in_list(r, pk) by {
        let j = choose|j: int| 0 <= j < all.len() && #[trigger] all[j] == c.fin_seen(pk) && (c.fin(pk)->0).pubkey == pk;
        let i = choose|i: int| 0 <= i < idx.len() && idx[i] == j;
        assert(r[i].pubkey == pk);
    }
}
pub open spec fn tok_pick(c: TokenProgramAccountsStorage, t: TokenAccount, o: Option<Pubkey>, mi: Option<u32>) -> Option<(Shown, u64)> {
    if !t.is_deleted && (o is Some ==> t.owner == o->0) && (mi is Some ==> t.mint == mi->0) { Some((t.st().shown(c.mts()), c.finalized_slot)) } else { None }
}
pub open spec fn tok_all(c: TokenProgramAccountsStorage, v: Seq<TokenAccount>, o: Option<Pubkey>, mi: Option<u32>) -> Seq<Option<(Shown, u64)>> { Seq::new(v.len(), |i: int| tok_pick(c, v[i], o, mi)) }
pub open spec fn mint_pick(m: MintAccount, fs: Seq<AccountFilterType>, sl: u64) -> Option<(Shown, u64)> { if m.is_there() && allowed(fs, m.bytes()) { Some((shown_mint(m), sl)) } else { None } }
pub open spec fn mint_all(items: Seq<(&u32, &MintAccount)>, fs: Seq<AccountFilterType>, sl: u64) -> Seq<Option<(Shown, u64)>> { Seq::new(items.len(), |i: int| mint_pick(*items[i].1, fs, sl)) }
proof fn lemma_key_eq(a: Pubkey, b: Pubkey)
    requires a.0@ == b.0@,
    ensures a == b,
{ assert(a.0 =~= b.0); }
proof fn lemma_asked(fs: Seq<AccountFilterType>, off: u64, b: Seq<u8>, d: Seq<u8>)
    requires some_asks(fs, off, b), allowed(fs, d),
    ensures off + b.len() <= d.len(), d.subrange(off as int, off + b.len()) == b,
{
    let i = choose|i: int| 0 <= i < fs.len() && asks(#[trigger] fs[i], off, b);
    assert(allows_f(fs[i].ftype(), d));
}
proof fn lemma_sized(fs: Seq<AccountFilterType>, n: u64, d: Seq<u8>)
    requires some_sized(fs, n), allowed(fs, d),
    ensures d.len() == n,
{
    let i = choose|i: int| 0 <= i < fs.len() && sized(#[trigger] fs[i], n);
    assert(allows_f(fs[i].ftype(), d));
}
proof fn lemma_chosen(fs: Seq<AccountFilterType>, g: (Option<Pubkey>, Option<Pubkey>))
    ensures one_size(fs, 165) && (g.0 is Some == some_key(fs, 32)) && (g.1 is Some == some_key(fs, 0)) && (some_key(fs, 32) || some_key(fs, 0)) ==> g.0 is Some || g.1 is Some,
{}
// a wanted account that is not a multisig is a token account, of the owner and the mint asked for
proof fn lemma_relevant(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, g: (Option<Pubkey>, Option<Pubkey>), pk: Pubkey)
    requires c.wf_fin(), chosen(p, fs, g), g.0 is Some || g.1 is Some, !c.multisigs@.contains_key(pk), c.fin(pk) is Some, wants(p, fs, c.fin(pk)->0),
    ensures held(c.cells(), pk), forall|i: u32| #[trigger] at(c.cells(), pk, i) ==> {
        let t = c.cells()[i as int].t;
        &&& c.fin(pk) == Some(t.shown(c.mts())) && c.cell_ok(i)
        &&& g.0 is Some ==> t.owner == g.0->0
        &&& g.1 is Some ==> c.mts().by_pk.contains_key(g.1->0) && t.mint == c.mts().by_pk[g.1->0]
    },
{
    broadcast use axiom_tok, axiom_mint;
    reveal(Mints::wf);
    let x = c.fin(pk)->0;
    if mint_there(c.mts(), pk) {
        let m = c.mts().by_ix[c.mts().by_pk[pk]];
        assert(c.mts().by_ix.contains_key(c.mts().by_pk[pk]));
        assert(m.tagged());
        if some_sized(fs, 165) { lemma_sized(fs, 165, x.data); } else { lemma_asked(fs, 165, seq![2u8], x.data); }
        if m.program is Token2022Program && m.additional_data is Some {
            assert(x.data.len() > 165);
            assert(x.data[165] == m.additional_data->0@[0]);
            if !some_sized(fs, 165) { assert(x.data.subrange(165, 166)[0] == 2u8); }
        } else { assert(x.data.len() == 82); }
        assert(false);
    }
    assert forall|i: u32| #[trigger] at(c.cells(), pk, i) implies {
        let t = c.cells()[i as int].t;
        &&& c.fin(pk) == Some(t.shown(c.mts())) && c.cell_ok(i)
        &&& g.0 is Some ==> t.owner == g.0->0
        &&& g.1 is Some ==> c.mts().by_pk.contains_key(g.1->0) && t.mint == c.mts().by_pk[g.1->0]
    } by {
        let t = c.cells()[i as int].t;
        assert(c.cell_ok(i));
        let k = c.mts().key(t.mint);
        let b = tok_bytes(t.vw(k));
        assert(x.data.subrange(0, 32) =~= b.subrange(0, 32));
        assert(x.data.subrange(32, 64) =~= b.subrange(32, 64));
        if g.0 is Some { lemma_asked(fs, 32, (g.0->0).0@, x.data); lemma_key_eq(t.owner, g.0->0); }
        if g.1 is Some { lemma_asked(fs, 0, (g.1->0).0@, x.data); lemma_key_eq(k, g.1->0); }
    }
}
// nothing is wanted that is not in the indices
proof fn lemma_nothing(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, g: (Option<Pubkey>, Option<Pubkey>))
    requires c.wf_fin(), chosen(p, fs, g),
    ensures g.0 is Some && !c.account_by_owner_pubkey@.contains_key(part(g.0->0)) ==> fin_list(c, p, fs, Seq::empty()),
        g.1 is Some && !c.mts().by_pk.contains_key(g.1->0) ==> fin_list(c, p, fs, Seq::empty()),
        g.1 is Some && c.mts().by_pk.contains_key(g.1->0) && !c.accounts_index_by_mint@.contains_key(c.mts().by_pk[g.1->0]) ==> fin_list(c, p, fs, Seq::empty()),
{
    reveal(fin_list);
    assert forall|pk: Pubkey| !c.multisigs@.contains_key(pk) && (#[trigger] c.fin(pk)) is Some && wants(p, fs, c.fin(pk)->0) && (g.0 is Some || g.1 is Some)
        implies (g.0 is Some ==> c.account_by_owner_pubkey@.contains_key(part(g.0->0))) && (g.1 is Some ==> c.mts().by_pk.contains_key(g.1->0) && c.accounts_index_by_mint@.contains_key(c.mts().by_pk[g.1->0])) by {
        lemma_relevant(c, p, fs, g, pk);
        let i = choose|i: u32| #[trigger] at(c.cells(), pk, i);
        assert(c.cell_ok(i));
    }
}
proof fn lemma_tok_list(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, g: (Option<Pubkey>, Option<Pubkey>), o: Option<Pubkey>, mi: Option<u32>, want: Set<u32>, s: Seq<u32>, v: Seq<TokenAccount>, idx: Seq<int>, r: Seq<AccountData>)
    requires c.wf_fin(), chosen(p, fs, g), g.0 is Some || g.1 is Some, cells_listed(c.cells(), want, s, v), picked(tok_all(c, v, o, mi), v.len() as int, idx, r),
        o is Some ==> o == g.0, mi is Some ==> g.1 is Some && c.mts().by_pk.contains_key(g.1->0) && mi->0 == c.mts().by_pk[g.1->0],
        (g.0 is Some && forall|x: u32| #[trigger] listed(c.account_by_owner_pubkey@, part(g.0->0), x) ==> want.contains(x))
            || (forall|x: u32| g.1 is Some && c.mts().by_pk.contains_key(g.1->0) && #[trigger] queued(c.accounts_index_by_mint@, c.mts().by_pk[g.1->0], x) ==> want.contains(x)) && g.1 is Some && g.0 is None,
        g.0 is Some || mi is Some,
    ensures fin_list(c, p, fs, r),
{
    let all = tok_all(c, v, o, mi);
    reveal(Mints::wf);
    assert forall|j: int| 0 <= j < all.len() && (#[trigger] all[j]) is Some implies c.fin((all[j]->0).0.pubkey) == Some((all[j]->0).0) && (all[j]->0).1 == c.finalized_slot by {
        let i = s[j];
        let pk = v[j].pubkey;
        assert(v[j].st() == c.cells()[i as int].t);
        assert(at(c.cells(), pk, i));
        assert(c.one_kind(pk));
        let k = choose|k: u32| #[trigger] at(c.cells(), pk, k);
        assert(k == i);
    }
    assert forall|i: int, j: int| 0 <= i < j < all.len() && (#[trigger] all[i]) is Some && (#[trigger] all[j]) is Some implies (all[i]->0).0.pubkey != (all[j]->0).0.pubkey by {
        assert(v[i].st() == c.cells()[s[i] as int].t && v[j].st() == c.cells()[s[j] as int].t);
        assert(at(c.cells(), v[i].pubkey, s[i]) && at(c.cells(), v[j].pubkey, s[j]));
        assert(s[i] != s[j]);
    }
    assert forall|pk: Pubkey| !c.multisigs@.contains_key(pk) && (#[trigger] c.fin(pk)) is Some && wants(p, fs, c.fin(pk)->0)
        implies exists|j: int| 0 <= j < all.len() && #[trigger] all[j] == c.fin_seen(pk) && (c.fin(pk)->0).pubkey == pk by {
        lemma_relevant(c, p, fs, g, pk);
        let i = choose|i: u32| #[trigger] at(c.cells(), pk, i);
        let t = c.cells()[i as int].t;
        assert(c.cell_ok(i));
        if g.0 is Some { assert(listed(c.account_by_owner_pubkey@, part(g.0->0), i)); }
        if g.1 is Some { assert(queued(c.accounts_index_by_mint@, c.mts().by_pk[g.1->0], i)); }
        assert(want.contains(i));
        assert(s.contains(i));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == i;
        assert(v[j].st() == t);
        assert(v[j].owner == t.owner && v[j].mint == t.mint);
        assert(all[j] == c.fin_seen(pk));
    }
    lemma_picked_list(c, p, fs, all, idx, r);
}
proof fn lemma_mint_list(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, items: Seq<(&u32, &MintAccount)>, idx: Seq<int>, r: Seq<AccountData>)
    requires c.wf_fin(), some_sized(fs, 82), enumerates_refs(items, c.mints_by_index@), picked(mint_all(items, fs, c.finalized_slot), items.len() as int, idx, r),
    ensures fin_list(c, p, fs, r),
{
    broadcast use axiom_tok, axiom_mint;
    reveal(Mints::wf);
    let all = mint_all(items, fs, c.finalized_slot);
    assert forall|j: int| 0 <= j < all.len() && (#[trigger] all[j]) is Some implies c.fin((all[j]->0).0.pubkey) == Some((all[j]->0).0) && (all[j]->0).1 == c.finalized_slot by {
        let m = *items[j].1;
        assert(c.mts().by_ix.contains_key(*items[j].0) && c.mts().by_ix[*items[j].0] == m);
        assert(c.mts().by_pk.contains_key(m.pubkey) && c.mts().by_pk[m.pubkey] == *items[j].0);
        assert(c.one_kind(m.pubkey));
    }
    assert forall|i: int, j: int| 0 <= i < j < all.len() && (#[trigger] all[i]) is Some && (#[trigger] all[j]) is Some implies (all[i]->0).0.pubkey != (all[j]->0).0.pubkey by {
        assert(c.mts().by_ix.contains_key(*items[i].0) && c.mts().by_ix[*items[i].0] == *items[i].1);
        assert(c.mts().by_ix.contains_key(*items[j].0) && c.mts().by_ix[*items[j].0] == *items[j].1);
    }
    assert forall|pk: Pubkey| !c.multisigs@.contains_key(pk) && (#[trigger] c.fin(pk)) is Some && wants(p, fs, c.fin(pk)->0)
        implies exists|j: int| 0 <= j < all.len() && #[trigger] all[j] == c.fin_seen(pk) && (c.fin(pk)->0).pubkey == pk by {
        lemma_sized(fs, 82, (c.fin(pk)->0).data);
        if !mint_there(c.mts(), pk) { assert((c.fin(pk)->0).data.len() >= 165); }
        let i = c.mts().by_pk[pk];
        assert(c.mts().by_ix.contains_key(i));
        let j = choose|j: int| 0 <= j < items.len() && *(#[trigger] items[j]).0 == i;
        assert(*items[j].1 == c.mts().by_ix[i]);
        assert(all[j] == c.fin_seen(pk));
    }
    lemma_picked_list(c, p, fs, all, idx, r);
}

// ---- lists at a commitment ----------------------------------------------------------------------
pub open spec fn before(v: Seq<Pubkey>, n: int, pk: Pubkey) -> bool { exists|i: int| 0 <= i < n && #[trigger] v[i] == pk }
pub open spec fn now_is(c: TokenProgramAccountsStorage, at: Commitment, pk: Pubkey, q: Option<(ProcessedAccount, u64)>) -> bool {
    if at == Commitment::Finalized { q is None } else { at_commitment(c.processed_storage.slots(), at, c.confirmed_slot, pk, q) }
}
// the state that a read returns, and its slot (see `reads`)
pub open spec fn seen_as(c: TokenProgramAccountsStorage, pk: Pubkey, q: Option<(ProcessedAccount, u64)>) -> Option<(Shown, u64)> {
    if state_of(c, pk, q) is Some { Some((state_of(c, pk, q)->0, if q is Some { (q->0).1 } else { c.finalized_slot })) } else { None }
}
pub open spec fn read_at(c: TokenProgramAccountsStorage, at: Commitment, pk: Pubkey, x: (Shown, u64)) -> bool { exists|q: Option<(ProcessedAccount, u64)>| #[trigger] now_is(c, at, pk, q) && seen_as(c, pk, q) == Some(x) }
#[verifier::opaque]
pub open spec fn gathered(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, at: Commitment, r: Seq<AccountData>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).pubkey != (#[trigger] r[j]).pubkey
    &&& forall|i: int| 0 <= i < r.len() ==> read_at(c, at, (#[trigger] r[i]).pubkey, r[i].seen()) && r[i].account.data.ok()
    &&& forall|pk: Pubkey, q: Option<(ProcessedAccount, u64)>| #[trigger] now_is(c, at, pk, q) && seen_as(c, pk, q) is Some && wants(p, fs, (seen_as(c, pk, q)->0).0) && !(q is None && c.multisigs@.contains_key(pk)) ==> in_list(r, pk)
}
// what a single read at the commitment returns, of the accounts that are wanted, each once and all of them (finalized multisig accounts have no index)
pub open spec fn listed_at(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, at: Commitment, r: Seq<AccountData>) -> bool {
    &&& gathered(c, p, fs, at, r)
    &&& forall|i: int| 0 <= i < r.len() ==> wants(p, fs, (#[trigger] r[i]).shown())
}
proof fn lemma_gathered_fin(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, r: Seq<AccountData>)
    requires fin_list(c, p, fs, r),
    ensures gathered(c, p, fs, Commitment::Finalized, r),
{
    reveal(gathered); reveal(fin_list);
    assert forall|i: int| 0 <= i < r.len() implies read_at(c, Commitment::Finalized, (#[trigger] r[i]).pubkey, r[i].seen()) by { assert(now_is(c, Commitment::Finalized, r[i].pubkey, None)); }
}
pub open spec fn wanted(p: Pubkey, fs: Seq<AccountFilterType>, a: Seq<AccountData>) -> Seq<Option<(Shown, u64)>> { Seq::new(a.len(), |i: int| if wants(p, fs, a[i].shown()) { Some(a[i].seen()) } else { None }) }
proof fn lemma_picked_none(all: Seq<Option<(Shown, u64)>>)
    ensures picked(all, 0, Seq::empty(), Seq::empty()),
{ reveal(picked); }
proof fn lemma_listed(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, at: Commitment, a: Seq<AccountData>, idx: Seq<int>, r: Seq<AccountData>)
    requires gathered(c, p, fs, at, a), picked(wanted(p, fs, a), a.len() as int, idx, r),
    ensures listed_at(c, p, fs, at, r),
{
    reveal(gathered); reveal(picked);
    let w = wanted(p, fs, a);
    assert forall|i: int| 0 <= i < r.len() implies wants(p, fs, (#[trigger] r[i]).shown()) && r[i].seen() == a[idx[i]].seen() && r[i].pubkey == a[idx[i]].pubkey && read_at(c, at, r[i].pubkey, r[i].seen()) by { assert(w[idx[i]] == Some(r[i].seen())); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).pubkey != (#[trigger] r[j]).pubkey by { assert(idx[i] < idx[j]); assert(r[i].pubkey == a[idx[i]].pubkey && r[j].pubkey == a[idx[j]].pubkey); }
    assert forall|pk: Pubkey, q: Option<(ProcessedAccount, u64)>| #[trigger] now_is(c, at, pk, q) && seen_as(c, pk, q) is Some && wants(p, fs, (seen_as(c, pk, q)->0).0) && !(q is None && c.multisigs@.contains_key(pk)) implies in_list(r, pk) by {
        assert(in_list(a, pk));
        let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).pubkey == pk;
        assert(read_at(c, at, pk, a[j].seen()));
        let q2 = choose|q2: Option<(ProcessedAccount, u64)>| #[trigger] now_is(c, at, pk, q2) && seen_as(c, pk, q2) == Some(a[j].seen());
        lemma_one_state(c, at, pk, q, q2);
        assert(w[j] == Some(a[j].seen()));
        let i = choose|i: int| 0 <= i < idx.len() && idx[i] == j;
        assert(r[i].pubkey == pk);
    }
}
proof fn lemma_one_state(c: TokenProgramAccountsStorage, at: Commitment, pk: Pubkey, q: Option<(ProcessedAccount, u64)>, u: Option<(ProcessedAccount, u64)>)
    requires now_is(c, at, pk, q), now_is(c, at, pk, u),
    ensures q == u,
{
    let m = c.processed_storage.slots();
    if at == Commitment::Processed && !no_newer(m, c.confirmed_slot, pk) {
        let (x, y) = ((q->0).1, (u->0).1);
        assert(acct(m, x, pk) && acct(m, y, pk));
        assert(!(x < y) && !(y < x));
        assert(q->0 == u->0);
    }
}
pub open spec fn keys_all(c: TokenProgramAccountsStorage, f: Seq<AccountData>, ks: Seq<Pubkey>) -> bool {
    &&& f.len() <= ks.len()
    &&& forall|i: int| 0 <= i < f.len() ==> #[trigger] ks[i] == f[i].pubkey
    &&& ks.no_duplicates()
    &&& forall|s: u64, pk: Pubkey| #[trigger] acct(c.processed_storage.slots(), s, pk) ==> ks.contains(pk)
}
proof fn lemma_keys_all(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, f: Seq<AccountData>, every: Set<Pubkey>, ks: Seq<Pubkey>)
    requires fin_list(c, p, fs, f), forall|pk: Pubkey| #[trigger] every.contains(pk) <==> exists|s: u64| #[trigger] acct(c.processed_storage.slots(), s, pk),
        exists|t: Seq<Pubkey>, u: Seq<Pubkey>, s: Set<Pubkey>| #[trigger] more_keys(f, every, t, u, s) && ks == t + u,
    ensures keys_all(c, f, ks),
{
    reveal(fin_list);
    let (t, u, s) = choose|t: Seq<Pubkey>, u: Seq<Pubkey>, s: Set<Pubkey>| #[trigger] more_keys(f, every, t, u, s) && ks == t + u;
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] ks[i] == f[i].pubkey by { assert(t[i] == f[i].pubkey); }
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by {
        let n = t.len();
        if i < n && j < n { assert(ks[i] == f[i].pubkey && ks[j] == f[j].pubkey); if i < j { assert(f[i].pubkey != f[j].pubkey); } else { assert(f[j].pubkey != f[i].pubkey); } }
        else if i >= n && j >= n { assert(u[i - n] != u[j - n]); }
        else if i < n { assert(u.contains(u[j - n])); assert(s.contains(u[j - n])); assert(t[i] == ks[i]); }
        else { assert(u.contains(u[i - n])); assert(s.contains(u[i - n])); assert(t[j] == ks[j]); }
    }
    assert forall|sl: u64, pk: Pubkey| #[trigger] acct(c.processed_storage.slots(), sl, pk) implies ks.contains(pk) by {
        assert(every.contains(pk));
        if before(t, t.len() as int, pk) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == pk; assert(ks[i] == pk); }
        else { assert(s.contains(pk)); assert(u.contains(pk)); let i = choose|i: int| 0 <= i < u.len() && u[i] == pk; assert(ks[t.len() + i] == pk); }
    }
}
pub open spec fn more_keys(f: Seq<AccountData>, every: Set<Pubkey>, t: Seq<Pubkey>, u: Seq<Pubkey>, s: Set<Pubkey>) -> bool {
    &&& t.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> #[trigger] t[i] == f[i].pubkey
    &&& each_once(u, s)
    &&& forall|pk: Pubkey| #[trigger] s.contains(pk) <==> every.contains(pk) && !before(t, t.len() as int, pk)
}
pub open spec fn all_of(c: TokenProgramAccountsStorage, f: Seq<AccountData>, ks: Seq<Pubkey>, pr: Seq<Option<(ProcessedAccount, u64)>>) -> Seq<Option<(Shown, u64)>> {
    Seq::new(ks.len(), |i: int| if pr[i] is Some { seen_as(c, ks[i], pr[i]) } else if i < f.len() { Some(f[i].seen()) } else { None })
}
pub open spec fn tail(all: Seq<Option<(Shown, u64)>>, n: int) -> Seq<Option<(Shown, u64)>> { Seq::new(all.len(), |i: int| if i < n { None } else { all[i] }) }
pub open spec fn rm_ok(rm: Seq<usize>, n: int) -> bool {
    &&& forall|q: int| 0 <= q < rm.len() ==> (#[trigger] rm[q]) < n
    &&& forall|q: int, s: int| 0 <= q < s < rm.len() ==> (#[trigger] rm[q]) < (#[trigger] rm[s])
}
pub open spec fn cut_from(rm: Seq<usize>, k: int, j: int) -> bool { exists|q: int| k <= q < rm.len() && #[trigger] rm[q] == j }
#[verifier::opaque]
pub open spec fn merged(all: Seq<Option<(Shown, u64)>>, f: Seq<AccountData>, n: int, a: Seq<AccountData>, rm: Seq<usize>, ixa: Seq<int>, add: Seq<AccountData>) -> bool {
    &&& a.len() == f.len() && f.len() <= all.len()
    &&& forall|i: int| 0 <= i < n && i < f.len() && (#[trigger] all[i]) is Some ==> a[i].seen() == all[i]->0 && a[i].account.data.ok()
    &&& forall|i: int| n <= i < f.len() ==> #[trigger] a[i] == f[i]
    &&& rm_ok(rm, if n < f.len() { n } else { f.len() as int })
    &&& forall|i: int| 0 <= i < n && i < f.len() ==> ((#[trigger] all[i]) is None <==> cut_from(rm, 0, i))
    &&& picked(tail(all, f.len() as int), n, ixa, add)
}
proof fn lemma_merged_start(all: Seq<Option<(Shown, u64)>>, f: Seq<AccountData>)
    requires f.len() <= all.len(),
    ensures merged(all, f, 0, f, Seq::empty(), Seq::empty(), Seq::empty()),
{ reveal(merged); reveal(picked); }
proof fn lemma_merged_step(all: Seq<Option<(Shown, u64)>>, f: Seq<AccountData>, n: int, a0: Seq<AccountData>, rm0: Seq<usize>, ixa: Seq<int>, add0: Seq<AccountData>, a: Seq<AccountData>, rm: Seq<usize>, add: Seq<AccountData>)
    requires merged(all, f, n, a0, rm0, ixa, add0), 0 <= n < all.len(), n <= usize::MAX, n < f.len() ==> f[n].account.data.ok(),
        n < f.len() ==> add =~= add0 && (if all[n] is Some { rm =~= rm0 && (a =~= a0 && all[n] == Some(f[n].seen()) || a =~= a0.update(n, a[n]) && Some(a[n].seen()) == all[n] && a[n].account.data.ok()) } else { a =~= a0 && rm =~= rm0.push(n as usize) }),
        n >= f.len() ==> a == a0 && rm == rm0 && (if all[n] is Some { add == add0.push(add.last()) && add.len() == add0.len() + 1 && all[n] == Some(add.last().seen()) && add.last().account.data.ok() } else { add == add0 }),
    ensures merged(all, f, n + 1, a, rm, if add.len() > add0.len() { ixa.push(n) } else { ixa }, add),
{
    reveal(merged);
    let t = tail(all, f.len() as int);
    assert(t[n] == (if n < f.len() { None } else { all[n] }));
    lemma_picked_step(t, n, ixa, add0, add);
    assert forall|i: int| 0 <= i < n + 1 && i < f.len() implies ((#[trigger] all[i]) is None <==> cut_from(rm, 0, i)) by {
        if cut_from(rm0, 0, i) { let q = choose|q: int| 0 <= q < rm0.len() && #[trigger] rm0[q] == i; assert(rm[q] == i); }
        if cut_from(rm, 0, i) { let q = choose|q: int| 0 <= q < rm.len() && #[trigger] rm[q] == i; if q < rm0.len() { assert(rm0[q] == i); } }
        if i == n && all[n] is None { assert(rm[rm0.len() as int] == n); }
    }
}
#[verifier::opaque]
pub open spec fn cut(n: int, am: Seq<AccountData>, rm: Seq<usize>, k: int, ix: Seq<int>, a: Seq<AccountData>) -> bool {
    &&& 0 <= k <= rm.len() && ix.len() == a.len()
    &&& forall|i: int| 0 <= i < ix.len() ==> 0 <= (#[trigger] ix[i]) < n && a[i] == am[ix[i]]
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> (#[trigger] ix[i]) < (#[trigger] ix[j])
    &&& forall|j: int| 0 <= j < n ==> (#[trigger] ix.contains(j) <==> !cut_from(rm, k, j))
    &&& k > 0 ==> rm[k - 1] < ix.len() && forall|i: int| 0 <= i <= rm[k - 1] ==> #[trigger] ix[i] == i
}
proof fn lemma_cut_start(all: Seq<Option<(Shown, u64)>>, f: Seq<AccountData>, am: Seq<AccountData>, rm: Seq<usize>, ixa: Seq<int>, add: Seq<AccountData>)
    requires merged(all, f, all.len() as int, am, rm, ixa, add),
    ensures am.len() == f.len(), rm_ok(rm, f.len() as int), cut(f.len() as int, am, rm, rm.len() as int, Seq::new(f.len(), |i: int| i), am),
{
    reveal(merged); reveal(cut);
    let ix = Seq::new(f.len(), |i: int| i);
    assert forall|j: int| 0 <= j < f.len() implies #[trigger] ix.contains(j) by { assert(ix[j] == j); }
}
proof fn lemma_cut_step(n: int, am: Seq<AccountData>, rm: Seq<usize>, k: int, ix: Seq<int>, a0: Seq<AccountData>, a: Seq<AccountData>)
    requires k > 0, rm_ok(rm, n), cut(n, am, rm, k, ix, a0), a == a0.remove(rm[k - 1] as int),
    ensures cut(n, am, rm, k - 1, ix.remove(rm[k - 1] as int), a),
{
    reveal(cut);
    let x = rm[k - 1] as int;
    let y = ix.remove(x);
    assert(ix[x] == x);
    assert forall|j: int| 0 <= j < n implies (#[trigger] y.contains(j) <==> !cut_from(rm, k - 1, j)) by {
        if y.contains(j) {
            let i = choose|i: int| 0 <= i < y.len() && y[i] == j;
            assert(j == ix[if i < x { i } else { i + 1 }]);
            assert(ix.contains(j) && j != x);
            if cut_from(rm, k - 1, j) { let q = choose|q: int| k - 1 <= q < rm.len() && #[trigger] rm[q] == j; assert(q >= k); assert(cut_from(rm, k, j)); }
        }
        if !cut_from(rm, k - 1, j) {
            assert(rm[k - 1] == x);
            assert(j != x);
            if cut_from(rm, k, j) { let q = choose|q: int| k <= q < rm.len() && #[trigger] rm[q] == j; assert(cut_from(rm, k - 1, j)); }
            assert(ix.contains(j));
            let i = choose|i: int| 0 <= i < ix.len() && ix[i] == j;
            assert(y[if i < x { i } else { i - 1 }] == j);
        }
    }
    if k - 1 > 0 { assert(rm[k - 2] < rm[k - 1]); assert forall|i: int| 0 <= i <= rm[k - 2] implies #[trigger] y[i] == i by { assert(ix[i] == i); } }
}
proof fn lemma_joined(all: Seq<Option<(Shown, u64)>>, f: Seq<AccountData>, am: Seq<AccountData>, rm: Seq<usize>, ixa: Seq<int>, add: Seq<AccountData>, ix: Seq<int>, ar: Seq<AccountData>, a: Seq<AccountData>)
    requires merged(all, f, all.len() as int, am, rm, ixa, add), cut(f.len() as int, am, rm, 0, ix, ar), a == ar + add,
    ensures picked(all, all.len() as int, ix + ixa, a),
{
    reveal(merged); reveal(cut); reveal(picked);
    let z = ix + ixa;
    let t = tail(all, f.len() as int);
    let n = f.len() as int;
    assert forall|i: int| 0 <= i < z.len() implies 0 <= (#[trigger] z[i]) < all.len() && all[z[i]] == Some(a[i].seen()) && a[i].account.data.ok() by {
        if i < ix.len() { assert(ix.contains(ix[i])); assert(!cut_from(rm, 0, ix[i])); assert(all[ix[i]] is Some); }
        else { let e = i - ix.len(); assert(t[ixa[e]] == Some(add[e].seen())); assert(ixa[e] >= n); }
    }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies (#[trigger] z[i]) < (#[trigger] z[j]) by {
        if i < ix.len() && j >= ix.len() { let e = j - ix.len(); assert(t[ixa[e]] is Some); assert(ix[i] < n); }
    }
    assert forall|j: int| 0 <= j < all.len() && (#[trigger] all[j]) is Some implies z.contains(j) by {
        if j < n { assert(!cut_from(rm, 0, j)); assert(ix.contains(j)); let i = choose|i: int| 0 <= i < ix.len() && ix[i] == j; assert(z[i] == j); }
        else { assert(t[j] == all[j]); let i = choose|i: int| 0 <= i < ixa.len() && ixa[i] == j; assert(z[ix.len() + i] == j); }
    }
}
proof fn lemma_gathered(c: TokenProgramAccountsStorage, p: Pubkey, fs: Seq<AccountFilterType>, at: Commitment, f: Seq<AccountData>, ks: Seq<Pubkey>, pr: Seq<Option<(ProcessedAccount, u64)>>, idx: Seq<int>, r: Seq<AccountData>)
    requires c.wf(), at != Commitment::Finalized, fin_list(c, p, fs, f), keys_all(c, f, ks), pr.len() == ks.len(),
        forall|i: int| 0 <= i < pr.len() ==> at_commitment(c.processed_storage.slots(), at, c.confirmed_slot, ks[i], #[trigger] pr[i]),
        picked(all_of(c, f, ks, pr), ks.len() as int, idx, r),
    ensures gathered(c, p, fs, at, r),
{
    reveal(gathered); reveal(picked); reveal(fin_list);
    let all = all_of(c, f, ks, pr);
    assert forall|i: int| 0 <= i < ks.len() && (#[trigger] all[i]) is Some implies (all[i]->0).0.pubkey == ks[i] && now_is(c, at, ks[i], pr[i]) && seen_as(c, ks[i], pr[i]) == all[i] by {
        lemma_state_ok(c, ks[i], at, pr[i]);
        if pr[i] is Some { lemma_shown_key((pr[i]->0).0.processed_account, c.mts()); }
    }
    assert forall|i: int| 0 <= i < r.len() implies r[i].pubkey == ks[idx[i]] && read_at(c, at, (#[trigger] r[i]).pubkey, r[i].seen()) by { assert(all[idx[i]] == Some(r[i].seen())); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).pubkey != (#[trigger] r[j]).pubkey by { assert(idx[i] < idx[j]); assert(r[i].pubkey == ks[idx[i]] && r[j].pubkey == ks[idx[j]]); }
    assert forall|pk: Pubkey, q: Option<(ProcessedAccount, u64)>| #[trigger] now_is(c, at, pk, q) && seen_as(c, pk, q) is Some && wants(p, fs, (seen_as(c, pk, q)->0).0) && !(q is None && c.multisigs@.contains_key(pk)) implies in_list(r, pk) by {
        lemma_state_ok(c, pk, at, q);
        if q is None { assert(in_list(f, pk)); let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).pubkey == pk; assert(ks[i] == pk); }
        assert(ks.contains(pk));
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == pk;
        lemma_one_state(c, at, pk, q, pr[j]);
        if q is None { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).pubkey == pk; assert(ks[i] == pk); assert(i == j); }
        assert(all[j] is Some);
        let i = choose|i: int| 0 <= i < idx.len() && idx[i] == j;
        assert(r[i].pubkey == pk);
    }
}
proof fn lemma_shown_key(t: TokenProgramAccountType, m: Mints)
    requires t.shown(m) is Some,
    ensures (t.shown(m)->0).pubkey == t.key(),
{}

// ---- snapshots ----------------------------------------------------------------------------------
pub open spec fn snap_mint(v: SnapView, i: u32) -> int { choose|j: int| 0 <= j < v.mints.len() && (#[trigger] v.mints[j]).0 == i }
pub open spec fn mint_listed(v: SnapView, i: u32) -> bool { exists|j: int| 0 <= j < v.mints.len() && (#[trigger] v.mints[j]).0 == i }
// what a snapshot holds: its multisig accounts, its mints, its token accounts
pub open spec fn entry(v: SnapView, n: int) -> Option<Shown> {
    let (nm, nt) = (v.multisigs.len() as int, v.mints.len() as int);
    if n < nm { Some(shown_multi(v.multisigs[n], v.multisigs[n].pubkey)) }
    else if n < nm + nt { let m = v.mints[n - nm].1; if m.is_there() { Some(shown_mint(m)) } else { None } }
    else { Some(snap_token(v, tok_of(v.tokens[n - nm - nt]@))) }
}
pub open spec fn snap_token(v: SnapView, t: TokState) -> Shown { Shown { pubkey: t.pubkey, owner: program_id_of(t.program), data: t.bytes(v.mints[snap_mint(v, t.mint)].1.pubkey) } }
pub open spec fn entries(v: SnapView) -> int { v.multisigs.len() as int + v.mints.len() + v.tokens.len() }
pub open spec fn holds_upto(v: SnapView, n: int, x: Shown) -> bool { exists|e: int| 0 <= e < n && #[trigger] entry(v, e) == Some(x) }
pub open spec fn holds(v: SnapView, x: Shown) -> bool { holds_upto(v, entries(v), x) }
pub open spec fn tok_good(v: SnapView, b: Seq<u8>) -> bool { enc_ok(b) && !dead(b) && tagged(tok_of(b).more, 2) && mint_listed(v, tok_of(b).mint) }
#[verifier::opaque]
pub open spec fn snap_ok(v: SnapView) -> bool {
    &&& forall|i: int| 0 <= i < v.multisigs.len() ==> (#[trigger] v.multisigs[i]).wf()
    &&& forall|i: int| 0 <= i < v.mints.len() ==> ((#[trigger] v.mints[i]).1.is_there() ==> v.mints[i].1.tagged())
    &&& forall|i: int, j: int| 0 <= i < j < v.mints.len() ==> (#[trigger] v.mints[i]).0 != (#[trigger] v.mints[j]).0
    &&& forall|k: int| 0 <= k < v.tokens.len() ==> tok_good(v, (#[trigger] v.tokens[k])@)
    &&& forall|x: Shown, y: Shown| #[trigger] holds(v, x) && #[trigger] holds(v, y) && x.pubkey == y.pubkey ==> x == y
}
// C14: a snapshot holds what reads as an account of the program, and nothing else
pub open spec fn snap_of(c: TokenProgramAccountsStorage, pid: Pubkey, v: SnapView) -> bool {
    &&& snap_ok(v)
    &&& forall|x: Shown| #[trigger] holds(v, x) <==> c.fin(x.pubkey) == Some(x) && x.owner == pid
}
// C14: what a snapshot holds is what is read then; other accounts are as they were
pub open spec fn loaded(o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage, v: SnapView) -> bool {
    &&& n.wf() && n.same_rest(o)
    &&& forall|x: Shown| #[trigger] holds(v, x) ==> n.fin(x.pubkey) == Some(x)
    &&& forall|pk: Pubkey| (forall|x: Shown| #[trigger] holds(v, x) ==> x.pubkey != pk) ==> #[trigger] n.fin(pk) == o.fin(pk)
}
// C14: loading the snapshot of a program into another storage
proof fn lemma_roundtrip(src: TokenProgramAccountsStorage, pid: Pubkey, v: SnapView, o: TokenProgramAccountsStorage, n: TokenProgramAccountsStorage)
    requires src.wf(), snap_of(src, pid, v), loaded(o, n, v),
    ensures forall|pk: Pubkey| #[trigger] n.fin(pk) == (if src.fin(pk) is Some && (src.fin(pk)->0).owner == pid { src.fin(pk) } else { o.fin(pk) }),
{
    assert forall|pk: Pubkey| #[trigger] n.fin(pk) == (if src.fin(pk) is Some && (src.fin(pk)->0).owner == pid { src.fin(pk) } else { o.fin(pk) }) by {
        if src.fin(pk) is Some { lemma_fin_key(src, pk); }
        if src.fin(pk) is Some && (src.fin(pk)->0).owner == pid { assert(holds(v, src.fin(pk)->0)); }
        else { assert forall|x: Shown| #[trigger] holds(v, x) implies x.pubkey != pk by { } }
    }
}
proof fn lemma_fin_key(c: TokenProgramAccountsStorage, pk: Pubkey)
    requires c.wf(), c.fin(pk) is Some,
    ensures (c.fin(pk)->0).pubkey == pk,
{
    reveal(Mints::wf);
    if !c.multisigs@.contains_key(pk) && !mint_there(c.mts(), pk) { let i = choose|i: u32| #[trigger] at(c.cells(), pk, i); assert(at(c.cells(), pk, i)); }
}
pub open spec fn multis_of(c: TokenProgramAccountsStorage, p: Program, r: Seq<MultiSig>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> c.multisigs@.contains_key((#[trigger] r[i]).pubkey) && c.multisigs@[r[i].pubkey] == r[i] && r[i].program == p
}
// the mints that are written to a snapshot
pub open spec fn mint_entry(p: Program, used: Set<u32>, k: u32, m: MintAccount, e: (u32, MintAccount)) -> bool {
    e.0 == k && e.1.pubkey == m.pubkey && (if m.program == p && m.is_there() { e.1 == m } else { !e.1.is_there() })
}
#[verifier::opaque]
pub open spec fn mints_of(c: TokenProgramAccountsStorage, p: Program, used: Set<u32>, items: Seq<(&u32, &MintAccount)>, n: int, mi: Seq<int>, r: Seq<(u32, MintAccount)>) -> bool {
    &&& mi.len() == r.len()
    &&& forall|i: int| 0 <= i < r.len() ==> 0 <= (#[trigger] mi[i]) < n && mint_entry(p, used, *items[mi[i]].0, *items[mi[i]].1, r[i])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] mi[i]) < (#[trigger] mi[j])
    &&& forall|j: int| 0 <= j < n && ((#[trigger] items[j]).1.program == p && items[j].1.is_there() || used.contains(*items[j].0)) ==> mi.contains(j)
}
proof fn lemma_mints_none(c: TokenProgramAccountsStorage, p: Program, used: Set<u32>)
    ensures forall|items: Seq<(&u32, &MintAccount)>| #[trigger] mints_of(c, p, used, items, 0, Seq::empty(), Seq::empty()),
{ reveal(mints_of); }
proof fn lemma_mints_of_step(c: TokenProgramAccountsStorage, p: Program, used: Set<u32>, items: Seq<(&u32, &MintAccount)>, n: int, mi: Seq<int>, r0: Seq<(u32, MintAccount)>, r: Seq<(u32, MintAccount)>)
    requires mints_of(c, p, used, items, n, mi, r0), 0 <= n < items.len(),
        r =~= r0 && !(items[n].1.program == p && items[n].1.is_there() || used.contains(*items[n].0)) || r.len() == r0.len() + 1 && r =~= r0.push(r.last()) && mint_entry(p, used, *items[n].0, *items[n].1, r.last()),
    ensures mints_of(c, p, used, items, n + 1, if r.len() > r0.len() { mi.push(n) } else { mi }, r),
{
    reveal(mints_of);
    let x = if r.len() > r0.len() { mi.push(n) } else { mi };
    assert forall|j: int| 0 <= j < n + 1 && ((#[trigger] items[j]).1.program == p && items[j].1.is_there() || used.contains(*items[j].0)) implies x.contains(j) by {
        if j < n { let i = choose|i: int| 0 <= i < mi.len() && mi[i] == j; assert(x[i] == j); } else { assert(x[mi.len() as int] == n); }
    }
}
#[verifier::opaque]
pub open spec fn mints_kept(c: TokenProgramAccountsStorage, p: Program, used: Set<u32>, r: Seq<(u32, MintAccount)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> c.mts().by_ix.contains_key((#[trigger] r[i]).0) && mint_entry(p, used, r[i].0, c.mts().by_ix[r[i].0], r[i])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& forall|k: u32| #[trigger] c.mts().by_ix.contains_key(k) && (c.mts().by_ix[k].program == p && c.mts().by_ix[k].is_there() || used.contains(k)) ==> exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).0 == k
}
proof fn lemma_mints_of(c: TokenProgramAccountsStorage, p: Program, used: Set<u32>, items: Seq<(&u32, &MintAccount)>, mi: Seq<int>, r: Seq<(u32, MintAccount)>)
    requires enumerates_refs(items, c.mints_by_index@), mints_of(c, p, used, items, items.len() as int, mi, r),
    ensures mints_kept(c, p, used, r),
{
    reveal(mints_of); reveal(mints_kept);
    assert forall|i: int| 0 <= i < r.len() implies c.mts().by_ix.contains_key((#[trigger] r[i]).0) && mint_entry(p, used, r[i].0, c.mts().by_ix[r[i].0], r[i]) && r[i].0 == *items[mi[i]].0 by { assert(0 <= mi[i] < items.len()); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by { assert(mi[i] < mi[j]); assert(r[i].0 == *items[mi[i]].0 && r[j].0 == *items[mi[j]].0); }
    assert forall|k: u32| #[trigger] c.mts().by_ix.contains_key(k) && (c.mts().by_ix[k].program == p && c.mts().by_ix[k].is_there() || used.contains(k)) implies exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).0 == k by {
        let j = choose|j: int| 0 <= j < items.len() && *(#[trigger] items[j]).0 == k;
        let i = choose|i: int| 0 <= i < mi.len() && mi[i] == j;
        assert(r[i].0 == k);
    }
}
proof fn lemma_snap_of(c: TokenProgramAccountsStorage, p: Program, pid: Pubkey, s: Seq<int>, used: Set<u32>, v: SnapView)
    requires c.wf(), pid == program_id_of(p), cells_encoded(c.cells(), p, s, v.tokens), mints_kept(c, p, used, v.mints),
        forall|i: int| 0 <= i < v.tokens.len() ==> used.contains(tok_of((#[trigger] v.tokens[i])@).mint),
        multis_of(c, p, v.multisigs),
        forall|pk: Pubkey| #[trigger] c.multisigs@.contains_key(pk) && c.multisigs@[pk].program == p ==> v.multisigs.contains(c.multisigs@[pk]),
    ensures snap_of(c, pid, v),
{
    reveal(snap_ok); reveal(Mints::wf); reveal(mints_kept);
    let (nm, nt) = (v.multisigs.len() as int, v.mints.len() as int);
    axiom_ids();
    assert forall|k: int| 0 <= k < v.tokens.len() implies tok_good(v, (#[trigger] v.tokens[k])@) by {
        let t = tok_of(v.tokens[k]@);
        assert(in_program(c.cells(), p, s[k]));
        assert(c.cell_ok(s[k] as u32));
        assert(c.mts().by_ix.contains_key(t.mint));
    }
    assert forall|n: int| 0 <= n < entries(v) && (#[trigger] entry(v, n)) is Some implies ({ let x = entry(v, n)->0; c.fin(x.pubkey) == Some(x) && x.owner == pid }) by {
        let x = entry(v, n)->0;
        assert(c.one_kind(x.pubkey));
        if n < nm {
            assert(c.multisigs@.contains_key(v.multisigs[n].pubkey));
        } else if n < nm + nt {
            let e = v.mints[n - nm];
            assert(c.mts().by_ix.contains_key(e.0) && mint_entry(p, used, e.0, c.mts().by_ix[e.0], e));
            assert(c.mts().by_pk[e.1.pubkey] == e.0);
        } else {
            let k = n - nm - nt;
            let t = tok_of(v.tokens[k]@);
            assert(in_program(c.cells(), p, s[k]));
            assert(at(c.cells(), t.pubkey, s[k] as u32));
            assert(c.cell_ok(s[k] as u32));
            let i = choose|i: u32| #[trigger] at(c.cells(), t.pubkey, i);
            assert(i == s[k]);
            assert(tok_good(v, v.tokens[k]@));
            let j = snap_mint(v, t.mint);
            assert(0 <= j < v.mints.len() && v.mints[j].0 == t.mint);
            assert(v.mints[j].1.pubkey == c.mts().key(t.mint));
        }
    }
    assert forall|x: Shown| #[trigger] holds(v, x) <==> c.fin(x.pubkey) == Some(x) && x.owner == pid by {
        if holds(v, x) { let e = choose|e: int| 0 <= e < entries(v) && #[trigger] entry(v, e) == Some(x); assert(entry(v, e) is Some); }
        let pk = x.pubkey;
        if c.fin(pk) == Some(x) && x.owner == pid {
            assert(c.one_kind(pk));
            if c.multisigs@.contains_key(pk) {
                let m = c.multisigs@[pk];
                assert(m.program == p);
                let i = choose|i: int| 0 <= i < v.multisigs.len() && v.multisigs[i] == m;
                assert(entry(v, i) == Some(x));
            } else if mint_there(c.mts(), pk) {
                let k = c.mts().by_pk[pk];
                assert(c.mts().by_ix.contains_key(k) && c.mts().by_ix[k].program == p);
                let j = choose|j: int| 0 <= j < v.mints.len() && (#[trigger] v.mints[j]).0 == k;
                assert(mint_entry(p, used, k, c.mts().by_ix[k], v.mints[j]));
                assert(entry(v, nm + j) == Some(x));
            } else {
                let i = choose|i: u32| #[trigger] at(c.cells(), pk, i);
                assert(at(c.cells(), pk, i));
                assert(in_program(c.cells(), p, i as int));
                assert(s.contains(i as int));
                let k = choose|k: int| 0 <= k < s.len() && s[k] == i;
                assert(tok_of(v.tokens[k]@) == c.cells()[i as int].t);
                assert(entry(v, nm + nt + k) is Some);
                assert(c.fin((entry(v, nm + nt + k)->0).pubkey) == entry(v, nm + nt + k));
                assert(entry(v, nm + nt + k) == Some(x));
            }
        }
    }
    assert forall|i: int| 0 <= i < v.mints.len() && (#[trigger] v.mints[i]).1.is_there() implies v.mints[i].1.tagged() by {
        assert(c.mts().by_ix.contains_key(v.mints[i].0) && mint_entry(p, used, v.mints[i].0, c.mts().by_ix[v.mints[i].0], v.mints[i]));
    }
}
impl TokenProgramAccountsStorage {
    pub open spec fn room_for_snap(&self, v: SnapView) -> bool { self.cells().len() + entries(v) < u32::MAX && self.mint_counter + 2 * entries(v) < u32::MAX }
}
#[verifier::opaque]
pub open spec fn loading(o: TokenProgramAccountsStorage, c: TokenProgramAccountsStorage, v: SnapView, n: int) -> bool {
    &&& c.wf() && c.same_rest(o) && c.cells().len() <= o.cells().len() + n && c.mint_counter <= o.mint_counter + 2 * n
    &&& forall|x: Shown| #[trigger] holds_upto(v, n, x) ==> c.fin(x.pubkey) == Some(x)
    &&& forall|pk: Pubkey| (forall|x: Shown| #[trigger] holds_upto(v, n, x) ==> x.pubkey != pk) ==> #[trigger] c.fin(pk) == o.fin(pk)
}
proof fn lemma_loading_start(o: TokenProgramAccountsStorage, v: SnapView)
    requires o.wf(),
    ensures loading(o, o, v, 0),
{ reveal(loading); }
proof fn lemma_loaded(o: TokenProgramAccountsStorage, c: TokenProgramAccountsStorage, v: SnapView)
    requires loading(o, c, v, entries(v)),
    ensures loaded(o, c, v),
{
    reveal(loading);
    assert forall|x: Shown| #[trigger] holds(v, x) implies c.fin(x.pubkey) == Some(x) by { assert(holds_upto(v, entries(v), x)); }
    assert forall|pk: Pubkey| (forall|x: Shown| #[trigger] holds(v, x) ==> x.pubkey != pk) implies #[trigger] c.fin(pk) == o.fin(pk) by {
        assert forall|x: Shown| #[trigger] holds_upto(v, entries(v), x) implies x.pubkey != pk by { assert(holds(v, x)); }
    }
}
proof fn lemma_snap_parts(v: SnapView)
    requires snap_ok(v),
    ensures forall|i: int| 0 <= i < v.multisigs.len() ==> (#[trigger] v.multisigs[i]).wf(),
        forall|i: int| 0 <= i < v.mints.len() ==> ((#[trigger] v.mints[i]).1.is_there() ==> v.mints[i].1.tagged()),
{ reveal(snap_ok); }
proof fn lemma_mapped_none(v: SnapView)
    ensures forall|s: Mints| #[trigger] mapped(Map::empty(), v, 0, s),
{ reveal(mapped); }
proof fn lemma_loading_wf(o: TokenProgramAccountsStorage, c: TokenProgramAccountsStorage, v: SnapView, n: int)
    requires loading(o, c, v, n),
    ensures c.wf(),
{ reveal(loading); }
proof fn lemma_room(o: TokenProgramAccountsStorage, c: TokenProgramAccountsStorage, v: SnapView, n: int)
    requires loading(o, c, v, n), o.room_for_snap(v), 0 <= n <= entries(v),
    ensures c.wf(), c.cells().len() < u32::MAX, c.mint_counter + 2 * (entries(v) - n) < u32::MAX,
{ reveal(loading); }
proof fn lemma_loading_step(o: TokenProgramAccountsStorage, c: TokenProgramAccountsStorage, d: TokenProgramAccountsStorage, v: SnapView, n: int)
    requires loading(o, c, v, n), snap_ok(v), 0 <= n < entries(v), d.wf_fin(), keeps(c.mts(), d.mts()), d.same_rest(c),
        d.cells().len() <= c.cells().len() + 1, d.mint_counter <= c.mint_counter + 2,
        entry(v, n) is Some ==> d.fin((entry(v, n)->0).pubkey) == entry(v, n),
        forall|pk: Pubkey| (entry(v, n) is Some ==> pk != (entry(v, n)->0).pubkey) ==> #[trigger] d.fin(pk) == c.fin(pk),
    ensures loading(o, d, v, n + 1),
{
    reveal(loading); reveal(snap_ok);
    lemma_kept(c, d);
    assert forall|x: Shown| #[trigger] holds_upto(v, n + 1, x) implies d.fin(x.pubkey) == Some(x) by {
        let e = choose|e: int| 0 <= e < n + 1 && #[trigger] entry(v, e) == Some(x);
        assert(holds(v, x));
        if entry(v, n) is Some && (entry(v, n)->0).pubkey == x.pubkey { assert(holds(v, entry(v, n)->0)); } else { assert(e < n); assert(holds_upto(v, n, x)); }
    }
    assert forall|pk: Pubkey| (forall|x: Shown| #[trigger] holds_upto(v, n + 1, x) ==> x.pubkey != pk) implies #[trigger] d.fin(pk) == o.fin(pk) by {
        assert forall|x: Shown| #[trigger] holds_upto(v, n, x) implies x.pubkey != pk by { let e = choose|e: int| 0 <= e < n && #[trigger] entry(v, e) == Some(x); assert(holds_upto(v, n + 1, x)); }
        if entry(v, n) is Some { assert(holds_upto(v, n + 1, entry(v, n)->0)); }
    }
}
// the indices of the mints of a snapshot, and those they have here
#[verifier::opaque]
pub open spec fn mapped(m: Map<u32, u32>, v: SnapView, n: int, s: Mints) -> bool {
    forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] v.mints[i]).0) && s.knows(m[v.mints[i].0]) && s.key(m[v.mints[i].0]) == v.mints[i].1.pubkey
}
proof fn lemma_keeps_self(m: Mints)
    ensures keeps(m, m),
{ reveal(keeps); }
proof fn lemma_mapped_kept(m: Map<u32, u32>, v: SnapView, n: int, s: Mints, d: Mints)
    requires mapped(m, v, n, s), keeps(s, d),
    ensures mapped(m, v, n, d),
{ reveal(mapped); reveal(keeps); }
proof fn lemma_mapped(m: Map<u32, u32>, v: SnapView, n: int, s: Mints, d: Mints, w: Map<u32, u32>)
    requires mapped(m, v, n, s), keeps(s, d), snap_ok(v), 0 <= n < v.mints.len(), w.contains_key(v.mints[n].0), w == m.insert(v.mints[n].0, w[v.mints[n].0]), d.knows(w[v.mints[n].0]), d.key(w[v.mints[n].0]) == v.mints[n].1.pubkey,
    ensures mapped(w, v, n + 1, d),
{ reveal(mapped); reveal(keeps); reveal(snap_ok); }
proof fn lemma_token_ok(v: SnapView, n: int, m: Map<u32, u32>, s: Mints)
    requires snap_ok(v), 0 <= n < v.tokens.len(), mapped(m, v, v.mints.len() as int, s),
    ensures ({
        let b = v.tokens[n]@;
        let k = tok_of(b).mint;
        &&& dec_ok(b) && m.contains_key(k) && s.knows(m[k])
        &&& forall|t: TokenAccount| #[trigger] decodes(b, t) ==> t.mint == k && t.wf() && !t.is_deleted && tagged(t.st().more, 2)
        &&& forall|t: TokenAccount, u: TokenAccount| #[trigger] decodes(b, t) && u.st() == (TokState { mint: m[k], ..t.st() }) && !u.is_deleted ==> #[trigger] shown_token(u, s) == Some(snap_token(v, tok_of(b)))
    }),
{
    reveal(snap_ok); reveal(mapped);
    broadcast use lemma_tok_of;
    let b = v.tokens[n]@;
    assert(tok_good(v, b));
    let k = tok_of(b).mint;
    let j = snap_mint(v, k);
    assert(0 <= j < v.mints.len() && v.mints[j].0 == k);
    assert forall|t: TokenAccount, u: TokenAccount| #[trigger] decodes(b, t) && u.st() == (TokState { mint: m[k], ..t.st() }) && !u.is_deleted implies #[trigger] shown_token(u, s) == Some(snap_token(v, tok_of(b))) by {
        lemma_st(u, s);
    }
}
