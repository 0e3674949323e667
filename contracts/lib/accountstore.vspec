//@ file common/src/slot_info.rs
//@ struct SlotInfo
//@ contracted serialize deserialize bincode_serialize bincode_deserialize
//@ file common/src/account_store_interface.rs
//@ enum AccountLoadingError
//@ file account_storage/src/inmemory_account_store.rs
//@ type AccountIndex
//@ struct SlotStatus
//@ struct InmemoryAccountStore
//@ split update_owner_delete_if_necessary accounts_by_owner:mut,filtered_accounts
//@ split add_account_owner accounts_by_owner:mut
//@ split remove_account_owner accounts_by_owner:mut
//@ split add_account_index_to_slot_status slots_status:mut
//@ split satisfies_filters filtered_accounts

// ---- the filter store (its contracts are those of the unit `filters`) --------------------------
#[verifier::external_body]
pub struct DynAccountFiltersStoreInterface { x: u8 }
pub open spec fn opt_seq(f: Option<Vec<AccountFilterType>>) -> Option<Seq<AccountFilterType>> {
    match f { None => None, Some(v) => Some(v@) }
}
impl DynAccountFiltersStoreInterface {
    pub uninterp spec fn admits(&self, a: AccountData) -> bool;
    pub uninterp spec fn holds(&self, accounts: Seq<Pubkey>, program_id: Option<Pubkey>, filters: Option<Seq<AccountFilterType>>) -> bool;
    #[verifier::external_body]
    pub fn satisfies(&self, a: &AccountData) -> (r: bool) requires a.account.data.ok(), ensures r == self.admits(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_filter(&self, f: &AccountFilter) -> (r: bool) ensures r == self.holds(f.accounts@, f.program_id, opt_seq(f.filters)) { unimplemented!() }
}
impl Clone for AccountFilterType {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ---- bincode (dependency): deserializing what was serialized gives it back ---------------------
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<Seq<AccountData>>;
#[verifier::external_body]
pub fn bincode_serialize(v: &Vec<AccountData>) -> (r: Result<Vec<u8>, IoError>) ensures r is Ok, decoded(r->Ok_0@) == Some(v@) { unimplemented!() }
#[verifier::external_body]
pub fn bincode_deserialize<T>(b: &Vec<u8>) -> (r: Result<Vec<AccountData>, IoError>)
    ensures match r { Ok(v) => decoded(b@) == Some(v@), Err(_) => decoded(b@) is None }
{ unimplemented!() }

// ---- specification of the store ----------------------------------------------------------------
pub open spec fn live(d: AccountData) -> bool { d.account.lamports > 0 }
pub open spec fn owner_has(m: Map<Pubkey, BTreeSet<usize>>, o: Pubkey, i: usize) -> bool {
    m.contains_key(o) && m[o]@.contains(i)
}
// the commitment of a write of `slot` that arrives as `c`: that of its slot, when this is higher
pub open spec fn eff(m: Map<u64, SlotStatus>, slot: u64, c: Commitment) -> Commitment {
    if m.contains_key(slot) && m[slot].commitment.rank() > c.rank() { m[slot].commitment } else { c }
}
pub open spec fn slot_recorded(o: Map<u64, SlotStatus>, n: Map<u64, SlotStatus>, slot: u64, idx: usize, c: Commitment) -> bool {
    let prev = if o.contains_key(slot) { o[slot].accounts_updated@ } else { Set::<usize>::empty() };
    &&& forall|s: u64| #[trigger] n.contains_key(s) <==> o.contains_key(s) || s == slot
    &&& forall|s: u64| #[trigger] o.contains_key(s) && s != slot ==> n[s] == o[s]
    &&& n[slot].commitment == (if o.contains_key(slot) { o[slot].commitment } else { c })
    &&& n[slot].parent == (if o.contains_key(slot) { o[slot].parent } else { None })
    &&& n[slot].accounts_updated@ =~= (if c == Commitment::Finalized { prev } else { prev.insert(idx) })
}
pub open spec fn entry_ok(s: AccountDataByCommitment, i: usize, idx: Map<Pubkey, usize>, own: Map<Pubkey, BTreeSet<usize>>) -> bool {
    &&& s.wf()
    &&& forall|d: AccountData| #[trigger] keeps(s, d) ==> d.account.data.ok() && idx.contains_key(d.pubkey) && idx[d.pubkey] == i
        && (live(d) ==> owner_has(own, d.account.owner, i))
}
pub open spec fn slots_ok(m: Map<u64, SlotStatus>, n: nat) -> bool {
    forall|s: u64, i: usize| #[trigger] m.contains_key(s) && #[trigger] m[s].accounts_updated@.contains(i) ==> i < n
}
pub open spec fn owners_ok(own: Map<Pubkey, BTreeSet<usize>>, n: nat) -> bool {
    forall|o: Pubkey, i: usize| #[trigger] owner_has(own, o, i) ==> i < n
}
pub open spec fn index_ok(acc: Seq<AccountDataByCommitment>, idx: Map<Pubkey, usize>) -> bool {
    forall|pk: Pubkey| #[trigger] idx.contains_key(pk) ==> idx[pk] < acc.len()
        && (forall|d: AccountData| #[trigger] keeps(acc[idx[pk] as int], d) ==> d.pubkey == pk)
        && (forall|q: Pubkey| #[trigger] idx.contains_key(q) && idx[q] == idx[pk] ==> q == pk)
}
pub open spec fn accounts_ok(acc: Seq<AccountDataByCommitment>, idx: Map<Pubkey, usize>, own: Map<Pubkey, BTreeSet<usize>>) -> bool {
    forall|i: usize| i < acc.len() ==> entry_ok(#[trigger] acc[i as int], i, idx, own)
}
impl InmemoryAccountStore {
    pub open spec fn wf(&self) -> bool {
        &&& accounts_ok(self.accounts_store@, self.pubkey_to_account_index@, self.accounts_by_owner@)
        &&& index_ok(self.accounts_store@, self.pubkey_to_account_index@)
        &&& owners_ok(self.accounts_by_owner@, self.accounts_store@.len())
        &&& slots_ok(self.slots_status@, self.accounts_store@.len())
    }
    pub open spec fn tracked(&self, pk: Pubkey) -> bool { self.pubkey_to_account_index@.contains_key(pk) }
    pub open spec fn entry(&self, pk: Pubkey) -> AccountDataByCommitment { self.accounts_store@[self.pubkey_to_account_index@[pk] as int] }
    // the state of an account at a commitment, deleted ones included
    pub open spec fn state(&self, pk: Pubkey, c: Commitment) -> Option<AccountData> {
        if self.tracked(pk) { vis(self.entry(pk), c) } else { None }
    }
    // what a user reads
    pub open spec fn shown(&self, pk: Pubkey, c: Commitment) -> Option<AccountData> {
        match self.state(pk, c) { Some(d) => if live(d) { Some(d) } else { None }, None => None }
    }
    pub open spec fn matches(&self, pk: Pubkey, program: Pubkey, fs: Option<Seq<AccountFilterType>>, c: Commitment) -> bool {
        match self.shown(pk, c) {
            None => false,
            Some(d) => d.account.owner == program && (fs is None || allowed_by(fs->0, d.account.data.plain())),
        }
    }
    pub open spec fn same_others(&self, o: Self, pk: Pubkey) -> bool {
        forall|q: Pubkey| q != pk ==> (#[trigger] self.tracked(q) <==> o.tracked(q)) && (o.tracked(q) ==> self.entry(q) == o.entry(q) && self.pubkey_to_account_index@[q] == o.pubkey_to_account_index@[q])
    }
}
// a program account list is exact: every matching account once, in its state at the commitment
pub open spec fn exact_list(s: InmemoryAccountStore, v: Seq<AccountData>, program: Pubkey, fs: Option<Seq<AccountFilterType>>, c: Commitment) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> s.matches(#[trigger] v[k].pubkey, program, fs, c) && same_state(v[k], s.shown(v[k].pubkey, c)->0)
    &&& forall|pk: Pubkey| #[trigger] s.matches(pk, program, fs, c) ==> exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).pubkey == pk
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> (#[trigger] v[k]).pubkey != (#[trigger] v[l]).pubkey
}

impl InmemoryAccountStore {
//@ fn InmemoryAccountStore::new ret=r
    ensures r.wf(), r.filtered_accounts == filtered_accounts, forall|pk: Pubkey| !#[trigger] r.tracked(pk),
//@ end
//@ fn InmemoryAccountStore::add_account_owner
    ensures
        forall|o: Pubkey, i: usize| #[trigger] owner_has(final(accounts_by_owner)@, o, i) <==> owner_has(old(accounts_by_owner)@, o, i) || (o == owner && i == account_index),
//@ end
//@ fn InmemoryAccountStore::remove_account_owner
    ensures
        forall|o: Pubkey, i: usize| #[trigger] owner_has(final(accounts_by_owner)@, o, i) <==> owner_has(old(accounts_by_owner)@, o, i) && !(o == owner && i == account_index),
//@ end
//@ fn InmemoryAccountStore::satisfies_filters ret=r
    requires account.account.data.ok(),
    ensures r == filtered_accounts.admits(*account),
//@ end
//@ fn InmemoryAccountStore::is_deleted ret=r
    ensures r == !live(*account),
//@ end
//@ fn InmemoryAccountStore::account_store_contains_key ret=r
    ensures r == self.tracked(*pubkey),
//@ end
//@ fn InmemoryAccountStore::update_owner_delete_if_necessary ret=r
    requires
        prev_account_data.pubkey == new_account_data.pubkey,
        new_account_data.account.data.ok(),
    ensures
        r == drops(*filtered_accounts, *prev_account_data, *new_account_data, *account_by_commitment, commitment),
        forall|o: Pubkey, i: usize| i != account_index ==> (#[trigger] owner_has(final(accounts_by_owner)@, o, i) <==> owner_has(old(accounts_by_owner)@, o, i)),
        !r ==> forall|o: Pubkey| #![trigger owner_has(final(accounts_by_owner)@, o, account_index)] owner_has(old(accounts_by_owner)@, o, account_index) && some_kept_of(*account_by_commitment, o) ==> owner_has(final(accounts_by_owner)@, o, account_index),
//@ end
//@ fn InmemoryAccountStore::add_account_index_to_slot_status ret=r
    ensures
        r == eff(old(slots_status)@, slot, commitment),
        slot_recorded(old(slots_status)@, final(slots_status)@, slot, account_index, commitment),
//@ end
//@ fn InmemoryAccountStore::get_account_with_filtering_from_lock
    requires
        vis(*lk_on_account, commitment) is Some ==> vis(*lk_on_account, commitment)->0.account.data.ok(),
    ensures
        listed(vis(*lk_on_account, commitment), program_pubkey, opt_seq(*account_filters)) ==> final(return_vec)@.len() == old(return_vec)@.len() + 1
            && final(return_vec)@ == old(return_vec)@.push(final(return_vec)@.last()) && same_state(final(return_vec)@.last(), vis(*lk_on_account, commitment)->0),
        !listed(vis(*lk_on_account, commitment), program_pubkey, opt_seq(*account_filters)) ==> final(return_vec)@ == old(return_vec)@,
//@ end
//@ fn AccountStorageInterface for InmemoryAccountStore::update_account ret=r self=mut readmut=accounts_store
    requires
        old(self).wf(), account_data.account.data.ok(), old(self).accounts_store@.len() < usize::MAX,
    ensures
        final(self).wf(),
        final(self).filtered_accounts == old(self).filtered_accounts,
        old(self).accounts_store@.len() <= final(self).accounts_store@.len() <= old(self).accounts_store@.len() + 1,
        update_rel(*old(self), *final(self), account_data, commitment, r),
//@ start
    proof { lemma_keeps(); }
//@ end
//@ fn AccountStorageInterface for InmemoryAccountStore::initilize_or_update_account self=mut
    requires
        old(self).wf(), account_data.account.data.ok(), old(self).accounts_store@.len() < usize::MAX,
    ensures
        final(self).wf(),
        final(self).filtered_accounts == old(self).filtered_accounts,
        old(self).accounts_store@.len() <= final(self).accounts_store@.len() <= old(self).accounts_store@.len() + 1,
        exists|r: bool| update_rel(*old(self), *final(self), account_data, Commitment::Finalized, r),
//@ end
//@ fn AccountStorageInterface for InmemoryAccountStore::get_account ret=r
    requires self.wf(),
    ensures r == Ok::<Option<AccountData>, AccountLoadingError>(self.shown(account_pk, commitment)),
//@ end
//@ fn AccountStorageInterface for InmemoryAccountStore::get_program_accounts ret=r
    requires
        self.wf(),
    ensures
        if self.filtered_accounts.holds(Seq::empty(), Some(program_pubkey), opt_seq(account_filters)) {
            r is Ok && exact_list(*self, r->Ok_0@, program_pubkey, opt_seq(account_filters), commitment)
        } else {
            r == Err::<Vec<AccountData>, AccountLoadingError>(AccountLoadingError::ConfigDoesnotContainRequiredFilters)
        },
//@ start
    proof { lemma_keeps(); lemma_gather_all(*self, program_pubkey, opt_seq(account_filters), commitment); }
//@ loop 0
    invariant
        self.wf(),
        *store_read_lk == self.accounts_store,
        bset_items(__it0_.items(), lk@),
        forall|i: usize| lk@.contains(i) ==> i < self.accounts_store@.len(),
        forall|i: int, j: int| 0 <= i < j < retry_list@.len() ==> retry_list@[i] != retry_list@[j],
        forall|i: int| 0 <= i < retry_list@.len() ==> walked(__it0_.items(), __it0_.pos() as int).contains(#[trigger] retry_list@[i]),
        gathered(*self, commitment, program_pubkey, opt_seq(account_filters), walked(__it0_.items(), __it0_.pos() as int).difference(retry_list@.to_set()), return_vec@),
    ensures
        __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof {
        lemma_keeps();
        if __it0_.pos() < __it0_.items().len() {
            lemma_walked_step(__it0_.items(), __it0_.pos() as int, retry_list@);
            lemma_gather_step(*self, commitment, program_pubkey, opt_seq(account_filters), walked(__it0_.items(), __it0_.pos() as int).difference(retry_list@.to_set()), return_vec@, *__it0_.items()[__it0_.pos() as int]);
        }
    }
//@ loopafter 0
    proof {
        lemma_walked(__it0_.items(), __it0_.pos() as int);
        assert(walked(__it0_.items(), __it0_.pos() as int) =~= lk@);
        assert(lk@.difference(retry_list@.to_set()).union(firsts(retry_list@, 0)) =~= lk@.difference(retry_list@.to_set()));
    }
//@ loop 1
    invariant
        self.wf(),
        *store_read_lk == self.accounts_store,
        forall|i: usize| lk@.contains(i) ==> i < self.accounts_store@.len(),
        forall|i: int, j: int| 0 <= i < j < __it1_.items().len() ==> __it1_.items()[i] != __it1_.items()[j],
        forall|i: int| 0 <= i < __it1_.items().len() ==> lk@.contains(#[trigger] __it1_.items()[i]),
        gathered(*self, commitment, program_pubkey, opt_seq(account_filters), lk@.difference(__it1_.items().to_set()).union(firsts(__it1_.items(), __it1_.pos() as int)), return_vec@),
    ensures
        __it1_.pos() == __it1_.items().len(),
//@ loopstart 1
    proof {
        lemma_keeps();
        let rl = __it1_.items();
        if __it1_.pos() < rl.len() {
            lemma_firsts(rl, __it1_.pos() as int);
            lemma_firsts(rl, (__it1_.pos() + 1) as int);
            let done = lk@.difference(rl.to_set()).union(firsts(rl, __it1_.pos() as int));
            let i = rl[__it1_.pos() as int];
            assert(rl.to_set().contains(i));
            assert(!done.contains(i));
            assert(done.insert(i) =~= lk@.difference(rl.to_set()).union(firsts(rl, (__it1_.pos() + 1) as int)));
            lemma_gather_step(*self, commitment, program_pubkey, opt_seq(account_filters), done, return_vec@, i);
        }
    }
//@ loopafter 1
    proof {
        let rl = __it1_.items();
        lemma_firsts(rl, __it1_.pos() as int);
        assert(lk@.difference(rl.to_set()).union(firsts(rl, __it1_.pos() as int)) =~= lk@) by {
            assert forall|i: usize| #[trigger] lk@.contains(i) && rl.to_set().contains(i) implies firsts(rl, rl.len() as int).contains(i) by {
                let j = choose|j: int| 0 <= j < rl.len() && rl[j] == i;
                assert(rl[j] == i);
            }
        }
    }
//@ end
//@ fn AccountStorageInterface for InmemoryAccountStore::create_snapshot ret=r
    requires self.wf(),
    ensures
        self.filtered_accounts.holds(Seq::empty(), Some(program_id), None) ==> r is Ok && decoded(r->Ok_0@) is Some
            && exact_list(*self, decoded(r->Ok_0@)->0, program_id, None, Commitment::Finalized),
        !self.filtered_accounts.holds(Seq::empty(), Some(program_id), None) ==> r is Err,
//@ end
//@ fn AccountStorageInterface for InmemoryAccountStore::load_from_snapshot ret=r self=mut
    requires
        old(self).wf(),
        decoded(snapshot@) is Some ==> old(self).accounts_store@.len() + decoded(snapshot@)->0.len() < usize::MAX
            && forall|k: int| 0 <= k < decoded(snapshot@)->0.len() ==> (#[trigger] decoded(snapshot@)->0[k]).account.data.ok(),
    ensures
        final(self).wf(),
        decoded(snapshot@) is None ==> r is Err && *final(self) == *old(self),
        decoded(snapshot@) is Some ==> r is Ok && loaded(*old(self), *final(self), decoded(snapshot@)->0, decoded(snapshot@)->0.len() as int),
//@ start
    let ghost list = if decoded(snapshot@) is Some { decoded(snapshot@)->0 } else { Seq::empty() };
//@ loop 0
    invariant
        self.wf(),
        __it0_.items() == list,
        old(self).accounts_store@.len() + list.len() < usize::MAX,
        self.accounts_store@.len() <= old(self).accounts_store@.len() + __it0_.pos(),
        forall|k: int| 0 <= k < list.len() ==> (#[trigger] list[k]).account.data.ok(),
        loaded(*old(self), *self, list, __it0_.pos() as int),
    ensures
        __it0_.pos() == list.len(),
//@ loopstart 0
    proof { if __it0_.pos() < list.len() { lemma_load_step(*old(self), *self, list, __it0_.pos() as int); } }
//@ end
}
pub open spec fn listed(v: Option<AccountData>, program: Pubkey, fs: Option<Seq<AccountFilterType>>) -> bool {
    v is Some && live(v->0) && v->0.account.owner == program && (fs is None || allowed_by(fs->0, v->0.account.data.plain()))
}
proof fn lemma_keeps()
    ensures
        forall|o: AccountDataByCommitment, n: AccountDataByCommitment, d: AccountData, c: Commitment, r: bool, x: AccountData|
            #[trigger] updated_rel(o, n, d, c, r) && #[trigger] keeps(n, x) ==> keeps(o, x) || (x == d && (o.wf() ==> r)),
        forall|n: AccountDataByCommitment, d: AccountData, c: Commitment, x: AccountData|
            #[trigger] created_rel(n, d, c) && #[trigger] keeps(n, x) ==> x == d,
        forall|o: AccountDataByCommitment, n: AccountDataByCommitment, slot: u64, c: Commitment, r: Option<(AccountData, Option<AccountData>)>, x: AccountData|
            #[trigger] promoted_rel(o, n, slot, c, r) && #[trigger] keeps(n, x) ==> keeps(o, x),
        forall|n: AccountDataByCommitment, x: AccountData| #[trigger] emptied(n) ==> !#[trigger] keeps(n, x),
        forall|s: AccountDataByCommitment, c: Commitment| (#[trigger] vis(s, c)) is Some ==> keeps(s, vis(s, c)->0),
        forall|s: AccountDataByCommitment, x: AccountData| #[trigger] keeps(s, x) ==> some_kept_of(s, x.account.owner),
{
    assert forall|o: AccountDataByCommitment, n: AccountDataByCommitment, d: AccountData, c: Commitment, r: bool, x: AccountData|
            #[trigger] updated_rel(o, n, d, c, r) && #[trigger] keeps(n, x) implies keeps(o, x) || (x == d && (o.wf() ==> r)) by {
        if exists|k: u64| #[trigger] n.processed_accounts@.contains_key(k) && n.processed_accounts@[k] == x {
            let k = choose|k: u64| #[trigger] n.processed_accounts@.contains_key(k) && n.processed_accounts@[k] == x;
            if x != d { assert(o.processed_accounts@.contains_key(k) && o.processed_accounts@[k] == x); }
        }
    }
    assert forall|o: AccountDataByCommitment, n: AccountDataByCommitment, slot: u64, c: Commitment, r: Option<(AccountData, Option<AccountData>)>, x: AccountData|
            #[trigger] promoted_rel(o, n, slot, c, r) && #[trigger] keeps(n, x) implies keeps(o, x) by {
        if exists|k: u64| #[trigger] n.processed_accounts@.contains_key(k) && n.processed_accounts@[k] == x {
            let k = choose|k: u64| #[trigger] n.processed_accounts@.contains_key(k) && n.processed_accounts@[k] == x;
            assert(o.processed_accounts@.contains_key(k) && o.processed_accounts@[k] == x);
        }
        if o.processed_accounts@.contains_key(slot) { assert(keeps(o, o.processed_accounts@[slot])); }
    }
    assert forall|s: AccountDataByCommitment, c: Commitment| (#[trigger] vis(s, c)) is Some implies keeps(s, vis(s, c)->0) by { lemma_vis_kept(s, c); }
}
// what a write does to the store
pub open spec fn update_rel(o: InmemoryAccountStore, n: InmemoryAccountStore, d: AccountData, c0: Commitment, r: bool) -> bool {
    let pk = d.pubkey;
    let c = eff(o.slots_status@, d.updated_slot, c0);
    &&& n.same_others(o, pk)
    &&& !o.tracked(pk) && !o.filtered_accounts.admits(d) ==> !r && !n.tracked(pk) && n.slots_status@ == o.slots_status@
    &&& !o.tracked(pk) && o.filtered_accounts.admits(d) ==> r && n.tracked(pk) && created_rel(n.entry(pk), d, c)
        && n.pubkey_to_account_index@[pk] == o.accounts_store@.len()
        && slot_recorded(o.slots_status@, n.slots_status@, d.updated_slot, n.pubkey_to_account_index@[pk], c0)
    &&& o.tracked(pk) ==> slot_recorded(o.slots_status@, n.slots_status@, d.updated_slot, o.pubkey_to_account_index@[pk], c0)
        && exists|u: AccountDataByCommitment| #[trigger] updated_rel(o.entry(pk), u, d, c, r) && u.wf() && (
            if r && vis(o.entry(pk), c) is Some && drops(o.filtered_accounts, vis(o.entry(pk), c)->0, d, u, c) { !n.tracked(pk) }
            else { n.tracked(pk) && n.entry(pk) == u && n.pubkey_to_account_index@[pk] == o.pubkey_to_account_index@[pk] })
}
// ---- program accounts ----
pub open spec fn walked(s: Seq<&usize>, n: int) -> Set<usize> decreases n { if n <= 0 { Set::empty() } else { walked(s, n - 1).insert(*s[n - 1]) } }
proof fn lemma_walked(s: Seq<&usize>, n: int)
    requires 0 <= n <= s.len(),
    ensures forall|i: usize| #[trigger] walked(s, n).contains(i) <==> exists|j: int| 0 <= j < n && *(#[trigger] s[j]) == i,
    decreases n,
{
    if n > 0 {
        lemma_walked(s, n - 1);
        assert forall|i: usize| #[trigger] walked(s, n).contains(i) <==> exists|j: int| 0 <= j < n && *(#[trigger] s[j]) == i by {
            if i == *s[n - 1] { } else if walked(s, n - 1).contains(i) { let j = choose|j: int| 0 <= j < n - 1 && *(#[trigger] s[j]) == i; assert(*s[j] == i); }
        }
    }
}
pub open spec fn firsts(s: Seq<usize>, n: int) -> Set<usize> decreases n { if n <= 0 { Set::empty() } else { firsts(s, n - 1).insert(s[n - 1]) } }
proof fn lemma_firsts(s: Seq<usize>, n: int)
    requires 0 <= n <= s.len(),
    ensures forall|i: usize| #[trigger] firsts(s, n).contains(i) <==> exists|j: int| 0 <= j < n && #[trigger] s[j] == i,
    decreases n,
{
    if n > 0 {
        lemma_firsts(s, n - 1);
        assert forall|i: usize| #[trigger] firsts(s, n).contains(i) <==> exists|j: int| 0 <= j < n && #[trigger] s[j] == i by {
            if i == s[n - 1] { } else if firsts(s, n - 1).contains(i) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] s[j] == i; assert(s[j] == i); }
        }
    }
}
pub open spec fn gathered(s: InmemoryAccountStore, c: Commitment, program: Pubkey, fs: Option<Seq<AccountFilterType>>, done: Set<usize>, v: Seq<AccountData>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> s.tracked((#[trigger] v[k]).pubkey) && done.contains(s.pubkey_to_account_index@[v[k].pubkey])
        && s.matches(v[k].pubkey, program, fs, c) && same_state(v[k], s.shown(v[k].pubkey, c)->0)
    &&& forall|i: usize| #[trigger] done.contains(i) ==> i < s.accounts_store@.len() && (listed(vis(s.accounts_store@[i as int], c), program, fs)
        ==> exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).pubkey == vis(s.accounts_store@[i as int], c)->0.pubkey)
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> (#[trigger] v[k]).pubkey != (#[trigger] v[l]).pubkey
}
proof fn lemma_walked_step(s: Seq<&usize>, n: int, retry: Seq<usize>)
    requires
        0 <= n < s.len(),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]) != *(#[trigger] s[j]),
        forall|i: int| 0 <= i < retry.len() ==> walked(s, n).contains(#[trigger] retry[i]),
    ensures
        !retry.contains(*s[n]),
        !walked(s, n).contains(*s[n]),
        walked(s, n + 1).contains(*s[n]),
        forall|i: usize| walked(s, n).contains(i) ==> walked(s, n + 1).contains(i),
        walked(s, n + 1).difference(retry.push(*s[n]).to_set()) == walked(s, n).difference(retry.to_set()),
        walked(s, n + 1).difference(retry.to_set()) == walked(s, n).difference(retry.to_set()).insert(*s[n]),
{
    lemma_walked(s, n);
    lemma_walked(s, n + 1);
    assert(walked(s, n + 1) =~= walked(s, n).insert(*s[n]));
    assert(retry.push(*s[n]).to_set() =~= retry.to_set().insert(*s[n])) by {
        assert forall|i: usize| #[trigger] retry.to_set().insert(*s[n]).contains(i) implies retry.push(*s[n]).to_set().contains(i) by {
            if i == *s[n] { assert(retry.push(*s[n])[retry.len() as int] == i); }
            else { let j = choose|j: int| 0 <= j < retry.len() && retry[j] == i; assert(retry.push(*s[n])[j] == i); }
        }
    }
    assert(!retry.contains(*s[n]));
    assert(walked(s, n + 1).difference(retry.push(*s[n]).to_set()) =~= walked(s, n).difference(retry.to_set()));
    assert(walked(s, n + 1).difference(retry.to_set()) =~= walked(s, n).difference(retry.to_set()).insert(*s[n]));
}
proof fn lemma_gather_step(s: InmemoryAccountStore, c: Commitment, program: Pubkey, fs: Option<Seq<AccountFilterType>>, done: Set<usize>, v: Seq<AccountData>, i: usize)
    requires s.wf(), gathered(s, c, program, fs, done, v), i < s.accounts_store@.len(), !done.contains(i),
    ensures
        !listed(vis(s.accounts_store@[i as int], c), program, fs) ==> gathered(s, c, program, fs, done.insert(i), v),
        forall|x: AccountData| listed(vis(s.accounts_store@[i as int], c), program, fs) && same_state(x, vis(s.accounts_store@[i as int], c)->0)
            ==> gathered(s, c, program, fs, done.insert(i), #[trigger] v.push(x)),
{
    lemma_keeps();
    let e = vis(s.accounts_store@[i as int], c);
    if listed(e, program, fs) {
        assert(keeps(s.accounts_store@[i as int], e->0));
        assert forall|x: AccountData| same_state(x, e->0) implies gathered(s, c, program, fs, done.insert(i), #[trigger] v.push(x)) by {
            let w = v.push(x);
            assert(entry_ok(s.accounts_store@[i as int], i, s.pubkey_to_account_index@, s.accounts_by_owner@));
            assert(s.tracked(x.pubkey) && s.pubkey_to_account_index@[x.pubkey] == i);
            assert(s.matches(x.pubkey, program, fs, c));
            assert forall|j: usize| #[trigger] done.insert(i).contains(j) implies j < s.accounts_store@.len() && (listed(vis(s.accounts_store@[j as int], c), program, fs)
                ==> exists|k: int| 0 <= k < w.len() && (#[trigger] w[k]).pubkey == vis(s.accounts_store@[j as int], c)->0.pubkey) by {
                if j == i { assert(w[v.len() as int].pubkey == e->0.pubkey); }
                else if listed(vis(s.accounts_store@[j as int], c), program, fs) {
                    assert(done.contains(j));
                    let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).pubkey == vis(s.accounts_store@[j as int], c)->0.pubkey;
                    assert(w[k] == v[k]);
                }
            }
            assert forall|k: int, l: int| 0 <= k < l < w.len() implies (#[trigger] w[k]).pubkey != (#[trigger] w[l]).pubkey by {
                assert(w[k] == v[k]);
                if l < v.len() { assert(w[l] == v[l]); }
            }
        }
    }
}
proof fn lemma_gather_all(s: InmemoryAccountStore, program: Pubkey, fs: Option<Seq<AccountFilterType>>, c: Commitment)
    requires s.wf(),
    ensures
        forall|v: Seq<AccountData>| s.accounts_by_owner@.contains_key(program) && #[trigger] gathered(s, c, program, fs, s.accounts_by_owner@[program]@, v) ==> exact_list(s, v, program, fs, c),
        gathered(s, c, program, fs, Set::empty(), Seq::empty()),
        s.accounts_by_owner@.contains_key(program) ==> forall|i: usize| #[trigger] s.accounts_by_owner@[program]@.contains(i) ==> i < s.accounts_store@.len(),
        !s.accounts_by_owner@.contains_key(program) ==> exact_list(s, Seq::empty(), program, fs, c),
{
    lemma_keeps();
    if s.accounts_by_owner@.contains_key(program) {
        assert forall|i: usize| #[trigger] s.accounts_by_owner@[program]@.contains(i) implies i < s.accounts_store@.len() by { assert(owner_has(s.accounts_by_owner@, program, i)); }
    }
    assert forall|pk: Pubkey| #[trigger] s.matches(pk, program, fs, c) implies owner_has(s.accounts_by_owner@, program, s.pubkey_to_account_index@[pk]) by {
        let i = s.pubkey_to_account_index@[pk];
        assert(keeps(s.accounts_store@[i as int], vis(s.accounts_store@[i as int], c)->0));
        assert(entry_ok(s.accounts_store@[i as int], i, s.pubkey_to_account_index@, s.accounts_by_owner@));
    }
    assert forall|v: Seq<AccountData>| s.accounts_by_owner@.contains_key(program) && #[trigger] gathered(s, c, program, fs, s.accounts_by_owner@[program]@, v) implies exact_list(s, v, program, fs, c) by {
        assert forall|pk: Pubkey| #[trigger] s.matches(pk, program, fs, c) implies exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).pubkey == pk by {
            let i = s.pubkey_to_account_index@[pk];
            assert(s.accounts_by_owner@[program]@.contains(i));
            assert(keeps(s.accounts_store@[i as int], vis(s.accounts_store@[i as int], c)->0));
        }
    }
}
// ---- snapshots ----
// the effect of loading one finalized account
pub open spec fn loaded_one(o: InmemoryAccountStore, n: InmemoryAccountStore, d: AccountData) -> bool {
    let pk = d.pubkey;
    &&& !o.tracked(pk) && !o.filtered_accounts.admits(d) ==> !n.tracked(pk)
    &&& !o.tracked(pk) && o.filtered_accounts.admits(d) ==> n.tracked(pk) && created_rel(n.entry(pk), d, Commitment::Finalized)
    &&& o.tracked(pk) ==> exists|u: AccountDataByCommitment, r: bool| #[trigger] updated_rel(o.entry(pk), u, d, Commitment::Finalized, r) && u.wf() && (
            if r && vis(o.entry(pk), Commitment::Finalized) is Some && drops(o.filtered_accounts, vis(o.entry(pk), Commitment::Finalized)->0, d, u, Commitment::Finalized) { !n.tracked(pk) }
            else { n.tracked(pk) && n.entry(pk) == u })
}
pub open spec fn names(list: Seq<AccountData>, n: int, pk: Pubkey) -> bool { exists|k: int| 0 <= k < n && (#[trigger] list[k]).pubkey == pk }
pub open spec fn distinct_keys(list: Seq<AccountData>) -> bool { forall|k: int, l: int| 0 <= k < l < list.len() ==> (#[trigger] list[k]).pubkey != (#[trigger] list[l]).pubkey }
pub open spec fn loaded(o: InmemoryAccountStore, n: InmemoryAccountStore, list: Seq<AccountData>, m: int) -> bool {
    &&& n.filtered_accounts == o.filtered_accounts
    &&& forall|q: Pubkey| !names(list, m, q) ==> (#[trigger] n.tracked(q) <==> o.tracked(q)) && (o.tracked(q) ==> n.entry(q) == o.entry(q))
    &&& distinct_keys(list) ==> forall|k: int| 0 <= k < m ==> loaded_one(o, n, #[trigger] list[k])
}
proof fn lemma_load_step(o: InmemoryAccountStore, a: InmemoryAccountStore, list: Seq<AccountData>, m: int)
    requires loaded(o, a, list, m), 0 <= m < list.len(),
    ensures forall|n: InmemoryAccountStore, r: bool| #[trigger] update_rel(a, n, list[m], Commitment::Finalized, r) && n.filtered_accounts == a.filtered_accounts
        ==> loaded(o, n, list, m + 1),
{
    assert forall|n: InmemoryAccountStore, r: bool| #[trigger] update_rel(a, n, list[m], Commitment::Finalized, r) && n.filtered_accounts == a.filtered_accounts
        implies loaded(o, n, list, m + 1) by {
        let d = list[m];
        assert(eff(a.slots_status@, d.updated_slot, Commitment::Finalized) == Commitment::Finalized);
        assert forall|q: Pubkey| !names(list, m + 1, q) implies (#[trigger] n.tracked(q) <==> o.tracked(q)) && (o.tracked(q) ==> n.entry(q) == o.entry(q)) by {
            assert(list[m].pubkey == d.pubkey);
            assert(!names(list, m, q)) by { if names(list, m, q) { let k = choose|k: int| 0 <= k < m && (#[trigger] list[k]).pubkey == q; assert(names(list, m + 1, q)); } }
            assert(a.tracked(q) <==> o.tracked(q));
        }
        if distinct_keys(list) {
            assert forall|k: int| 0 <= k < m + 1 implies loaded_one(o, n, #[trigger] list[k]) by {
                if k < m {
                    assert(loaded_one(o, a, list[k]));
                    assert(n.tracked(list[k].pubkey) <==> a.tracked(list[k].pubkey));
                } else {
                    assert(!names(list, m, d.pubkey));
                    assert(a.tracked(d.pubkey) <==> o.tracked(d.pubkey));
                }
            }
        }
    }
}
// what was written to a snapshot is read back from a store that had nothing
proof fn lemma_snapshot_roundtrip(s: InmemoryAccountStore, o: InmemoryAccountStore, n: InmemoryAccountStore, list: Seq<AccountData>, program: Pubkey, pk: Pubkey, c: Commitment)
    requires
        exact_list(s, list, program, None, Commitment::Finalized),
        forall|q: Pubkey| !#[trigger] o.tracked(q),
        forall|k: int| 0 <= k < list.len() ==> o.filtered_accounts.admits(#[trigger] list[k]),
        loaded(o, n, list, list.len() as int),
        n.wf(),
    ensures
        s.matches(pk, program, None, Commitment::Finalized) ==> n.shown(pk, c) is Some && same_state(n.shown(pk, c)->0, s.shown(pk, Commitment::Finalized)->0),
        !s.matches(pk, program, None, Commitment::Finalized) ==> n.shown(pk, c) is None,
{
    assert(!o.tracked(pk));
    if s.matches(pk, program, None, Commitment::Finalized) {
        let k = choose|k: int| 0 <= k < list.len() && (#[trigger] list[k]).pubkey == pk;
        assert(loaded_one(o, n, list[k]));
        let e = n.entry(pk);
        lemma_vis_all(e, c);
        let m = e.processed_accounts@;
        assert(m.contains_key(list[k].updated_slot));
        assert(vis(e, c) == Some(list[k]));
    } else {
        assert(!names(list, list.len() as int, pk));
        assert(n.tracked(pk) <==> o.tracked(pk));
    }
}
// the account stops being stored: its finalized state left the program and is not wanted, and nothing newer is known
pub open spec fn drops(f: DynAccountFiltersStoreInterface, prev: AccountData, new: AccountData, s: AccountDataByCommitment, c: Commitment) -> bool {
    &&& c == Commitment::Finalized && prev.account.owner != new.account.owner && (!live(new) || !f.admits(new))
    &&& !(vis(s, Commitment::Processed) is Some && older(new, vis(s, Commitment::Processed)->0))
}
