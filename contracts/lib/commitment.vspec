//@ file account_storage/src/account_data_by_commitment.rs
//@ struct AccountDataByCommitment

// ---- specification of "newest data per commitment" ------------------------------------------
pub open spec fn older(a: AccountData, b: AccountData) -> bool {
    a.updated_slot < b.updated_slot || (a.updated_slot == b.updated_slot && a.write_version < b.write_version)
}
// what a commitment level holds after the write `d` reached it
pub open spec fn newest(cur: Option<AccountData>, d: AccountData) -> Option<AccountData> {
    match cur { None => Some(d), Some(c) => if older(c, d) { Some(d) } else { Some(c) } }
}
pub open spec fn changes(cur: Option<AccountData>, d: AccountData) -> bool {
    match cur { None => true, Some(c) => older(c, d) }
}
pub open spec fn record(m: Map<u64, AccountData>, d: AccountData) -> Map<u64, AccountData> {
    if m.contains_key(d.updated_slot) && m[d.updated_slot].write_version >= d.write_version { m } else { m.insert(d.updated_slot, d) }
}
pub open spec fn is_max_key(m: Map<u64, AccountData>, k: u64) -> bool {
    m.contains_key(k) && forall|j: u64| #[trigger] m.contains_key(j) ==> j <= k
}
// p2 is p1 with the entries of slots before `slot` dropped, the newest entry always kept
pub open spec fn pruned(p1: Map<u64, AccountData>, p2: Map<u64, AccountData>, slot: u64) -> bool {
    &&& forall|k: u64| #[trigger] p2.contains_key(k) ==> p1.contains_key(k) && p2[k] == p1[k]
    &&& forall|k: u64| #[trigger] p1.contains_key(k) && k >= slot ==> p2.contains_key(k)
    &&& forall|k: u64| #[trigger] is_max_key(p1, k) ==> p2.contains_key(k)
    &&& forall|k: u64, j: u64| #[trigger] p2.contains_key(k) && #[trigger] p2.contains_key(j) && k < slot ==> j == k
}
pub open spec fn covers(m: Map<u64, AccountData>, c: AccountData) -> bool {
    exists|k: u64| #[trigger] m.contains_key(k) && !older(m[k], c)
}
impl AccountDataByCommitment {
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: u64| #[trigger] self.processed_accounts@.contains_key(k) ==> self.processed_accounts@[k].updated_slot == k
        &&& self.finalized_account is Some ==> self.confirmed_account is Some && !older(self.confirmed_account->0, self.finalized_account->0)
        &&& self.confirmed_account is Some ==> covers(self.processed_accounts@, self.confirmed_account->0)
    }
    // the account state visible at a commitment level
    pub open spec fn at(&self, c: Commitment, r: Option<AccountData>) -> bool {
        match c {
            Commitment::Finalized => r == self.finalized_account,
            Commitment::Confirmed => r == self.confirmed_account,
            Commitment::Processed => match r {
                None => self.processed_accounts@ =~= Map::<u64, AccountData>::empty() && self.confirmed_account is None,
                Some(d) => (exists|k: u64| is_max_key(self.processed_accounts@, k) && d == self.processed_accounts@[k])
                    || (self.processed_accounts@ =~= Map::<u64, AccountData>::empty() && self.confirmed_account == Some(d)),
            },
        }
    }
}

// the state visible at a commitment level, as a function
pub open spec fn vis(s: AccountDataByCommitment, c: Commitment) -> Option<AccountData> {
    match c {
        Commitment::Finalized => s.finalized_account,
        Commitment::Confirmed => s.confirmed_account,
        Commitment::Processed => if exists|k: u64| is_max_key(s.processed_accounts@, k) {
            Some(s.processed_accounts@[choose|k: u64| is_max_key(s.processed_accounts@, k)])
        } else { s.confirmed_account },
    }
}
proof fn lemma_vis(s: AccountDataByCommitment, c: Commitment, r: Option<AccountData>)
    requires s.at(c, r),
    ensures r == vis(s, c),
{
    if c == Commitment::Processed {
        let m = s.processed_accounts@;
        if exists|k: u64| is_max_key(m, k) {
            let k = choose|k: u64| is_max_key(m, k);
            assert(m.contains_key(k));
            let j = choose|j: u64| #[trigger] is_max_key(m, j) && r == Some(m[j]);
            assert(r is Some);
            assert(m.contains_key(j));
            assert(j == k);
        }
    }
}
// d is one of the states kept for the account
pub open spec fn keeps(s: AccountDataByCommitment, d: AccountData) -> bool {
    ||| exists|k: u64| #[trigger] s.processed_accounts@.contains_key(k) && s.processed_accounts@[k] == d
    ||| s.confirmed_account == Some(d)
    ||| s.finalized_account == Some(d)
}
proof fn lemma_vis_kept(s: AccountDataByCommitment, c: Commitment)
    ensures vis(s, c) is Some ==> keeps(s, vis(s, c)->0),
{
    if c == Commitment::Processed && exists|k: u64| is_max_key(s.processed_accounts@, k) {
        let k = choose|k: u64| is_max_key(s.processed_accounts@, k);
        assert(s.processed_accounts@.contains_key(k));
    }
}
proof fn lemma_vis_all(s: AccountDataByCommitment, c: Commitment)
    ensures forall|r: Option<AccountData>| #[trigger] s.at(c, r) ==> r == vis(s, c),
        forall|r: Option<AccountData>| r == vis(s, c) ==> #[trigger] s.at(c, r),
        c == Commitment::Processed ==> forall|k: u64| #[trigger] s.processed_accounts@.contains_key(k) && (forall|j: u64| #[trigger] s.processed_accounts@.contains_key(j) ==> j <= k) ==> vis(s, c) == Some(s.processed_accounts@[k]),
        c == Commitment::Processed && s.processed_accounts@ =~= Map::<u64, AccountData>::empty() ==> vis(s, c) == s.confirmed_account,
{
    assert forall|r: Option<AccountData>| #[trigger] s.at(c, r) implies r == vis(s, c) by { lemma_vis(s, c, r); }
    let m = s.processed_accounts@;
    if !(m =~= Map::<u64, AccountData>::empty()) {
        assert(exists|k: u64| #[trigger] m.contains_key(k)) by {
            if forall|k: u64| !#[trigger] m.contains_key(k) { assert(m =~= Map::<u64, AccountData>::empty()); }
        }
        lemma_has_max(m);
    }
    assert forall|k: u64| c == Commitment::Processed && #[trigger] m.contains_key(k) && (forall|j: u64| #[trigger] m.contains_key(j) ==> j <= k) implies vis(s, c) == Some(m[k]) by {
        assert(is_max_key(m, k));
        lemma_vis(s, c, Some(m[k]));
    }
}
proof fn lemma_some_kept_of(s: AccountDataByCommitment, o: Pubkey)
    ensures some_kept_of(s, o) == ({
        ||| exists|k: u64| #[trigger] s.processed_accounts@.contains_key(k) && s.processed_accounts@[k].account.owner == o
        ||| (s.confirmed_account is Some && s.confirmed_account->0.account.owner == o)
        ||| (s.finalized_account is Some && s.finalized_account->0.account.owner == o)
    }),
{
    if exists|k: u64| #[trigger] s.processed_accounts@.contains_key(k) && s.processed_accounts@[k].account.owner == o {
        let k = choose|k: u64| #[trigger] s.processed_accounts@.contains_key(k) && s.processed_accounts@[k].account.owner == o;
        assert(keeps(s, s.processed_accounts@[k]));
    }
    if s.confirmed_account is Some && s.confirmed_account->0.account.owner == o { assert(keeps(s, s.confirmed_account->0)); }
    if s.finalized_account is Some && s.finalized_account->0.account.owner == o { assert(keeps(s, s.finalized_account->0)); }
}
// what a write of `d` at commitment `c` does to the account
pub open spec fn updated_rel(o: AccountDataByCommitment, n: AccountDataByCommitment, d: AccountData, c: Commitment, r: bool) -> bool {
    &&& n.processed_accounts@ =~= record(o.processed_accounts@, d)
    &&& n.confirmed_account == (if c == Commitment::Processed { o.confirmed_account } else { newest(o.confirmed_account, d) })
    &&& n.finalized_account == (if c == Commitment::Finalized { newest(o.finalized_account, d) } else { o.finalized_account })
    &&& r == (!(o.processed_accounts@.contains_key(d.updated_slot) && o.processed_accounts@[d.updated_slot].write_version >= d.write_version)
            || (c == Commitment::Confirmed && changes(o.confirmed_account, d))
            || (c == Commitment::Finalized && changes(o.finalized_account, d)))
}
pub open spec fn created_rel(n: AccountDataByCommitment, d: AccountData, c: Commitment) -> bool {
    &&& n.processed_accounts@ == Map::<u64, AccountData>::empty().insert(d.updated_slot, d)
    &&& n.confirmed_account == (if c == Commitment::Processed { None } else { Some(d) })
    &&& n.finalized_account == (if c == Commitment::Finalized { Some(d) } else { None })
}
// what reaching commitment `c` does to the writes of `slot`
pub open spec fn promoted_rel(o: AccountDataByCommitment, n: AccountDataByCommitment, slot: u64, c: Commitment, r: Option<(AccountData, Option<AccountData>)>) -> bool {
    let p = o.processed_accounts@;
    let level = if c == Commitment::Confirmed { o.confirmed_account } else { o.finalized_account };
    if c == Commitment::Processed { n == o && r is None } else {
        &&& p.contains_key(slot) ==> n.confirmed_account == newest(o.confirmed_account, p[slot])
        &&& !p.contains_key(slot) ==> n.confirmed_account == o.confirmed_account
        &&& n.finalized_account == (if p.contains_key(slot) && c == Commitment::Finalized { newest(o.finalized_account, p[slot]) } else { o.finalized_account })
        &&& r == (if p.contains_key(slot) && changes(level, p[slot]) { Some((p[slot], level)) } else { None })
        &&& c == Commitment::Confirmed ==> n.processed_accounts@ == p
        &&& c == Commitment::Finalized ==> pruned(p, n.processed_accounts@, slot)
    }
}
pub open spec fn emptied(n: AccountDataByCommitment) -> bool {
    n.processed_accounts@ == Map::<u64, AccountData>::empty() && n.confirmed_account is None && n.finalized_account is None
}
pub open spec fn some_kept_of(s: AccountDataByCommitment, owner: Pubkey) -> bool {
    exists|d: AccountData| #[trigger] keeps(s, d) && d.account.owner == owner
}
// a and b are the same account state (the representation of the data may differ)
pub open spec fn same_state(a: AccountData, b: AccountData) -> bool {
    &&& a.pubkey == b.pubkey && a.updated_slot == b.updated_slot && a.write_version == b.write_version
    &&& a.account.lamports == b.account.lamports && a.account.owner == b.account.owner
    &&& a.account.executable == b.account.executable && a.account.rent_epoch == b.account.rent_epoch
    &&& a.account.data.plain() =~= b.account.data.plain()
}
pub open spec fn allowed_by(fs: Seq<AccountFilterType>, data: Seq<u8>) -> bool { forall|i: int| 0 <= i < fs.len() ==> allows_f((#[trigger] fs[i]).ftype(), data) }

// C01 as a lemma over the contracts: what a user reads at processed >= confirmed >= finalized
proof fn lemma_levels_ordered(s: AccountDataByCommitment, p: Option<AccountData>, c: Option<AccountData>, f: Option<AccountData>)
    requires s.wf(), s.at(Commitment::Processed, p), s.at(Commitment::Confirmed, c), s.at(Commitment::Finalized, f),
    ensures
        f is Some ==> c is Some && !older(c->0, f->0),
        c is Some ==> p is Some && !older(p->0, c->0),
{
    if c is Some {
        let k = choose|k: u64| #[trigger] s.processed_accounts@.contains_key(k) && !older(s.processed_accounts@[k], c->0);
        assert(s.processed_accounts@.contains_key(k));
    }
}

proof fn lemma_dom_facts(m: Map<u64, AccountData>)
    ensures
        m.dom().len() <= 1 ==> forall|k: u64, j: u64| #[trigger] m.contains_key(k) && #[trigger] m.contains_key(j) ==> k == j,
        m.dom().len() > 1 ==> forall|k: u64| #[trigger] m.contains_key(k) ==> exists|j: u64| #[trigger] m.contains_key(j) && j != k,
{
    if m.dom().len() <= 1 {
        assert forall|k: u64, j: u64| #[trigger] m.contains_key(k) && #[trigger] m.contains_key(j) implies k == j by {
            if k != j {
                let s = Set::<u64>::empty().insert(k).insert(j);
                assert(s.len() == 2);
                assert(s.subset_of(m.dom()));
                vstd::set_lib::lemma_len_subset(s, m.dom());
            }
        }
    } else {
        assert forall|k: u64| #[trigger] m.contains_key(k) implies exists|j: u64| #[trigger] m.contains_key(j) && j != k by {
            if forall|j: u64| #[trigger] m.contains_key(j) ==> j == k {
                assert(m.dom() =~= Set::<u64>::empty().insert(k));
            }
        }
    }
}
// dropping the oldest entry, when it is older than the slot and not the only one, keeps the pruning relation
proof fn lemma_prune_step(p1: Map<u64, AccountData>, p2: Map<u64, AccountData>, slot: u64)
    requires prune_inv(p1, p2, slot), p2.dom().len() > 1,
    ensures forall|k: u64| p2.contains_key(k) && k < slot && (forall|j: u64| #[trigger] p2.contains_key(j) ==> k <= j)
        ==> prune_inv(p1, #[trigger] p2.remove(k), slot) && p2.remove(k).dom().len() < p2.dom().len(),
{
    lemma_dom_facts(p2);
    assert forall|k: u64| p2.contains_key(k) && k < slot && (forall|j: u64| #[trigger] p2.contains_key(j) ==> k <= j)
        implies prune_inv(p1, #[trigger] p2.remove(k), slot) && p2.remove(k).dom().len() < p2.dom().len() by {
        let p3 = p2.remove(k);
        let j = choose|j: u64| #[trigger] p2.contains_key(j) && j != k;
        assert(j > k);
        assert(p1.contains_key(j));
        assert forall|x: u64| #[trigger] is_max_key(p1, x) implies p3.contains_key(x) by { assert(x >= j); }
        assert(p3.dom() =~= p2.dom().remove(k));
    }
}
proof fn lemma_prune_done(p1: Map<u64, AccountData>, p2: Map<u64, AccountData>, slot: u64)
    requires prune_inv(p1, p2, slot), p2.dom().len() <= 1 || forall|j: u64| #[trigger] p2.contains_key(j) ==> j >= slot,
    ensures pruned(p1, p2, slot),
{
    lemma_dom_facts(p2);
}
proof fn lemma_covers_pruned(m: Map<u64, AccountData>, p: Map<u64, AccountData>, c: AccountData, slot: u64)
    requires covers(m, c), prune_inv(m, p, slot), forall|k: u64| #[trigger] m.contains_key(k) ==> m[k].updated_slot == k,
    ensures covers(p, c),
{
    let k = choose|k: u64| #[trigger] m.contains_key(k) && !older(m[k], c);
    lemma_has_max(m);
    let x = choose|x: u64| is_max_key(m, x);
    assert(p.contains_key(x));
}
proof fn lemma_has_max(m: Map<u64, AccountData>)
    requires exists|k: u64| #[trigger] m.contains_key(k),
    ensures exists|k: u64| is_max_key(m, k),
    decreases m.dom().len(),
{
    let k = choose|k: u64| #[trigger] m.contains_key(k);
    if !is_max_key(m, k) {
        let m2 = m.remove(k);
        let j = choose|j: u64| #[trigger] m.contains_key(j) && j > k;
        assert(m2.contains_key(j));
        assert(m.dom().contains(k));
        assert(m2.dom() =~= m.dom().remove(k));
        lemma_has_max(m2);
        let x = choose|x: u64| is_max_key(m2, x);
        assert forall|i: u64| #[trigger] m.contains_key(i) implies i <= x by {
            if i != k { assert(m2.contains_key(i)); } else { assert(m2.contains_key(j)); }
        }
        assert(is_max_key(m, x));
    }
}

impl AccountDataByCommitment {
//@ fn AccountDataByCommitment::new ret=r
    ensures
        r.wf(),
        created_rel(r, data, commitment),
//@ start
    proof { assert(Map::<u64, AccountData>::empty().insert(data.updated_slot, data).contains_key(data.updated_slot)); }
//@ end
//@ fn AccountDataByCommitment::get_account_data ret=r
    ensures r == vis(*self, commitment),
//@ start
    proof { lemma_vis_all(*self, commitment); }
//@ end
//@ fn AccountDataByCommitment::initialize ret=r
    ensures
        r.wf(),
        r.processed_accounts@ == Map::<u64, AccountData>::empty().insert(data.updated_slot, data),
        r.confirmed_account == Some(data),
        r.finalized_account == Some(data),
//@ start
    proof { assert(Map::<u64, AccountData>::empty().insert(data.updated_slot, data).contains_key(data.updated_slot)); }
//@ end
//@ fn AccountDataByCommitment::update ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(),
        updated_rel(*old(self), *final(self), data, commitment, r),
//@ start
    proof {
        lemma_record(old(self).processed_accounts@, data);
        if old(self).confirmed_account is Some {
            lemma_covers_record(old(self).processed_accounts@, data, old(self).confirmed_account->0);
        }
        lemma_covers_self(old(self).processed_accounts@, data);
    }
//@ exit
    proof { assert(self.processed_accounts@ =~= record(old(self).processed_accounts@, data)); }
//@ end
//@ fn AccountDataByCommitment::promote_slot_commitment ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(),
        promoted_rel(*old(self), *final(self), slot, commitment, r),
//@ start
    proof { if old(self).processed_accounts@.contains_key(slot) { assert(covers(old(self).processed_accounts@, old(self).processed_accounts@[slot])); } }
//@ loop 0
    invariant
        old(self).wf(),
        old(self).processed_accounts@.contains_key(slot),
        prune_inv(old(self).processed_accounts@, self.processed_accounts@, slot),
        self.confirmed_account == newest(old(self).confirmed_account, old(self).processed_accounts@[slot]),
        self.finalized_account == newest(old(self).finalized_account, old(self).processed_accounts@[slot]),
    decreases self.processed_accounts@.dom().len(),
//@ loopstart 0
    proof { lemma_prune_step(old(self).processed_accounts@, self.processed_accounts@, slot); }
//@ loopafter 0
    proof {
        lemma_prune_done(old(self).processed_accounts@, self.processed_accounts@, slot);
        if self.confirmed_account is Some { lemma_covers_pruned(old(self).processed_accounts@, self.processed_accounts@, self.confirmed_account->0, slot); }
    }
//@ loop 1
    invariant
        old(self).wf(),
        prune_inv(old(self).processed_accounts@, self.processed_accounts@, slot),
        self.confirmed_account == old(self).confirmed_account,
        self.finalized_account == old(self).finalized_account,
    decreases self.processed_accounts@.dom().len(),
//@ loopstart 1
    proof { lemma_prune_step(old(self).processed_accounts@, self.processed_accounts@, slot); }
//@ loopafter 1
    proof {
        lemma_prune_done(old(self).processed_accounts@, self.processed_accounts@, slot);
        if self.confirmed_account is Some { lemma_covers_pruned(old(self).processed_accounts@, self.processed_accounts@, self.confirmed_account->0, slot); }
    }
//@ end
//@ fn AccountDataByCommitment::delete
    ensures
        emptied(*final(self)),
        final(self).wf(),
//@ end
//@ fn AccountDataByCommitment::get_account_data_filtered ret=r
    requires
        vis(*self, commitment) is Some ==> vis(*self, commitment)->0.account.data.ok(),
    ensures
        match vis(*self, commitment) {
            None => r is None,
            Some(d) => if allowed_by(filters@, d.account.data.plain()) { r is Some && same_state(r->0, d) && r->0.account.data.ok() } else { r is None },
        },
//@ start
    proof { lemma_vis_all(*self, commitment); }
//@ loop 0
    invariant
        vis(*self, commitment) == Some(*account_data),
        account_data.account.data.ok(),
        __it0_.items().len() == filters@.len(),
        forall|i: int| 0 <= i < filters@.len() ==> *(#[trigger] __it0_.items()[i]) == filters@[i],
//@ loop 1
    invariant_except_break
        __acc1_,
        forall|i: int| 0 <= i < __it1_.pos() ==> allows_f((#[trigger] filters@[i]).ftype(), data@),
    invariant
        __it1_.items().len() == filters@.len(),
        forall|i: int| 0 <= i < filters@.len() ==> *(#[trigger] __it1_.items()[i]) == filters@[i],
    ensures
        __acc1_ == allowed_by(filters@, data@),
//@ loop 2
    invariant_except_break
        __acc2_,
        forall|i: int| 0 <= i < __it2_.pos() ==> allows_f((#[trigger] filters@[i]).ftype(), data@),
    invariant
        __it2_.items().len() == filters@.len(),
        forall|i: int| 0 <= i < filters@.len() ==> *(#[trigger] __it2_.items()[i]) == filters@[i],
    ensures
        __acc2_ == allowed_by(filters@, data@),
//@ end
//@ fn AccountDataByCommitment::has_owner ret=r
    ensures r == some_kept_of(*self, *owner),
//@ start
    proof { lemma_some_kept_of(*self, *owner); }
//@ loop 0
    invariant_except_break
        !__acc0_,
        forall|i: int| 0 <= i < __it0_.pos() ==> (#[trigger] __it0_.items()[i]).account.owner != *owner,
    invariant
        values_of(__it0_.items(), self.processed_accounts@),
    ensures
        __acc0_ == exists|k: u64| #[trigger] self.processed_accounts@.contains_key(k) && self.processed_accounts@[k].account.owner == *owner,
//@ end
//@ fn AccountDataByCommitment::has_newer_data ret=r
    ensures r == (vis(*self, Commitment::Processed) is Some && older(*data, vis(*self, Commitment::Processed)->0)),
//@ end
}

pub open spec fn prune_inv(p1: Map<u64, AccountData>, p2: Map<u64, AccountData>, slot: u64) -> bool {
    &&& forall|k: u64| #[trigger] p2.contains_key(k) ==> p1.contains_key(k) && p2[k] == p1[k]
    &&& forall|k: u64| #[trigger] p1.contains_key(k) && k >= slot ==> p2.contains_key(k)
    &&& forall|k: u64| #[trigger] is_max_key(p1, k) ==> p2.contains_key(k)
}
proof fn lemma_record(m: Map<u64, AccountData>, d: AccountData)
    ensures record(m, d).contains_key(d.updated_slot),
{}
proof fn lemma_covers_self(m: Map<u64, AccountData>, d: AccountData)
    requires forall|k: u64| #[trigger] m.contains_key(k) ==> m[k].updated_slot == k,
    ensures covers(record(m, d), d),
{
    assert(record(m, d).contains_key(d.updated_slot));
}
proof fn lemma_covers_record(m: Map<u64, AccountData>, d: AccountData, c: AccountData)
    requires covers(m, c), forall|k: u64| #[trigger] m.contains_key(k) ==> m[k].updated_slot == k,
    ensures covers(record(m, d), c),
{
    let k = choose|k: u64| #[trigger] m.contains_key(k) && !older(m[k], c);
    assert(record(m, d).contains_key(k));
}
