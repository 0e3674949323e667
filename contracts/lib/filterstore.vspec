// BTreeSet<AccountFilterType>: the set of the decoded filters it holds (the derived Ord/Eq compare
// variant, offset and data; every filter is stored decoded so this is equality of the decoded filters)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BTreeSet<T> { m: std::collections::BTreeSet<T> }
impl View for BTreeSet<AccountFilterType> { type V = Set<FType>; uninterp spec fn view(&self) -> Set<FType>; }
pub open spec fn in_bytes(f: AccountFilterType) -> bool {
    match f { AccountFilterType::Datasize(_) => true, AccountFilterType::Memcmp(m) => m.data is Bytes || !m.data.valid() }
}
impl BTreeSet<AccountFilterType> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<FType>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, f: AccountFilterType) -> (r: bool)
        requires in_bytes(f),
        ensures final(self)@ == old(self)@.insert(f.ftype()), r == !old(self)@.contains(f.ftype()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, f: &AccountFilterType) -> (r: bool)
        requires in_bytes(*f),
        ensures r == self@.contains(f.ftype()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subset(&self, o: &Self) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_superset(&self, o: &Self) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VIter<&'a AccountFilterType>)
        ensures r.pos() == 0, fitems(r.items(), self@),
    { unimplemented!() }
}
pub open spec fn fitems(s: Seq<&AccountFilterType>, m: Set<FType>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> in_bytes(*#[trigger] s[i]) && m.contains(s[i].ftype())
    &&& forall|k: FType| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ftype() == k
}

//@ file common/src/simple_filter_store.rs
//@ enum ProgramIdFilters
//@ struct SimpleFilterStore

// ---- specification: what a filter store accepts ----------------------------------------------
pub open spec fn has(fs: Seq<AccountFilterType>, f: FType) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).ftype() == f }
pub open spec fn all_allow(fs: Seq<AccountFilterType>, data: Seq<u8>) -> bool { forall|i: int| 0 <= i < fs.len() ==> allows_f((#[trigger] fs[i]).ftype(), data) }
pub open spec fn set_allows(s: Set<FType>, data: Seq<u8>) -> bool { forall|f: FType| #[trigger] s.contains(f) ==> allows_f(f, data) }
impl AccountFilter {
    // the filter asks for this account by its key
    pub open spec fn lists(&self, pk: Pubkey) -> bool { exists|i: int| 0 <= i < self.accounts@.len() && #[trigger] self.accounts@[i] == pk }
    // the filter asks for accounts of this program with this content
    pub open spec fn covers(&self, owner: Pubkey, data: Seq<u8>) -> bool {
        self.program_id == Some(owner) && (self.filters is None || all_allow(self.filters->0@, data))
    }
}
impl ProgramIdFilters {
    pub open spec fn allows(&self, data: Seq<u8>) -> bool {
        match self {
            ProgramIdFilters::AllowAll => true,
            ProgramIdFilters::ByFilterType(l) => exists|i: int| 0 <= i < l@.len() && set_allows((#[trigger] l@[i])@, data),
        }
    }
}
impl SimpleFilterStore {
    pub open spec fn by_key(&self, pk: Pubkey) -> bool { self.accounts@.contains(pk) }
    pub open spec fn by_program(&self, owner: Pubkey, data: Seq<u8>) -> bool {
        self.program_id_filters@.contains_key(owner) && self.program_id_filters@[owner].allows(data)
    }
}
// every account the filter describes is accepted by the store
pub open spec fn store_holds(s: SimpleFilterStore, f: AccountFilter) -> bool {
    &&& forall|pk: Pubkey| #[trigger] f.lists(pk) ==> s.by_key(pk)
    &&& forall|owner: Pubkey, data: Seq<u8>| #[trigger] f.covers(owner, data) ==> s.by_program(owner, data)
}
// no account the filter describes is named by the store
pub open spec fn store_apart(s: SimpleFilterStore, f: AccountFilter) -> bool {
    &&& forall|pk: Pubkey| #[trigger] f.lists(pk) ==> !s.by_key(pk)
    &&& forall|owner: Pubkey, data: Seq<u8>| #[trigger] f.covers(owner, data) ==> !s.by_program(owner, data)
}
// the store was given a filter at most as restrictive for every part of `f`
pub open spec fn contains_spec(s: SimpleFilterStore, f: AccountFilter) -> bool {
    &&& forall|i: int| 0 <= i < f.accounts@.len() ==> s.accounts@.contains(#[trigger] f.accounts@[i])
    &&& match f.program_id {
        None => true,
        Some(p) => s.program_id_filters@.contains_key(p) && match s.program_id_filters@[p] {
            ProgramIdFilters::AllowAll => true,
            ProgramIdFilters::ByFilterType(l) => f.filters is Some && exists|i: int| 0 <= i < l@.len() && subset_has((#[trigger] l@[i])@, f.filters->0@),
        },
    }
}
pub open spec fn subset_has(s: Set<FType>, fs: Seq<AccountFilterType>) -> bool { forall|t: FType| #[trigger] s.contains(t) ==> has(fs, t) }
pub open spec fn size_conflict(s: Set<FType>, fs: Seq<AccountFilterType>) -> bool {
    exists|a: u64, b: u64| #[trigger] s.contains(FType::Size(a)) && #[trigger] has(fs, FType::Size(b)) && a != b
}
pub open spec fn intersects_spec(s: SimpleFilterStore, f: AccountFilter) -> bool {
    ||| exists|i: int| 0 <= i < f.accounts@.len() && s.accounts@.contains(#[trigger] f.accounts@[i])
    ||| match f.program_id {
        None => false,
        Some(p) => s.program_id_filters@.contains_key(p) && match s.program_id_filters@[p] {
            ProgramIdFilters::AllowAll => true,
            ProgramIdFilters::ByFilterType(l) => f.filters is None || exists|i: int| 0 <= i < l@.len() && !size_conflict((#[trigger] l@[i])@, f.filters->0@),
        },
    }
}
proof fn lemma_contains_sound(s: SimpleFilterStore, f: AccountFilter)
    requires contains_spec(s, f),
    ensures store_holds(s, f),
{
    assert forall|owner: Pubkey, data: Seq<u8>| #[trigger] f.covers(owner, data) implies s.by_program(owner, data) by {
        match s.program_id_filters@[owner] {
            ProgramIdFilters::AllowAll => {},
            ProgramIdFilters::ByFilterType(l) => {
                let fs = f.filters->0@;
                let i = choose|i: int| 0 <= i < l@.len() && subset_has((#[trigger] l@[i])@, fs);
                assert(set_allows(l@[i]@, data)) by {
                    assert forall|t: FType| #[trigger] l@[i]@.contains(t) implies allows_f(t, data) by { assert(has(fs, t)); }
                }
            }
        }
    }
}
proof fn lemma_apart_sound(s: SimpleFilterStore, f: AccountFilter)
    requires !intersects_spec(s, f),
    ensures store_apart(s, f),
{
    assert forall|owner: Pubkey, data: Seq<u8>| #[trigger] f.covers(owner, data) implies !s.by_program(owner, data) by {
        if s.program_id_filters@.contains_key(owner) {
            match s.program_id_filters@[owner] {
                ProgramIdFilters::AllowAll => {},
                ProgramIdFilters::ByFilterType(l) => {
                    let fs = f.filters->0@;
                    assert forall|i: int| 0 <= i < l@.len() implies !set_allows((#[trigger] l@[i])@, data) by {
                        assert(size_conflict(l@[i]@, fs));
                        let (a, b) = choose|a: u64, b: u64| #[trigger] l@[i]@.contains(FType::Size(a)) && #[trigger] has(fs, FType::Size(b)) && a != b;
                        assert(has(fs, FType::Size(b)));
                        assert(allows_f(FType::Size(b), data));
                        assert(!allows_f(FType::Size(a), data));
                    }
                }
            }
        }
    }
}

//@ fn filters_in_bytes ret=r collect=BTreeSet
    ensures forall|t: FType| #[trigger] r@.contains(t) <==> has(filters@, t),
//@ loop 0
    invariant
        __it0_.items().len() == filters@.len(),
        forall|i: int| 0 <= i < __it0_.items().len() ==> *(#[trigger] __it0_.items()[i]) == filters@[i],
        forall|t: FType| #[trigger] __acc0_@.contains(t) <==> exists|i: int| 0 <= i < __it0_.pos() && (#[trigger] filters@[i]).ftype() == t,
    ensures
        __it0_.pos() == filters@.len(),
//@ end
impl SimpleFilterStore {
//@ fn SimpleFilterStore::add_account_filter
    ensures
        forall|pk: Pubkey| #[trigger] final(self).by_key(pk) <==> old(self).by_key(pk) || account_filter.lists(pk),
        forall|o: Pubkey, d: Seq<u8>| #[trigger] final(self).by_program(o, d) <==> old(self).by_program(o, d) || account_filter.covers(o, d),
//@ loop 0
    invariant
        self.program_id_filters == old(self).program_id_filters,
        __it0_.items().len() == account_filter.accounts@.len(),
        forall|i: int| 0 <= i < __it0_.items().len() ==> *(#[trigger] __it0_.items()[i]) == account_filter.accounts@[i],
        forall|pk: Pubkey| #[trigger] self.accounts@.contains(pk) <==> old(self).by_key(pk) || exists|i: int| 0 <= i < __it0_.pos() && #[trigger] account_filter.accounts@[i] == pk,
    ensures
        __it0_.pos() == account_filter.accounts@.len(),
//@ exit
    proof {
        assert forall|o: Pubkey, d: Seq<u8>| #[trigger] self.by_program(o, d) <==> old(self).by_program(o, d) || account_filter.covers(o, d) by {
            let m0 = old(self).program_id_filters@;
            if account_filter.program_id == Some(o) {
                lemma_added(if m0.contains_key(o) { Some(m0[o]) } else { None }, self.program_id_filters@[o], account_filter.filters, d);
            }
        }
    }
//@ end
//@ fn SimpleFilterStore::add_account_filters
    ensures
        forall|pk: Pubkey| #[trigger] final(self).by_key(pk) <==> old(self).by_key(pk) || exists|i: int| 0 <= i < account_filters@.len() && (#[trigger] account_filters@[i]).lists(pk),
        forall|o: Pubkey, d: Seq<u8>| #[trigger] final(self).by_program(o, d) <==> old(self).by_program(o, d) || exists|i: int| 0 <= i < account_filters@.len() && (#[trigger] account_filters@[i]).covers(o, d),
//@ loop 0
    invariant
        __it0_.items().len() == account_filters@.len(),
        forall|i: int| 0 <= i < __it0_.items().len() ==> *(#[trigger] __it0_.items()[i]) == account_filters@[i],
        forall|pk: Pubkey| #[trigger] self.by_key(pk) <==> old(self).by_key(pk) || exists|i: int| 0 <= i < __it0_.pos() && (#[trigger] account_filters@[i]).lists(pk),
        forall|o: Pubkey, d: Seq<u8>| #[trigger] self.by_program(o, d) <==> old(self).by_program(o, d) || exists|i: int| 0 <= i < __it0_.pos() && (#[trigger] account_filters@[i]).covers(o, d),
    ensures
        __it0_.pos() == account_filters@.len(),
//@ end
//@ fn SimpleFilterStore::contains_account ret=r
    ensures r == self.by_key(account_pk),
//@ end
//@ fn SimpleFilterStore::contains_filter_internal ret=r
    ensures
        r ==> store_holds(*self, *account_filter),
        r == contains_spec(*self, *account_filter),
//@ start
    proof { if contains_spec(*self, *account_filter) { lemma_contains_sound(*self, *account_filter); } }
//@ loop 0
    invariant_except_break
        __acc0_ == true,
        forall|i: int| 0 <= i < __it0_.pos() ==> self.accounts@.contains(#[trigger] account_filter.accounts@[i]),
    invariant
        __it0_.items().len() == account_filter.accounts@.len(),
        forall|i: int| 0 <= i < __it0_.items().len() ==> *(#[trigger] __it0_.items()[i]) == account_filter.accounts@[i],
    ensures
        __acc0_ == (forall|i: int| 0 <= i < account_filter.accounts@.len() ==> self.accounts@.contains(#[trigger] account_filter.accounts@[i])),
//@ loop 1
    invariant_except_break
        __acc1_ == false,
        forall|i: int| 0 <= i < __it1_.pos() ==> !subset_has((#[trigger] filter_list@[i])@, account_filter.filters->0@),
    invariant
        account_filter.filters is Some,
        forall|t: FType| #[trigger] filter_to_match@.contains(t) <==> has(account_filter.filters->0@, t),
        __it1_.items().len() == filter_list@.len(),
        forall|i: int| 0 <= i < __it1_.items().len() ==> *(#[trigger] __it1_.items()[i]) == filter_list@[i],
    ensures
        __acc1_ == exists|i: int| 0 <= i < filter_list@.len() && subset_has((#[trigger] filter_list@[i])@, account_filter.filters->0@),
//@ end
//@ fn SimpleFilterStore::intersects_filter ret=r
    ensures
        !r ==> store_apart(*self, *account_filter),
        r == intersects_spec(*self, *account_filter),
//@ start
    proof { if !intersects_spec(*self, *account_filter) { lemma_apart_sound(*self, *account_filter); } }
//@ loop 0
    invariant_except_break
        __acc0_ == false,
        forall|i: int| 0 <= i < __it0_.pos() ==> !self.accounts@.contains(#[trigger] account_filter.accounts@[i]),
    invariant
        __it0_.items().len() == account_filter.accounts@.len(),
        forall|i: int| 0 <= i < __it0_.items().len() ==> *(#[trigger] __it0_.items()[i]) == account_filter.accounts@[i],
    ensures
        __acc0_ == (exists|i: int| 0 <= i < account_filter.accounts@.len() && self.accounts@.contains(#[trigger] account_filter.accounts@[i])),
//@ loop 1
    invariant_except_break
        __acc1_ == false,
        forall|i: int| 0 <= i < __it1_.pos() ==> size_conflict((#[trigger] filter_list@[i])@, filters@),
    invariant
        __it1_.items().len() == filter_list@.len(),
        forall|i: int| 0 <= i < __it1_.items().len() ==> *(#[trigger] __it1_.items()[i]) == filter_list@[i],
    ensures
        __acc1_ == exists|i: int| 0 <= i < filter_list@.len() && !size_conflict((#[trigger] filter_list@[i])@, filters@),
//@ loop 2
    invariant_except_break
        __acc2_ == false,
        forall|i: int| 0 <= i < __it2_.pos() ==> !conflicts((#[trigger] __it2_.items()[i]).ftype(), filters@),
    invariant
        fitems(__it2_.items(), stored_filters@),
    ensures
        __acc2_ == size_conflict(stored_filters@, filters@),
//@ loopstart 2
    proof {
        assert forall|f: FType| stored_filters@.contains(f) && #[trigger] conflicts(f, filters@) implies size_conflict(stored_filters@, filters@) by {
            let i = choose|i: int| 0 <= i < filters@.len() && sizes_differ(f, (#[trigger] filters@[i]).ftype());
            assert(stored_filters@.contains(FType::Size(f->Size_0)));
            assert(has(filters@, FType::Size(filters@[i].ftype()->Size_0)));
        }
    }
//@ loop 3
    invariant_except_break
        __acc3_ == false,
        forall|i: int| 0 <= i < __it3_.pos() ==> !sizes_differ(stored_filter.ftype(), (#[trigger] filters@[i]).ftype()),
    invariant
        __it3_.items().len() == filters@.len(),
        forall|i: int| 0 <= i < __it3_.items().len() ==> *(#[trigger] __it3_.items()[i]) == filters@[i],
    ensures
        __acc3_ == conflicts(stored_filter.ftype(), filters@),
//@ end
//@ fn SimpleFilterStore::satisfies_filter ret=r
    requires account.account.data.ok(), 
    ensures r == (self.by_key(account.pubkey) || self.by_program(account.account.owner, account.account.data.plain())),
//@ loop 0
    invariant_except_break
        __acc0_ == false,
        forall|i: int| 0 <= i < __it0_.pos() ==> !set_allows((#[trigger] filters@[i])@, account.account.data.plain()),
    invariant
        account.account.data.ok(),
        __it0_.items().len() == filters@.len(),
        forall|i: int| 0 <= i < __it0_.items().len() ==> *(#[trigger] __it0_.items()[i]) == filters@[i],
    ensures
        __acc0_ == exists|i: int| 0 <= i < filters@.len() && set_allows((#[trigger] filters@[i])@, account.account.data.plain()),
//@ loop 1
    invariant_except_break
        __acc1_ == true,
        forall|i: int| 0 <= i < __it1_.pos() ==> allows_f((#[trigger] __it1_.items()[i]).ftype(), account.account.data.plain()),
    invariant
        account.account.data.ok(),
        fitems(__it1_.items(), filter@),
    ensures
        __acc1_ == set_allows(filter@, account.account.data.plain()),
//@ end
}
pub open spec fn sizes_differ(a: FType, b: FType) -> bool { a is Size && b is Size && a->Size_0 != b->Size_0 }
pub open spec fn conflicts(f: FType, fs: Seq<AccountFilterType>) -> bool {
    exists|i: int| 0 <= i < fs.len() && sizes_differ(f, (#[trigger] fs[i]).ftype())
}
pub open spec fn same_set(s: Set<FType>, fs: Seq<AccountFilterType>) -> bool { forall|t: FType| #[trigger] s.contains(t) <==> has(fs, t) }
// how one added filter changes what is stored for its program
pub open spec fn added(old: Option<ProgramIdFilters>, new: ProgramIdFilters, filters: Option<Vec<AccountFilterType>>) -> bool {
    match (filters, old) {
        (None, _) => new is AllowAll,
        (Some(_), Some(ProgramIdFilters::AllowAll)) => new is AllowAll,
        (Some(fs), None) => new is ByFilterType && new->ByFilterType_0@.len() == 1 && same_set(new->ByFilterType_0@[0]@, fs@),
        (Some(fs), Some(ProgramIdFilters::ByFilterType(l0))) => new is ByFilterType && {
            let l = new->ByFilterType_0@;
            &&& l.len() == l0@.len() + 1
            &&& forall|i: int| 0 <= i < l0@.len() ==> #[trigger] l[i] == l0@[i]
            &&& same_set(l[l0@.len() as int]@, fs@)
        },
    }
}
proof fn lemma_added(old: Option<ProgramIdFilters>, new: ProgramIdFilters, filters: Option<Vec<AccountFilterType>>, d: Seq<u8>)
    ensures added(old, new, filters) ==> (new.allows(d) <==> (old is Some && old->0.allows(d)) || filters is None || all_allow(filters->0@, d)),
{
    if added(old, new, filters) && filters is Some && new is ByFilterType {
        let fs = filters->0@;
        let l = new->ByFilterType_0@;
        let n = l.len() - 1;
        assert(set_allows(l[n]@, d) <==> all_allow(fs, d)) by {
            if all_allow(fs, d) {
                assert forall|t: FType| #[trigger] l[n]@.contains(t) implies allows_f(t, d) by { assert(has(fs, t)); }
            }
            if set_allows(l[n]@, d) {
                assert forall|i: int| 0 <= i < fs.len() implies allows_f((#[trigger] fs[i]).ftype(), d) by {
                    assert(has(fs, fs[i].ftype()));
                    assert(l[n]@.contains(fs[i].ftype()));
                }
            }
        }
        if old is Some && old->0.allows(d) {
            let l0 = old->0->ByFilterType_0@;
            let i = choose|i: int| 0 <= i < l0.len() && set_allows((#[trigger] l0[i])@, d);
            assert(l[i] == l0[i]);
        }
        if new.allows(d) {
            let i = choose|i: int| 0 <= i < l.len() && set_allows((#[trigger] l[i])@, d);
            if i < n { assert(l[i] == old->0->ByFilterType_0@[i]); }
        }
    }
}

//@ file common/src/except_filter_store.rs
//@ struct ExceptFilterStore
impl ExceptFilterStore {
//@ fn ExceptFilterStore::add_account_filters
    ensures
        forall|pk: Pubkey| #[trigger] final(self).simple_filter_store.by_key(pk) <==> old(self).simple_filter_store.by_key(pk) || exists|i: int| 0 <= i < account_filters@.len() && (#[trigger] account_filters@[i]).lists(pk),
        forall|o: Pubkey, d: Seq<u8>| #[trigger] final(self).simple_filter_store.by_program(o, d) <==> old(self).simple_filter_store.by_program(o, d) || exists|i: int| 0 <= i < account_filters@.len() && (#[trigger] account_filters@[i]).covers(o, d),
//@ end
//@ fn AccountFiltersStoreInterface for ExceptFilterStore::satisfies ret=r
    requires account_data.account.data.ok(),
    ensures r == !(self.simple_filter_store.by_key(account_data.pubkey) || self.simple_filter_store.by_program(account_data.account.owner, account_data.account.data.plain())),
//@ end
//@ fn AccountFiltersStoreInterface for ExceptFilterStore::contains_filter ret=r
    ensures
        r ==> store_apart(self.simple_filter_store, *filter),
        r == !intersects_spec(self.simple_filter_store, *filter),
//@ end
}
//@ file common/src/simple_filter_store.rs
impl SimpleFilterStore {
//@ fn AccountFiltersStoreInterface for SimpleFilterStore::satisfies ret=r
    requires account_data.account.data.ok(),
    ensures r == (self.by_key(account_data.pubkey) || self.by_program(account_data.account.owner, account_data.account.data.plain())),
//@ end
//@ fn AccountFiltersStoreInterface for SimpleFilterStore::contains_filter ret=r
    ensures
        r ==> store_holds(*self, *filter),
        r == contains_spec(*self, *filter),
//@ end
}
//@ file common/src/mutable_filter_store.rs
//@ struct MutableFilterStore
impl MutableFilterStore {
//@ fn MutableFilterStore::add_account_filters self=mut
    ensures
        forall|pk: Pubkey| #[trigger] final(self).filter_store.by_key(pk) <==> old(self).filter_store.by_key(pk) || exists|i: int| 0 <= i < account_filters@.len() && (#[trigger] account_filters@[i]).lists(pk),
        forall|o: Pubkey, d: Seq<u8>| #[trigger] final(self).filter_store.by_program(o, d) <==> old(self).filter_store.by_program(o, d) || exists|i: int| 0 <= i < account_filters@.len() && (#[trigger] account_filters@[i]).covers(o, d),
//@ end
//@ fn MutableFilterStore::contains_account ret=r
    ensures r == self.filter_store.by_key(account_pk),
//@ end
//@ fn MutableFilterStore::satisfies_filter ret=r
    requires account.account.data.ok(),
    ensures r == (self.filter_store.by_key(account.pubkey) || self.filter_store.by_program(account.account.owner, account.account.data.plain())),
//@ end
//@ fn AccountFiltersStoreInterface for MutableFilterStore::satisfies ret=r
    requires account_data.account.data.ok(),
    ensures r == (self.filter_store.by_key(account_data.pubkey) || self.filter_store.by_program(account_data.account.owner, account_data.account.data.plain())),
//@ end
//@ fn AccountFiltersStoreInterface for MutableFilterStore::contains_filter ret=r
    ensures
        r ==> store_holds(self.filter_store, *filter),
        r == contains_spec(self.filter_store, *filter),
//@ end
}
