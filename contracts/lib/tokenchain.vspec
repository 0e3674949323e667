// ---- the states of the slots that are not finalized --------------------------------------------
pub ghost struct SlotView { pub accounts: Map<Pubkey, ProcessedAccount>, pub parent: Option<u64> }
pub open spec fn slot_views(m: Map<u64, ProcessedAccountBySlot>) -> Map<u64, SlotView> {
    m.map_values(|b: ProcessedAccountBySlot| SlotView { accounts: b.processed_accounts@, parent: b.slot_parent })
}
pub open spec fn acct(m: Map<u64, SlotView>, s: u64, pk: Pubkey) -> bool { m.contains_key(s) && m[s].accounts.contains_key(pk) }
pub open spec fn parents_below(m: Map<u64, SlotView>) -> bool {
    forall|s: u64| #[trigger] m.contains_key(s) && m[s].parent is Some ==> m[s].parent->0 < s
}
// the newest state of an account on the chain of a slot and its known ancestors
pub open spec fn on_chain(m: Map<u64, SlotView>, s: Option<u64>, pk: Pubkey) -> Option<(ProcessedAccount, u64)>
    decreases (match s { Some(x) => x as nat + 1, None => 0nat }),
{
    match s {
        None => None,
        Some(x) => if !m.contains_key(x) { None }
            else if m[x].accounts.contains_key(pk) { Some((m[x].accounts[pk], x)) }
            else { match m[x].parent { Some(p) => if p < x { on_chain(m, Some(p), pk) } else { None }, None => None } },
    }
}
pub open spec fn no_newer(m: Map<u64, SlotView>, above: u64, pk: Pubkey) -> bool { forall|s: u64| s > above ==> !#[trigger] acct(m, s, pk) }
// the newest state above the confirmed slot, or else the one on the confirmed chain
pub open spec fn at_processed(m: Map<u64, SlotView>, confirmed: u64, pk: Pubkey, r: Option<(ProcessedAccount, u64)>) -> bool {
    if no_newer(m, confirmed, pk) { r == on_chain(m, Some(confirmed), pk) }
    else { r is Some && (r->0).1 > confirmed && acct(m, (r->0).1, pk) && no_newer(m, (r->0).1, pk) && (r->0).0 == m[(r->0).1].accounts[pk] }
}
pub open spec fn at_commitment(m: Map<u64, SlotView>, c: Commitment, confirmed: u64, pk: Pubkey, r: Option<(ProcessedAccount, u64)>) -> bool {
    if c == Commitment::Processed { at_processed(m, confirmed, pk, r) } else { r == on_chain(m, Some(confirmed), pk) }
}
impl ProcessedAccountStore {
    pub open spec fn slots(&self) -> Map<u64, SlotView> { slot_views(self.processed_slot_accounts@) }
    pub open spec fn wf(&self) -> bool { parents_below(self.slots()) }
}
pub open spec fn empty_slot() -> SlotView { SlotView { accounts: Map::empty(), parent: None } }
pub open spec fn slot_or_empty(m: Map<u64, SlotView>, s: u64) -> SlotView { if m.contains_key(s) { m[s] } else { empty_slot() } }
pub open spec fn in_some(items: Seq<&ProcessedAccountBySlot>, n: int, pk: Pubkey) -> bool { exists|i: int| 0 <= i < n && (#[trigger] items[i]).processed_accounts@.contains_key(pk) }
impl ProcessedAccountStore {
//@ file token_account_storage/src/inmemory_token_storage.rs
//@ fn ProcessedAccountStore::insert_account ret=r self=mut
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r == !(acct(old(self).slots(), slot, account_pk) && old(self).slots()[slot].accounts[account_pk].write_version >= write_version),
        r ==> final(self).slots() == old(self).slots().insert(slot, SlotView {
            accounts: slot_or_empty(old(self).slots(), slot).accounts.insert(account_pk, ProcessedAccount { processed_account, write_version }),
            parent: slot_or_empty(old(self).slots(), slot).parent,
        }),
        !r ==> final(self).slots() == old(self).slots(),
//@ exit
    proof {
        let sv = SlotView { accounts: slot_or_empty(old(self).slots(), slot).accounts.insert(account_pk, ProcessedAccount { processed_account, write_version }), parent: slot_or_empty(old(self).slots(), slot).parent };
        if __ret { assert(self.slots()[slot].accounts =~= sv.accounts); assert(self.slots() =~= old(self).slots().insert(slot, sv)); }
        else { assert(self.slots()[slot].accounts =~= old(self).slots()[slot].accounts); assert(self.slots() =~= old(self).slots()); }
    }
//@ end
//@ fn ProcessedAccountStore::contains ret=r
    ensures r == exists|s: u64| #[trigger] acct(self.slots(), s, *account_pk),
//@ loop 0
    invariant_except_break
        !__acc0_,
    invariant
        values_of(__it0_.items(), self.processed_slot_accounts@), __it0_.pos() <= __it0_.items().len(),
        !__acc0_ ==> forall|i: int| 0 <= i < __it0_.pos() ==> !(#[trigger] __it0_.items()[i]).processed_accounts@.contains_key(*account_pk),
    ensures
        !__acc0_ ==> __it0_.pos() == __it0_.items().len(),
        __acc0_ ==> exists|s: u64| #[trigger] acct(self.slots(), s, *account_pk),
//@ loopstart 0
    proof {
        if __it0_.pos() < __it0_.items().len() {
            let k = keyseq(self.processed_slot_accounts@)[__it0_.pos() as int];
            assert(self.processed_slot_accounts@.contains_key(k));
            assert(__it0_.items()[__it0_.pos() as int].processed_accounts@.contains_key(*account_pk) == acct(self.slots(), k, *account_pk));
        }
    }
//@ loopafter 0
    proof {
        if !__acc0_ {
            assert forall|s: u64| !#[trigger] acct(self.slots(), s, *account_pk) by {
                if acct(self.slots(), s, *account_pk) {
                    let i = choose|i: int| 0 <= i < keyseq(self.processed_slot_accounts@).len() && keyseq(self.processed_slot_accounts@)[i] == s;
                    assert(self.processed_slot_accounts@.contains_key(s));
                    assert(!__it0_.items()[i].processed_accounts@.contains_key(*account_pk));
                }
            }
        }
    }
//@ end
//@ fn ProcessedAccountStore::get_account_pubkeys ret=r collect=HashSet
    ensures forall|pk: Pubkey| #[trigger] r@.contains(pk) <==> exists|s: u64| #[trigger] acct(self.slots(), s, pk),
//@ loop 0
    invariant
        values_of(__it0_.items(), self.processed_slot_accounts@), __it0_.pos() <= __it0_.items().len(),
        forall|pk: Pubkey| #[trigger] __acc0_@.contains(pk) <==> in_some(__it0_.items(), __it0_.pos() as int, pk),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    let ghost n = __it0_.pos() as int;
//@ loop 1
    invariant
        __it0_.pos() == n + 1, 0 <= n < __it0_.items().len(), set_items_refs(__it1_.items(), __it0_.items()[n].processed_accounts@.dom()),
        __it1_.pos() <= __it1_.items().len(),
        forall|pk: Pubkey| #[trigger] __acc0_@.contains(pk) <==> in_some(__it0_.items(), n, pk) || exists|j: int| 0 <= j < __it1_.pos() && *(#[trigger] __it1_.items()[j]) == pk,
    ensures __it1_.pos() == __it1_.items().len(),
//@ loopafter 1
    proof {
        assert forall|pk: Pubkey| #[trigger] __acc0_@.contains(pk) <==> in_some(__it0_.items(), n + 1, pk) by {
            if in_some(__it0_.items(), n, pk) {}
            if __it0_.items()[n].processed_accounts@.dom().contains(pk) {}
            if in_some(__it0_.items(), n + 1, pk) {
                let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] __it0_.items()[i]).processed_accounts@.contains_key(pk);
                if i == n { assert(__it0_.items()[n].processed_accounts@.dom().contains(pk)); }
            }
        }
    }
//@ loopafter 0
    proof {
        assert forall|pk: Pubkey| #[trigger] __acc0_@.contains(pk) <==> exists|s: u64| #[trigger] acct(self.slots(), s, pk) by {
            if in_some(__it0_.items(), __it0_.pos() as int, pk) {
                let i = choose|i: int| 0 <= i < __it0_.pos() && (#[trigger] __it0_.items()[i]).processed_accounts@.contains_key(pk);
                assert(acct(self.slots(), keyseq(self.processed_slot_accounts@)[i], pk));
            }
            if exists|s: u64| #[trigger] acct(self.slots(), s, pk) {
                let s = choose|s: u64| #[trigger] acct(self.slots(), s, pk);
                assert(self.processed_slot_accounts@.contains_key(s));
                let i = choose|i: int| 0 <= i < keyseq(self.processed_slot_accounts@).len() && keyseq(self.processed_slot_accounts@)[i] == s;
                assert(__it0_.items()[i].processed_accounts@.contains_key(pk));
            }
        }
    }
//@ end
//@ fn ProcessedAccountStore::update_slot_info self=mut
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).slots() == old(self).slots().insert(slot_info.slot, SlotView {
            accounts: slot_or_empty(old(self).slots(), slot_info.slot).accounts,
            parent: if slot_info.parent < slot_info.slot { Some(slot_info.parent) } else { None },
        }),
//@ exit
    proof {
        let sv = SlotView { accounts: slot_or_empty(old(self).slots(), slot_info.slot).accounts, parent: if slot_info.parent < slot_info.slot { Some(slot_info.parent) } else { None } };
        assert(self.slots()[slot_info.slot].accounts =~= sv.accounts);
        assert(self.slots() =~= old(self).slots().insert(slot_info.slot, sv));
    }
//@ end
//@ fn ProcessedAccountStore::finalize ret=r self=mut
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|s: u64| #[trigger] final(self).slots().contains_key(s) <==> s > slot && old(self).slots().contains_key(s),
        forall|s: u64| #[trigger] final(self).slots().contains_key(s) ==> final(self).slots()[s] == old(self).slots()[s],
        exists|ks: Seq<Pubkey>| #[trigger] moved(old(self).slots(), slot, ks, r@),
//@ start
    let ghost m0 = self.slots();
    let ghost mut ks = Seq::<Pubkey>::empty();
    let ghost mut all = Map::<Pubkey, (ProcessedAccount, u64)>::empty();
    let ghost mut fin = Seq::<(Pubkey, (ProcessedAccount, u64))>::empty();
//@ loop 0
    invariant
        parents_below(m0), only_lost(m0, slot_views(lk@), slot, process_slot),
        forall|pk: Pubkey| #[trigger] on_chain(m0, Some(slot), pk) == (if map_of_accounts@.contains_key(pk) { Some(map_of_accounts@[pk]) } else { on_chain(m0, process_slot, pk) }),
    ensures
        only_lost(m0, slot_views(lk@), slot, None),
        forall|pk: Pubkey| #[trigger] on_chain(m0, Some(slot), pk) == (if map_of_accounts@.contains_key(pk) { Some(map_of_accounts@[pk]) } else { None }),
    decreases (match process_slot { Some(x) => x as nat + 1, None => 0nat }),
//@ loopstart 0
    let ghost map0 = map_of_accounts@;
    proof { assert(slot_views(lk@).contains_key(current_slot) == lk@.contains_key(current_slot)); }
//@ loop 1
    invariant
        enumerates(__it0_.items(), m0[current_slot].accounts), __it0_.pos() <= __it0_.items().len(),
        forall|pk: Pubkey| #[trigger] map_of_accounts@.contains_key(pk) <==> map0.contains_key(pk) || exists|j: int| 0 <= j < __it0_.pos() && (#[trigger] __it0_.items()[j]).0 == pk,
        forall|pk: Pubkey| #[trigger] map_of_accounts@.contains_key(pk) ==> map_of_accounts@[pk] == (if map0.contains_key(pk) { map0[pk] } else { (m0[current_slot].accounts[pk], current_slot) }),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loop 2
    invariant
        only_lost(m0, slot_views(lk@), slot, None),
    ensures
        only_lost(m0, slot_views(lk@), slot, None), forall|s: u64| #[trigger] slot_views(lk@).contains_key(s) ==> s > slot,
    decreases lk@.dom().len(),
//@ loopafter 2
    proof { all = map_of_accounts@; }
//@ loopafter 3
    proof { fin = __it1_.items(); }
//@ loopstart 3
    proof { if __it1_.pos() < __it1_.items().len() { ks = ks.push(__it1_.items()[__it1_.pos() as int].0); } }
//@ exit
    proof {
        let r = __ret@;
        assert(enumerates(fin, all));
        assert forall|i: int| 0 <= i < ks.len() implies on_chain(m0, Some(slot), #[trigger] ks[i]) == Some(r[i]) by { assert((ks[i], r[i]) == fin[i]); assert(all.contains_key(fin[i].0)); }
        assert forall|pk: Pubkey| (#[trigger] on_chain(m0, Some(slot), pk)) is Some implies ks.contains(pk) by {
            assert(all.contains_key(pk));
            let i = choose|i: int| 0 <= i < fin.len() && (#[trigger] fin[i]).0 == pk;
            assert((ks[i], r[i]) == fin[i]);
        }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies ks[i] != ks[j] by { assert((ks[i], r[i]) == fin[i]); assert((ks[j], r[j]) == fin[j]); assert(fin[i].0 != fin[j].0); }
        assert(moved(m0, slot, ks, r));
    }
//@ loop 3
    invariant
        enumerates(__it1_.items(), all), ks.len() == return_vec@.len(), ks.len() == __it1_.pos(), __it1_.pos() <= __it1_.items().len(),
        forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i], return_vec@[i]) == __it1_.items()[i],
    ensures __it1_.pos() == __it1_.items().len(),
//@ end
//@ fn ProcessedAccountStore::get_confirmed_accounts
    requires self.wf(), account_pks@.len() == old(return_list)@.len(),
    ensures
        final(return_list)@.len() == old(return_list)@.len(),
        forall|i: int| 0 <= i < account_pks@.len() ==> #[trigger] final(return_list)@[i] == (if old(return_list)@[i] is Some { old(return_list)@[i] } else { on_chain(self.slots(), Some(confirmed_slot), account_pks@[i]) }),
//@ start
    let ghost m = self.slots();
    let ghost l0 = old(return_list)@;
//@ loop 0
    invariant
        self.wf(), m == self.slots(), m == slot_views(lk@), account_pks@.len() == l0.len(), l0.len() == return_list@.len(),
        filled(m, account_pks@, l0, return_list@, Some(confirmed_slot), process_slot),
    ensures
        l0.len() == return_list@.len(),
        filled(m, account_pks@, l0, return_list@, Some(confirmed_slot), None),
    decreases (match process_slot { Some(x) => x as nat + 1, None => 0nat }),
//@ loopstart 0
    let ghost l1 = return_list@;
//@ loop 1
    invariant
        m == slot_views(lk@), lk@.contains_key(current_slot), processed_accounts.processed_accounts@ == m[current_slot].accounts,
        account_pks@.len() == l1.len(), l1.len() == return_list@.len(), __it0_.items().len() == account_pks@.len(), __it0_.pos() <= __it0_.items().len(),
        forall|i: int| 0 <= i < __it0_.items().len() ==> (#[trigger] __it0_.items()[i]).0 == i && *__it0_.items()[i].1 == account_pks@[i],
        forall|i: int| 0 <= i < l1.len() ==> #[trigger] return_list@[i] == (if i < __it0_.pos() && l1[i] is None && m[current_slot].accounts.contains_key(account_pks@[i]) { Some((m[current_slot].accounts[account_pks@[i]], current_slot)) } else { l1[i] }),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loop 2
    invariant_except_break
        __acc1_,
    invariant
        __it1_.items().len() == return_list@.len(), __it1_.pos() <= __it1_.items().len(),
        forall|i: int| 0 <= i < return_list@.len() ==> *(#[trigger] __it1_.items()[i]) == return_list@[i],
        __acc1_ ==> forall|i: int| 0 <= i < __it1_.pos() ==> #[trigger] return_list@[i] is Some,
    ensures __acc1_ ==> __it1_.pos() == __it1_.items().len(),
//@ end
//@ fn ProcessedAccountStore::get_accounts ret=r
    requires self.wf(), commitment != Commitment::Finalized,
    ensures
        r@.len() == account_pks@.len(),
        forall|i: int| 0 <= i < account_pks@.len() ==> at_commitment(self.slots(), commitment, confirmed_slot, account_pks@[i], #[trigger] r@[i]),
//@ start
    broadcast use lemma_newest_first;
    let ghost m = self.slots();
//@ loop 0
    invariant
        self.wf(), m == self.slots(), m == slot_views(lk@), newest_first(__it0_.items(), lk@), account_pks@.len() == return_list@.len(), __it0_.pos() <= __it0_.items().len(),
        commitment == Commitment::Processed,
        forall|j: int| 0 <= j < __it0_.pos() ==> *(#[trigger] __it0_.items()[j]).0 > confirmed_slot,
        forall|i: int| 0 <= i < return_list@.len() ==> so_far(m, confirmed_slot, __it0_.items(), __it0_.pos() as int, account_pks@[i], #[trigger] return_list@[i]),
    ensures
        account_pks@.len() == return_list@.len(),
        forall|i: int| 0 <= i < return_list@.len() ==> at_processed(m, confirmed_slot, account_pks@[i], #[trigger] return_list@[i]),
//@ loopstart 0
    let ghost l1 = return_list@;
    let ghost n = __it0_.pos() as int;
    proof {
        if n == __it0_.items().len() || *__it0_.items()[n].0 <= confirmed_slot {
            assert forall|i: int| 0 <= i < l1.len() && l1[i] is None implies no_newer(m, confirmed_slot, account_pks@[i]) && (n == __it0_.items().len() ==> on_chain(m, Some(confirmed_slot), account_pks@[i]) is None) by {
                lemma_visited(lk@, confirmed_slot, __it0_.items(), n, account_pks@[i]);
            }
        }
    }
//@ loop 1
    invariant
        account_pks@.len() == l1.len(), l1.len() == return_list@.len(), __it1_.items().len() == account_pks@.len(), __it1_.pos() <= __it1_.items().len(),
        forall|i: int| 0 <= i < __it1_.items().len() ==> (#[trigger] __it1_.items()[i]).0 == i && *__it1_.items()[i].1 == account_pks@[i],
        forall|i: int| 0 <= i < l1.len() ==> #[trigger] return_list@[i] == (if i < __it1_.pos() && l1[i] is None && processed_account_slots.processed_accounts@.contains_key(account_pks@[i]) { Some((processed_account_slots.processed_accounts@[account_pks@[i]], *slot)) } else { l1[i] }),
    ensures __it1_.pos() == __it1_.items().len(),
//@ loopafter 1
    proof {
        assert forall|i: int| 0 <= i < return_list@.len() implies so_far(m, confirmed_slot, __it0_.items(), n + 1, account_pks@[i], #[trigger] return_list@[i]) by {
            lemma_visit(lk@, confirmed_slot, __it0_.items(), n, account_pks@[i], l1[i], return_list@[i]);
        }
    }
//@ loop 2
    invariant_except_break
        __acc2_,
    invariant
        __it2_.items().len() == return_list@.len(), __it2_.pos() <= __it2_.items().len(),
        forall|i: int| 0 <= i < return_list@.len() ==> *(#[trigger] __it2_.items()[i]) == return_list@[i],
        __acc2_ ==> forall|i: int| 0 <= i < __it2_.pos() ==> #[trigger] return_list@[i] is Some,
    ensures __acc2_ ==> __it2_.pos() == __it2_.items().len(),
//@ end
}
// the states found so far on the chain; the walk is at a slot
pub open spec fn filled(m: Map<u64, SlotView>, pks: Seq<Pubkey>, l0: Seq<Option<(ProcessedAccount, u64)>>, l: Seq<Option<(ProcessedAccount, u64)>>, from: Option<u64>, at: Option<u64>) -> bool {
    forall|i: int| 0 <= i < l0.len() ==> if l0[i] is Some { #[trigger] l[i] == l0[i] } else { on_chain(m, from, pks[i]) == (if l[i] is Some { l[i] } else { on_chain(m, at, pks[i]) }) }
}
// the slots visited so far, from the newest on
pub open spec fn so_far(m: Map<u64, SlotView>, confirmed: u64, items: Seq<(&u64, &ProcessedAccountBySlot)>, n: int, pk: Pubkey, r: Option<(ProcessedAccount, u64)>) -> bool {
    &&& r is Some ==> at_processed(m, confirmed, pk, r)
    &&& r is None ==> forall|j: int| 0 <= j < n ==> !(#[trigger] items[j]).1.processed_accounts@.contains_key(pk)
}
// items of a map from the newest on
pub open spec fn newest_first(items: Seq<(&u64, &ProcessedAccountBySlot)>, m: Map<u64, ProcessedAccountBySlot>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> m.contains_key(*(#[trigger] items[i]).0) && *items[i].1 == m[*items[i].0]
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < items.len() && *(#[trigger] items[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < items.len() ==> *(#[trigger] items[i]).0 > *(#[trigger] items[j]).0
}
broadcast proof fn lemma_newest_first(s: Seq<(&u64, &ProcessedAccountBySlot)>, m: Map<u64, ProcessedAccountBySlot>)
    requires #[trigger] enumerates_refs(s, m), forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 < *(#[trigger] s[j]).0,
    ensures newest_first(s.reverse(), m),
{
    let r = s.reverse();
    assert forall|i: int| 0 <= i < r.len() implies m.contains_key(*(#[trigger] r[i]).0) && *r[i].1 == m[*r[i].0] by { assert(r[i] == s[s.len() - 1 - i]); }
    assert forall|k: u64| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]).0 == k by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
        assert(r[s.len() - 1 - i] == s[i]);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies *(#[trigger] r[i]).0 > *(#[trigger] r[j]).0 by { assert(r[i] == s[s.len() - 1 - i] && r[j] == s[s.len() - 1 - j]); }
}
proof fn lemma_visit(mv: Map<u64, ProcessedAccountBySlot>, confirmed: u64, items: Seq<(&u64, &ProcessedAccountBySlot)>, n: int, pk: Pubkey, o: Option<(ProcessedAccount, u64)>, r: Option<(ProcessedAccount, u64)>)
    requires
        newest_first(items, mv), 0 <= n < items.len(), *items[n].0 > confirmed,
        so_far(slot_views(mv), confirmed, items, n, pk, o),
        r == (if o is None && items[n].1.processed_accounts@.contains_key(pk) { Some((items[n].1.processed_accounts@[pk], *items[n].0)) } else { o }),
    ensures so_far(slot_views(mv), confirmed, items, n + 1, pk, r),
{
    let m = slot_views(mv);
    if o is None && r is Some {
        let s = *items[n].0;
        assert(acct(m, s, pk));
        assert forall|t: u64| t > s implies !#[trigger] acct(m, t, pk) by {
            if acct(m, t, pk) {
                assert(mv.contains_key(t));
                let j = choose|j: int| 0 <= j < items.len() && *(#[trigger] items[j]).0 == t;
                assert(!items[j].1.processed_accounts@.contains_key(pk));
            }
        }
        assert(!no_newer(m, confirmed, pk));
    }
}
// all slots above the confirmed one were visited
proof fn lemma_visited(mv: Map<u64, ProcessedAccountBySlot>, confirmed: u64, items: Seq<(&u64, &ProcessedAccountBySlot)>, n: int, pk: Pubkey)
    requires
        newest_first(items, mv), 0 <= n <= items.len(), n < items.len() ==> *items[n].0 <= confirmed,
        so_far(slot_views(mv), confirmed, items, n, pk, None),
    ensures no_newer(slot_views(mv), confirmed, pk),
        (forall|j: int| 0 <= j < n ==> *(#[trigger] items[j]).0 > confirmed) && n == items.len() ==> on_chain(slot_views(mv), Some(confirmed), pk) is None,
{
    let m = slot_views(mv);
    assert forall|t: u64| t > confirmed implies !#[trigger] acct(m, t, pk) by {
        if acct(m, t, pk) {
            assert(mv.contains_key(t));
            let j = choose|j: int| 0 <= j < items.len() && *(#[trigger] items[j]).0 == t;
            if j >= n { if j > n { assert(*items[n].0 > *items[j].0); } }
            assert(!items[j].1.processed_accounts@.contains_key(pk));
        }
    }
    if m.contains_key(confirmed) && n == items.len() { assert(mv.contains_key(confirmed)); let j = choose|j: int| 0 <= j < items.len() && *(#[trigger] items[j]).0 == confirmed; assert(*items[j].0 == confirmed); }
}
// slots are only missing below the place where the walk is
pub open spec fn only_lost(m0: Map<u64, SlotView>, m: Map<u64, SlotView>, slot: u64, at: Option<u64>) -> bool {
    &&& at is Some ==> at->0 <= slot
    &&& forall|s: u64| #[trigger] m.contains_key(s) ==> m0.contains_key(s) && m[s] == m0[s]
    &&& forall|s: u64| #[trigger] m0.contains_key(s) && !m.contains_key(s) ==> s <= slot && (at is Some ==> s > at->0)
}
// what finalizing a slot yields: the newest state of each account on its chain, once
pub open spec fn moved(m: Map<u64, SlotView>, slot: u64, ks: Seq<Pubkey>, r: Seq<(ProcessedAccount, u64)>) -> bool {
    &&& ks.len() == r.len() && ks.no_duplicates()
    &&& forall|i: int| 0 <= i < ks.len() ==> on_chain(m, Some(slot), #[trigger] ks[i]) == Some(r[i])
    &&& forall|pk: Pubkey| (#[trigger] on_chain(m, Some(slot), pk)) is Some ==> ks.contains(pk)
}
