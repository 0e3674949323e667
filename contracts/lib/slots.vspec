//@ file account_storage/src/inmemory_account_store.rs
// ---- what a slot reaching a commitment does ----------------------------------------------------
// the slot a promotion goes on to from slot `s`
pub open spec fn next_slot(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, s: u64) -> Option<u64> {
    let p = if s == si.slot { Some(si.parent) } else if m.contains_key(s) { m[s].parent } else { None };
    if c != Commitment::Processed && p is Some && p->0 < s { p } else { None }
}
pub open spec fn reach(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, s: u64, t: u64) -> bool decreases s {
    s == t || (next_slot(m, si, c, s) is Some && reach(m, si, c, next_slot(m, si, c, s)->0, t))
}
// t is the slot itself or one of its known ancestors
pub open spec fn reached(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, t: u64) -> bool { reach(m, si, c, si.slot, t) }
pub open spec fn marked(m: Map<u64, SlotStatus>, n: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, t: u64) -> bool {
    &&& n.contains_key(t)
    &&& n[t].commitment == (if m.contains_key(t) && m[t].commitment.rank() >= c.rank() { m[t].commitment } else { c })
    &&& n[t].parent == (if t == si.slot { Some(si.parent) } else if m.contains_key(t) { m[t].parent } else { None })
    &&& n[t].accounts_updated@ =~= (if m.contains_key(t) { m[t].accounts_updated@ } else { Set::<usize>::empty() })
}
pub open spec fn same_slot(m: Map<u64, SlotStatus>, n: Map<u64, SlotStatus>, t: u64) -> bool {
    (n.contains_key(t) <==> m.contains_key(t)) && (m.contains_key(t) ==> n[t] == m[t])
}
pub open spec fn slots_walked(m: Map<u64, SlotStatus>, n: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, lim: int) -> bool {
    &&& forall|t: u64| #![trigger reached(m, si, c, t)] #![trigger n.contains_key(t)] reached(m, si, c, t) && t > lim ==> marked(m, n, si, c, t)
    &&& forall|t: u64| #![trigger reached(m, si, c, t)] #![trigger n.contains_key(t)] !(reached(m, si, c, t) && t > lim) ==> same_slot(m, n, t)
}
pub open spec fn slots_after(m: Map<u64, SlotStatus>, n: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment) -> bool {
    forall|t: u64| #![trigger reached(m, si, c, t)] #![trigger n.contains_key(t)]
        if c == Commitment::Finalized && t < si.slot { !n.contains_key(t) }
        else if reached(m, si, c, t) { marked(m, n, si, c, t) }
        else { same_slot(m, n, t) }
}
// slot t is promoted to the commitment now, and account i was written in it
pub open spec fn hit(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, t: u64, i: usize) -> bool {
    reached(m, si, c, t) && m.contains_key(t) && m[t].commitment.rank() < c.rank() && m[t].accounts_updated@.contains(i)
}
pub open spec fn hit_some(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, i: usize) -> bool { exists|t: u64| #[trigger] hit(m, si, c, t, i) }
pub open spec fn is_top(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, t: u64, i: usize) -> bool {
    hit(m, si, c, t, i) && forall|j: u64| #[trigger] hit(m, si, c, j, i) ==> j <= t
}
pub open spec fn tops(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, lim: int, w: Map<usize, u64>) -> bool {
    &&& forall|i: usize| #[trigger] w.contains_key(i) ==> is_top(m, si, c, w[i], i) && w[i] > lim
    &&& forall|i: usize, t: u64| #[trigger] hit(m, si, c, t, i) && t > lim ==> w.contains_key(i)
}
pub open spec fn promo(o: AccountDataByCommitment, slot: u64, c: Commitment) -> Option<(AccountData, Option<AccountData>)> {
    let p = o.processed_accounts@;
    let level = if c == Commitment::Confirmed { o.confirmed_account } else { o.finalized_account };
    if c != Commitment::Processed && p.contains_key(slot) && changes(level, p[slot]) { Some((p[slot], level)) } else { None }
}
// promoting slot t on the account `o` leaves `n`, or the account is not stored any more
pub open spec fn stepped(f: DynAccountFiltersStoreInterface, o: AccountDataByCommitment, n: AccountDataByCommitment, still: bool, t: u64, c: Commitment) -> bool {
    let r = promo(o, t, c);
    exists|u: AccountDataByCommitment| #[trigger] promoted_rel(o, u, t, c, r) && u.wf() && (
        if r is Some && (r->0).1 is Some && drops(f, (r->0).1->0, (r->0).0, u, c) { emptied(n) && !still } else { n == u && still })
}
pub open spec fn promoted_list(o: InmemoryAccountStore, si: SlotInfo, c: Commitment, v: Seq<AccountData>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> o.tracked((#[trigger] v[k]).pubkey) && exists|t: u64|
        #[trigger] is_top(o.slots_status@, si, c, t, o.pubkey_to_account_index@[v[k].pubkey]) && promo(o.entry(v[k].pubkey), t, c) is Some && promo(o.entry(v[k].pubkey), t, c).unwrap().0 == v[k]
    &&& forall|pk: Pubkey, t: u64| o.tracked(pk) && #[trigger] is_top(o.slots_status@, si, c, t, o.pubkey_to_account_index@[pk]) && (#[trigger] promo(o.entry(pk), t, c)) is Some
        ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == promo(o.entry(pk), t, c).unwrap().0
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> (#[trigger] v[k]).pubkey != (#[trigger] v[l]).pubkey
}
pub open spec fn slot_rel(o: InmemoryAccountStore, n: InmemoryAccountStore, si: SlotInfo, c: Commitment, v: Seq<AccountData>) -> bool {
    &&& slots_after(o.slots_status@, n.slots_status@, si, c)
    &&& n.filtered_accounts == o.filtered_accounts
    &&& forall|pk: Pubkey| #[trigger] n.tracked(pk) ==> o.tracked(pk) && n.pubkey_to_account_index@[pk] == o.pubkey_to_account_index@[pk]
    &&& forall|pk: Pubkey, t: u64| o.tracked(pk) && #[trigger] is_top(o.slots_status@, si, c, t, o.pubkey_to_account_index@[pk])
        ==> stepped(o.filtered_accounts, o.entry(pk), n.accounts_store@[o.pubkey_to_account_index@[pk] as int], n.tracked(pk), t, c)
    &&& forall|pk: Pubkey| #[trigger] o.tracked(pk) && !hit_some(o.slots_status@, si, c, o.pubkey_to_account_index@[pk]) ==> n.tracked(pk) && n.entry(pk) == o.entry(pk)
    &&& promoted_list(o, si, c, v)
}
proof fn lemma_reach_le(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, s: u64, t: u64)
    requires reach(m, si, c, s, t),
    ensures t <= s,
    decreases s,
{
    if s != t { lemma_reach_le(m, si, c, next_slot(m, si, c, s)->0, t); }
}
proof fn lemma_reach_next(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, s: u64, t: u64)
    requires reach(m, si, c, s, t), next_slot(m, si, c, t) is Some,
    ensures reach(m, si, c, s, next_slot(m, si, c, t)->0),
    decreases s,
{
    let p = next_slot(m, si, c, t)->0;
    if s != t { lemma_reach_next(m, si, c, next_slot(m, si, c, s)->0, t); }
    else { assert(reach(m, si, c, p, p)); }
}
proof fn lemma_reach_linear(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, s: u64, cur: u64, t: u64)
    requires reach(m, si, c, s, cur), reach(m, si, c, s, t), t < cur,
    ensures next_slot(m, si, c, cur) is Some, t <= next_slot(m, si, c, cur)->0,
    decreases s,
{
    if s == cur { lemma_reach_le(m, si, c, next_slot(m, si, c, s)->0, t); }
    else {
        lemma_reach_le(m, si, c, s, cur);
        lemma_reach_linear(m, si, c, next_slot(m, si, c, s)->0, cur, t);
    }
}
proof fn lemma_walk(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, cur: u64)
    requires reached(m, si, c, cur),
    ensures
        next_slot(m, si, c, cur) is Some ==> reached(m, si, c, next_slot(m, si, c, cur)->0) && forall|t: u64| #[trigger] reached(m, si, c, t) && t < cur ==> t <= next_slot(m, si, c, cur)->0,
        next_slot(m, si, c, cur) is None ==> forall|t: u64| #[trigger] reached(m, si, c, t) ==> t >= cur,
        forall|t: u64| #[trigger] reached(m, si, c, t) ==> t <= si.slot,
{
    if next_slot(m, si, c, cur) is Some { lemma_reach_next(m, si, c, si.slot, cur); }
    assert forall|t: u64| #[trigger] reached(m, si, c, t) implies t <= si.slot && (t < cur ==> next_slot(m, si, c, cur) is Some && t <= next_slot(m, si, c, cur)->0) by {
        lemma_reach_le(m, si, c, si.slot, t);
        if t < cur { lemma_reach_linear(m, si, c, si.slot, cur, t); }
    }
}
pub open spec fn seen(items: Seq<(usize, u64)>, n: int, i: usize) -> bool { exists|j: int| 0 <= j < n && (#[trigger] items[j]).0 == i }
pub open spec fn lim(cur: Option<(u64, Option<u64>)>) -> int { match cur { Some(x) => x.0 as int, None => -1 } }
proof fn lemma_slots_step(m: Map<u64, SlotStatus>, a: Map<u64, SlotStatus>, b: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, s: u64)
    requires
        reached(m, si, c, s),
        slots_walked(m, a, si, c, s as int),
        marked(m, b, si, c, s),
        b == a.insert(s, b[s]),
    ensures slots_walked(m, b, si, c, if next_slot(m, si, c, s) is Some { next_slot(m, si, c, s)->0 as int } else { -1 }),
{
    lemma_walk(m, si, c, s);
    let l = if next_slot(m, si, c, s) is Some { next_slot(m, si, c, s)->0 as int } else { -1 };
    assert forall|t: u64| #![trigger reached(m, si, c, t)] #![trigger b.contains_key(t)] (reached(m, si, c, t) && t > l ==> marked(m, b, si, c, t)) && (!(reached(m, si, c, t) && t > l) ==> same_slot(m, b, t)) by {
        if t != s {
            assert(b.contains_key(t) <==> a.contains_key(t));
            if reached(m, si, c, t) && t > s { assert(marked(m, a, si, c, t)); }
            else { assert(same_slot(m, a, t)); }
        }
    }
}
proof fn lemma_promo(o: AccountDataByCommitment, n: AccountDataByCommitment, t: u64, c: Commitment, r: Option<(AccountData, Option<AccountData>)>)
    requires promoted_rel(o, n, t, c, r),
    ensures
        r == promo(o, t, c),
        r is Some ==> keeps(o, (r->0).0) && ((r->0).1 is Some ==> keeps(o, (r->0).1->0)),
        forall|d: AccountData| #[trigger] keeps(n, d) ==> keeps(o, d),
{
    lemma_keeps();
    if r is Some { assert(o.processed_accounts@.contains_key(t)); }
}
proof fn lemma_promos(o: AccountDataByCommitment, t: u64, c: Commitment)
    ensures forall|n: AccountDataByCommitment, r: Option<(AccountData, Option<AccountData>)>| #[trigger] promoted_rel(o, n, t, c, r) ==> r == promo(o, t, c)
        && (r is Some ==> keeps(o, (r->0).0) && ((r->0).1 is Some ==> keeps(o, (r->0).1->0)))
        && (forall|d: AccountData| #[trigger] keeps(n, d) ==> keeps(o, d)),
{
    assert forall|n: AccountDataByCommitment, r: Option<(AccountData, Option<AccountData>)>| #[trigger] promoted_rel(o, n, t, c, r) implies r == promo(o, t, c)
        && (r is Some ==> keeps(o, (r->0).0) && ((r->0).1 is Some ==> keeps(o, (r->0).1->0)))
        && (forall|d: AccountData| #[trigger] keeps(n, d) ==> keeps(o, d)) by { lemma_promo(o, n, t, c, r); }
}
proof fn lemma_seen(items: Seq<(usize, u64)>, n: int)
    requires 0 <= n < items.len(), forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0 != (#[trigger] items[j]).0,
    ensures
        !seen(items, n, items[n].0),
        forall|i: usize| #[trigger] seen(items, n + 1, i) <==> seen(items, n, i) || i == items[n].0,
{
    assert forall|i: usize| #[trigger] seen(items, n + 1, i) <==> seen(items, n, i) || i == items[n].0 by {
        if seen(items, n, i) { let j = choose|j: int| 0 <= j < n && (#[trigger] items[j]).0 == i; assert(items[j].0 == i); }
        if i == items[n].0 { assert(items[n].0 == i); }
        if seen(items, n + 1, i) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] items[j]).0 == i; if j < n { assert(items[j].0 == i); } }
    }
}
pub open spec fn item_promo(items: Seq<(usize, u64)>, j: int, acc: Seq<AccountDataByCommitment>, c: Commitment) -> Option<(AccountData, Option<AccountData>)> {
    promo(acc[items[j].0 as int], items[j].1, c)
}
#[verifier::opaque]
pub open spec fn in_list(v: Seq<AccountData>, d: AccountData) -> bool { exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == d }
proof fn lemma_in_list(v: Seq<AccountData>, x: AccountData)
    ensures in_list(v.push(x), x), forall|d: AccountData| in_list(v, d) ==> #[trigger] in_list(v.push(x), d),
{
    reveal(in_list);
    assert(v.push(x)[v.len() as int] == x);
    assert forall|d: AccountData| in_list(v, d) implies #[trigger] in_list(v.push(x), d) by {
        let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == d;
        assert(v.push(x)[k] == d);
    }
}
pub open spec fn list_so_far(items: Seq<(usize, u64)>, n: int, idx: Map<Pubkey, usize>, acc: Seq<AccountDataByCommitment>, c: Commitment, v: Seq<AccountData>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> idx.contains_key((#[trigger] v[k]).pubkey) && exists|j: int| 0 <= j < n
            && items[j].0 == idx[v[k].pubkey] && (#[trigger] item_promo(items, j, acc, c)) is Some && item_promo(items, j, acc, c).unwrap().0 == v[k]
    &&& forall|j: int| #![trigger items[j]] #![trigger item_promo(items, j, acc, c)] 0 <= j < n && item_promo(items, j, acc, c) is Some ==> in_list(v, item_promo(items, j, acc, c).unwrap().0)
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> (#[trigger] v[k]).pubkey != (#[trigger] v[l]).pubkey
}

#[verifier::opaque]
pub open spec fn promoting(f: DynAccountFiltersStoreInterface, c: Commitment, n0: nat, idx0: Map<Pubkey, usize>, acc0: Seq<AccountDataByCommitment>, items: Seq<(usize, u64)>, pos: int,
    lk: Seq<AccountDataByCommitment>, idx: Map<Pubkey, usize>, own: Map<Pubkey, BTreeSet<usize>>, v: Seq<AccountData>) -> bool {
    &&& lk.len() == n0 == acc0.len()
    &&& index_ok(acc0, idx0)
    &&& accounts_ok(lk, idx, own)
    &&& index_ok(lk, idx)
    &&& owners_ok(own, n0)
    &&& forall|pk: Pubkey| #[trigger] idx.contains_key(pk) ==> idx0.contains_key(pk) && idx[pk] == idx0[pk]
    &&& forall|pk: Pubkey| #[trigger] idx0.contains_key(pk) && !seen(items, pos, idx0[pk]) ==> idx.contains_key(pk)
    &&& forall|i: usize| i < n0 && !seen(items, pos, i) ==> #[trigger] lk[i as int] == acc0[i as int]
    &&& forall|pk: Pubkey, j: int| #[trigger] idx0.contains_key(pk) && 0 <= j < pos && (#[trigger] items[j]).0 == idx0[pk]
            ==> stepped(f, acc0[idx0[pk] as int], lk[idx0[pk] as int], idx.contains_key(pk), items[j].1, c)
    &&& list_so_far(items, pos, idx0, acc0, c, v)
}
proof fn lemma_promoting_init(f: DynAccountFiltersStoreInterface, c: Commitment, idx0: Map<Pubkey, usize>, acc0: Seq<AccountDataByCommitment>, own: Map<Pubkey, BTreeSet<usize>>)
    requires accounts_ok(acc0, idx0, own), index_ok(acc0, idx0), owners_ok(own, acc0.len()),
    ensures forall|items: Seq<(usize, u64)>| #[trigger] promoting(f, c, acc0.len(), idx0, acc0, items, 0, acc0, idx0, own, Seq::empty()),
{
    assert forall|items: Seq<(usize, u64)>| #[trigger] promoting(f, c, acc0.len(), idx0, acc0, items, 0, acc0, idx0, own, Seq::empty()) by { reveal(promoting); }
}
// what is known of the account that is promoted next
proof fn lemma_promoting_at(f: DynAccountFiltersStoreInterface, c: Commitment, n0: nat, idx0: Map<Pubkey, usize>, acc0: Seq<AccountDataByCommitment>, items: Seq<(usize, u64)>, pos: int,
    lk: Seq<AccountDataByCommitment>, idx: Map<Pubkey, usize>, own: Map<Pubkey, BTreeSet<usize>>, v: Seq<AccountData>)
    requires promoting(f, c, n0, idx0, acc0, items, pos, lk, idx, own, v), 0 <= pos < items.len(),
    ensures
        lk.len() == n0,
        items[pos].0 < n0 ==> {
            let i = items[pos].0;
            &&& lk[i as int].wf()
            &&& forall|u: AccountDataByCommitment, r: Option<(AccountData, Option<AccountData>)>| #[trigger] promoted_rel(lk[i as int], u, items[pos].1, c, r) && r is Some
                ==> (r->0).0.account.data.ok() && ((r->0).1 is Some ==> (r->0).1->0.pubkey == (r->0).0.pubkey)
                    && vis(lk[i as int], Commitment::Processed) is Some && vis(lk[i as int], Commitment::Processed)->0.pubkey == (r->0).0.pubkey
            &&& match vis(lk[i as int], Commitment::Processed) {
                Some(d) => idx.contains_key(d.pubkey) && idx[d.pubkey] == i,
                None => promoted_rel(lk[i as int], lk[i as int], items[pos].1, c, None),
            }
        },
{
    reveal(promoting);
    if items[pos].0 < n0 {
        let i = items[pos].0;
        let o = lk[i as int];
        assert(entry_ok(o, i, idx, own));
        lemma_promos(o, items[pos].1, c);
        lemma_vis_all(o, Commitment::Processed);
        lemma_vis_kept(o, Commitment::Processed);
        match vis(o, Commitment::Processed) {
            None => { assert(o.at(Commitment::Processed, None)); assert(pruned(o.processed_accounts@, o.processed_accounts@, items[pos].1)); assert(promoted_rel(o, o, items[pos].1, c, None)); }
            Some(d) => {
                assert(keeps(o, d));
                assert forall|u: AccountDataByCommitment, r: Option<(AccountData, Option<AccountData>)>| #[trigger] promoted_rel(o, u, items[pos].1, c, r) && r is Some implies (r->0).0.pubkey == d.pubkey by {
                    assert(keeps(o, (r->0).0));
                    assert(idx[(r->0).0.pubkey] == i && idx[d.pubkey] == i);
                }
            }
        }
    }
}
// the promotion of account i in slot t
pub open spec fn promotes(f: DynAccountFiltersStoreInterface, c: Commitment, i: usize, t: u64, n0: nat,
    lka: Seq<AccountDataByCommitment>, idxa: Map<Pubkey, usize>, owna: Map<Pubkey, BTreeSet<usize>>, va: Seq<AccountData>,
    lk: Seq<AccountDataByCommitment>, idx: Map<Pubkey, usize>, own: Map<Pubkey, BTreeSet<usize>>, v: Seq<AccountData>, u: AccountDataByCommitment, r: Option<(AccountData, Option<AccountData>)>) -> bool {
    let gone = r is Some && (r->0).1 is Some && drops(f, (r->0).1->0, (r->0).0, u, c);
    &&& promoted_rel(lka[i as int], u, t, c, r)
    &&& u.wf()
    &&& lk == lka.update(i as int, lk[i as int])
    &&& gone ==> emptied(lk[i as int]) && lk[i as int].wf() && idx == idxa.remove((r->0).0.pubkey)
    &&& !gone ==> lk[i as int] == u && idx == idxa
    &&& forall|o: Pubkey, j: usize| j != i ==> (#[trigger] owner_has(own, o, j) <==> owner_has(owna, o, j))
    &&& !gone ==> forall|o: Pubkey| #![trigger owner_has(own, o, i)] owner_has(owna, o, i) && some_kept_of(u, o) ==> owner_has(own, o, i)
    &&& v == (if r is Some { va.push((r->0).0) } else { va })
}
proof fn lemma_list_step(items: Seq<(usize, u64)>, pos: int, idx: Map<Pubkey, usize>, acc: Seq<AccountDataByCommitment>, c: Commitment, v: Seq<AccountData>, r: Option<(AccountData, Option<AccountData>)>)
    requires
        list_so_far(items, pos, idx, acc, c, v),
        0 <= pos < items.len(),
        !seen(items, pos, items[pos].0),
        r == item_promo(items, pos, acc, c),
        r is Some ==> idx.contains_key((r->0).0.pubkey) && idx[(r->0).0.pubkey] == items[pos].0,
    ensures list_so_far(items, pos + 1, idx, acc, c, if r is Some { v.push((r->0).0) } else { v }),
{
    let w = if r is Some { v.push((r->0).0) } else { v };
    if r is Some { lemma_in_list(v, (r->0).0); }
    assert forall|k: int| 0 <= k < w.len() implies idx.contains_key((#[trigger] w[k]).pubkey) && exists|j: int| 0 <= j < pos + 1
            && items[j].0 == idx[w[k].pubkey] && (#[trigger] item_promo(items, j, acc, c)) is Some && item_promo(items, j, acc, c).unwrap().0 == w[k] by {
        if k < v.len() {
            assert(w[k] == v[k]);
            let j = choose|j: int| 0 <= j < pos && items[j].0 == idx[v[k].pubkey] && (#[trigger] item_promo(items, j, acc, c)) is Some && item_promo(items, j, acc, c).unwrap().0 == v[k];
            assert(item_promo(items, j, acc, c) is Some);
        } else { assert(item_promo(items, pos, acc, c) is Some); }
    }
    assert forall|j: int| #![trigger items[j]] #![trigger item_promo(items, j, acc, c)] 0 <= j < pos + 1 && item_promo(items, j, acc, c) is Some
        implies in_list(w, item_promo(items, j, acc, c).unwrap().0) by { }
    assert forall|k: int, l: int| 0 <= k < l < w.len() implies (#[trigger] w[k]).pubkey != (#[trigger] w[l]).pubkey by {
        assert(w[k] == v[k]);
        if l < v.len() { assert(w[l] == v[l]); }
        else {
            let j = choose|j: int| 0 <= j < pos && items[j].0 == idx[v[k].pubkey] && (#[trigger] item_promo(items, j, acc, c)) is Some && item_promo(items, j, acc, c).unwrap().0 == v[k];
            assert(items[j].0 != items[pos].0);
        }
    }
}
proof fn lemma_promoting_step(f: DynAccountFiltersStoreInterface, c: Commitment, n0: nat, idx0: Map<Pubkey, usize>, acc0: Seq<AccountDataByCommitment>, items: Seq<(usize, u64)>, pos: int,
    lka: Seq<AccountDataByCommitment>, idxa: Map<Pubkey, usize>, owna: Map<Pubkey, BTreeSet<usize>>, va: Seq<AccountData>,
    lk: Seq<AccountDataByCommitment>, idx: Map<Pubkey, usize>, own: Map<Pubkey, BTreeSet<usize>>, v: Seq<AccountData>)
    requires
        promoting(f, c, n0, idx0, acc0, items, pos, lka, idxa, owna, va),
        0 <= pos < items.len(), items[pos].0 < n0,
        forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0 != (#[trigger] items[j]).0,
        exists|u: AccountDataByCommitment, r: Option<(AccountData, Option<AccountData>)>| #![trigger promoted_rel(lka[items[pos].0 as int], u, items[pos].1, c, r)] promotes(f, c, items[pos].0, items[pos].1, n0, lka, idxa, owna, va, lk, idx, own, v, u, r),
    ensures
        promoting(f, c, n0, idx0, acc0, items, pos + 1, lk, idx, own, v),
{
    reveal(promoting);
    let i = items[pos].0;
    let t = items[pos].1;
    let (u, r) = choose|u: AccountDataByCommitment, r: Option<(AccountData, Option<AccountData>)>| #![trigger promoted_rel(lka[items[pos].0 as int], u, items[pos].1, c, r)] promotes(f, c, i, t, n0, lka, idxa, owna, va, lk, idx, own, v, u, r);
    let o = lka[i as int];
    let gone = r is Some && (r->0).1 is Some && drops(f, (r->0).1->0, (r->0).0, u, c);
    lemma_seen(items, pos);
    lemma_keeps();
    lemma_promos(o, t, c);
    assert(entry_ok(o, i, idxa, owna));
    if r is Some { assert(idxa.contains_key((r->0).0.pubkey) && idxa[(r->0).0.pubkey] == i); }
    assert(index_ok(lk, idx)) by {
        assert forall|pk: Pubkey| #[trigger] idx.contains_key(pk) implies idx[pk] < lk.len()
            && (forall|d: AccountData| #[trigger] keeps(lk[idx[pk] as int], d) ==> d.pubkey == pk)
            && (forall|q: Pubkey| #[trigger] idx.contains_key(q) && idx[q] == idx[pk] ==> q == pk) by {
            assert(idxa.contains_key(pk));
            if idx[pk] != i { assert(lk[idx[pk] as int] == lka[idx[pk] as int]); }
        }
    }
    assert forall|j: usize| j < lk.len() implies entry_ok(#[trigger] lk[j as int], j, idx, own) by {
        if j != i {
            assert(lk[j as int] == lka[j as int]);
            assert(entry_ok(lka[j as int], j, idxa, owna));
        }
    }
    assert forall|pk: Pubkey| #[trigger] idx0.contains_key(pk) && !seen(items, pos + 1, idx0[pk]) implies idx.contains_key(pk) by {
        assert(!seen(items, pos, idx0[pk]) && idx0[pk] != i);
        assert(idxa.contains_key(pk));
    }
    assert(!seen(items, pos, i));
    assert(o == acc0[i as int]);
    assert forall|k: usize| k < n0 && !seen(items, pos + 1, k) implies #[trigger] lk[k as int] == acc0[k as int] by {
        assert(!seen(items, pos, k) && k != i);
        assert(lk[k as int] == lka[k as int]);
    }
    assert forall|pk: Pubkey, j: int| #[trigger] idx0.contains_key(pk) && 0 <= j < pos + 1 && (#[trigger] items[j]).0 == idx0[pk]
            implies stepped(f, acc0[idx0[pk] as int], lk[idx0[pk] as int], idx.contains_key(pk), items[j].1, c) by {
        if j < pos {
            assert(idx0[pk] != i);
            assert(lk[idx0[pk] as int] == lka[idx0[pk] as int]);
            assert(stepped(f, acc0[idx0[pk] as int], lka[idx0[pk] as int], idxa.contains_key(pk), items[j].1, c));
            assert(idx.contains_key(pk) <==> idxa.contains_key(pk));
        } else {
            assert(!seen(items, pos, idx0[pk]));
            assert(idxa.contains_key(pk) && o == acc0[i as int]);
            assert(promoted_rel(o, u, t, c, promo(o, t, c)));
            if gone { assert((r->0).0.pubkey == pk); }
        }
    }
    lemma_list_step(items, pos, idx0, acc0, c, va, r);
}
proof fn lemma_promoting_done(f: DynAccountFiltersStoreInterface, c: Commitment, n0: nat, idx0: Map<Pubkey, usize>, acc0: Seq<AccountDataByCommitment>, items: Seq<(usize, u64)>, pos: int,
    lk: Seq<AccountDataByCommitment>, idx: Map<Pubkey, usize>, own: Map<Pubkey, BTreeSet<usize>>, v: Seq<AccountData>)
    requires promoting(f, c, n0, idx0, acc0, items, pos, lk, idx, own, v),
    ensures
        lk.len() == n0, accounts_ok(lk, idx, own), index_ok(lk, idx), owners_ok(own, n0),
        forall|o: InmemoryAccountStore, n: InmemoryAccountStore, si: SlotInfo, w: Map<usize, u64>|
            o.pubkey_to_account_index@ == idx0 && o.accounts_store@ == acc0 && o.filtered_accounts == f && n.filtered_accounts == f
            && n.pubkey_to_account_index@ == idx && n.accounts_store@ == lk && #[trigger] slots_after(o.slots_status@, n.slots_status@, si, c)
            && #[trigger] tops(o.slots_status@, si, c, -1, w) && enumerates(items, w) && pos == items.len()
            ==> slot_rel(o, n, si, c, v),
{
    assert(promoting(f, c, n0, idx0, acc0, items, pos, lk, idx, own, v));
    assert forall|o: InmemoryAccountStore, n: InmemoryAccountStore, si: SlotInfo, w: Map<usize, u64>|
            o.pubkey_to_account_index@ == idx0 && o.accounts_store@ == acc0 && o.filtered_accounts == f && n.filtered_accounts == f
            && n.pubkey_to_account_index@ == idx && n.accounts_store@ == lk && #[trigger] slots_after(o.slots_status@, n.slots_status@, si, c)
            && #[trigger] tops(o.slots_status@, si, c, -1, w) && enumerates(items, w) && pos == items.len()
            implies slot_rel(o, n, si, c, v) by {
        reveal(promoting);
        let m = o.slots_status@;
        assert forall|pk: Pubkey, t: u64| o.tracked(pk) && #[trigger] is_top(m, si, c, t, idx0[pk])
            implies stepped(f, o.entry(pk), lk[idx0[pk] as int], n.tracked(pk), t, c) && (promo(o.entry(pk), t, c) is Some ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == promo(o.entry(pk), t, c).unwrap().0) by {
            let i = idx0[pk];
            assert(hit(m, si, c, t, i));
            assert(w.contains_key(i));
            assert(is_top(m, si, c, w[i], i));
            assert(w[i] == t);
            let j = choose|j: int| 0 <= j < items.len() && (#[trigger] items[j]).0 == i;
            assert(items[j].1 == t);
            assert(item_promo(items, j, acc0, c) == promo(o.entry(pk), t, c));
            reveal(in_list);
        }
        assert forall|pk: Pubkey| #[trigger] o.tracked(pk) && !hit_some(m, si, c, idx0[pk]) implies n.tracked(pk) && n.entry(pk) == o.entry(pk) by {
            let i = idx0[pk];
            if seen(items, pos, i) {
                let j = choose|j: int| 0 <= j < pos && (#[trigger] items[j]).0 == i;
                assert(w.contains_key(i));
                assert(hit(m, si, c, w[i], i));
            }
            assert(lk[i as int] == acc0[i as int]);
        }
        assert forall|k: int| 0 <= k < v.len() implies o.tracked((#[trigger] v[k]).pubkey) && exists|t: u64|
            #[trigger] is_top(m, si, c, t, idx0[v[k].pubkey]) && promo(o.entry(v[k].pubkey), t, c) is Some && promo(o.entry(v[k].pubkey), t, c).unwrap().0 == v[k] by {
            let j = choose|j: int| 0 <= j < pos && items[j].0 == idx0[v[k].pubkey] && (#[trigger] item_promo(items, j, acc0, c)) is Some && item_promo(items, j, acc0, c).unwrap().0 == v[k];
            assert(w.contains_key(items[j].0));
            assert(is_top(m, si, c, w[items[j].0], items[j].0));
        }
    }
    reveal(promoting);
}

impl InmemoryAccountStore {
//@ fn AccountStorageInterface for InmemoryAccountStore::process_slot_data ret=r self=mut readmut=accounts_store attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).accounts_store@.len() == old(self).accounts_store@.len(),
        slot_rel(*old(self), *final(self), slot_info, commitment, r@),
//@ start
    broadcast use axiom_map_iseq;
    let ghost m0 = old(self).slots_status@;
    let ghost acc0 = old(self).accounts_store@;
    let ghost idx0 = old(self).pubkey_to_account_index@;
    let ghost f0 = old(self).filtered_accounts;
    let ghost n0 = old(self).accounts_store@.len();
    proof { assert(reached(m0, slot_info, commitment, slot_info.slot)); lemma_walk(m0, slot_info, commitment, slot_info.slot); }
    proof { lemma_keeps(); }
//@ loop 0
    invariant
        current_slot is Some ==> reached(m0, slot_info, commitment, current_slot.unwrap().0)
            && current_slot.unwrap().1 == (if current_slot.unwrap().0 == slot_info.slot { Some(slot_info.parent) } else { None }),
        slots_walked(m0, lk@, slot_info, commitment, lim(current_slot)),
        tops(m0, slot_info, commitment, lim(current_slot), writable_accounts@),
    ensures
        current_slot is None,
    decreases lim(current_slot) + 1,
//@ loopstart 0
    let ghost s = slot;
    let ghost w0 = writable_accounts@;
    let ghost lk0 = lk@;
    proof {
        lemma_walk(m0, slot_info, commitment, s);
        assert(same_slot(m0, lk@, s));
    }
//@ loop 1
    invariant
        bset_items(__it0_.items(), m0[s].accounts_updated@),
        forall|i: usize| #[trigger] writable_accounts@.contains_key(i) <==> w0.contains_key(i) || walked(__it0_.items(), __it0_.pos() as int).contains(i),
        forall|i: usize| #[trigger] w0.contains_key(i) ==> writable_accounts@[i] == w0[i],
        forall|i: usize| #[trigger] writable_accounts@.contains_key(i) && !w0.contains_key(i) ==> writable_accounts@[i] == s,
    ensures
        __it0_.pos() == __it0_.items().len(),
//@ loopafter 1
    proof { lemma_walked(__it0_.items(), __it0_.pos() as int); }
//@ loopend 0
    proof {
        assert(marked(m0, lk@, slot_info, commitment, s));
        assert(lim(current_slot) == (if next_slot(m0, slot_info, commitment, s) is Some { next_slot(m0, slot_info, commitment, s)->0 as int } else { -1 }));
        lemma_slots_step(m0, lk0, lk@, slot_info, commitment, s);
    }
//@ loopafter 0
    let ghost l0 = lk@;
    proof { lemma_promoting_init(f0, commitment, idx0, acc0, self.accounts_by_owner@); }
//@ loop 2
    invariant
        forall|t: u64| #[trigger] lk@.contains_key(t) ==> l0.contains_key(t) && lk@[t] == l0[t],
        forall|t: u64| #[trigger] l0.contains_key(t) && t >= slot_info.slot ==> lk@.contains_key(t),
    ensures
        forall|t: u64| #[trigger] lk@.contains_key(t) ==> t >= slot_info.slot,
    decreases lk@.dom().len(),
//@ loop 3
    invariant
        enumerates(__it1_.items(), writable_accounts@),
        promoting(f0, commitment, n0, idx0, acc0, __it1_.items(), __it1_.pos() as int, self.accounts_store@, self.pubkey_to_account_index@, self.accounts_by_owner@, updated_accounts@),
    ensures
        __it1_.pos() == __it1_.items().len(),
//@ loopstart 3
    let ghost pos = __it1_.pos() as int;
    let ghost lka = self.accounts_store@;
    let ghost idxa = self.pubkey_to_account_index@;
    let ghost owna = self.accounts_by_owner@;
    let ghost va = updated_accounts@;
    proof {
        if pos < __it1_.items().len() { lemma_promoting_at(f0, commitment, n0, idx0, acc0, __it1_.items(), pos, lka, idxa, owna, va); }
    }
//@ loopend 3
    proof {
        let i = __it1_.items()[pos].0;
        assert(self.accounts_store@ =~= lka.update(i as int, self.accounts_store@[i as int]));
        lemma_promoting_step(f0, commitment, n0, idx0, acc0, __it1_.items(), pos, lka, idxa, owna, va, self.accounts_store@, self.pubkey_to_account_index@, self.accounts_by_owner@, updated_accounts@);
    }
//@ loopafter 3
    proof {
        lemma_promoting_done(f0, commitment, n0, idx0, acc0, __it1_.items(), __it1_.pos() as int, self.accounts_store@, self.pubkey_to_account_index@, self.accounts_by_owner@, updated_accounts@);
        assert(tops(m0, slot_info, commitment, -1, writable_accounts@));
        assert(slots_after(m0, self.slots_status@, slot_info, commitment));
    }
//@ end
}

// ---- over every history: a slot that reached a commitment has all its writes there -------------
// the account has, at the commitment, the write or a newer one
pub open spec fn covered(e: AccountDataByCommitment, d: AccountData, c: Commitment) -> bool {
    match c {
        Commitment::Processed => true,
        Commitment::Confirmed => e.confirmed_account is Some && !older(e.confirmed_account->0, d),
        Commitment::Finalized => e.finalized_account is Some && !older(e.finalized_account->0, d),
    }
}
pub open spec fn write_kept(s: InmemoryAccountStore, pk: Pubkey, t: u64) -> bool {
    let e = s.entry(pk);
    let d = e.processed_accounts@[t];
    s.slots_status@.contains_key(t) && covered(e, d, s.slots_status@[t].commitment)
        && (s.slots_status@[t].accounts_updated@.contains(s.pubkey_to_account_index@[pk]) || covered(e, d, Commitment::Finalized))
}
// `root`: the highest slot that was finalized
#[verifier::opaque]
pub open spec fn history_ok(s: InmemoryAccountStore, root: u64) -> bool {
    &&& forall|pk: Pubkey, t: u64| #![trigger s.tracked(pk), s.entry(pk).processed_accounts@.contains_key(t)]
        s.tracked(pk) && s.entry(pk).processed_accounts@.contains_key(t) && t >= root ==> write_kept(s, pk, t)
    &&& forall|pk: Pubkey, t: u64| #![trigger s.tracked(pk), s.slots_status@.contains_key(t)]
        s.tracked(pk) && s.slots_status@.contains_key(t) && s.slots_status@[t].commitment != Commitment::Finalized
        && s.slots_status@[t].accounts_updated@.contains(s.pubkey_to_account_index@[pk]) ==> s.entry(pk).processed_accounts@.contains_key(t)
}
proof fn lemma_history_new(s: InmemoryAccountStore)
    requires forall|pk: Pubkey| !#[trigger] s.tracked(pk),
    ensures history_ok(s, 0),
{
    reveal(history_ok);
}
proof fn lemma_history_update(o: InmemoryAccountStore, n: InmemoryAccountStore, d: AccountData, c0: Commitment, r: bool, root: u64)
    requires o.wf(), n.wf(), update_rel(o, n, d, c0, r), history_ok(o, root),
    ensures history_ok(n, root),
        // and the write itself has the commitment of its slot at once
        n.tracked(d.pubkey) && r ==> covered(n.entry(d.pubkey), d, eff(o.slots_status@, d.updated_slot, c0)),
{
    reveal(history_ok);
    let pk = d.pubkey;
    let t0 = d.updated_slot;
    let c = eff(o.slots_status@, t0, c0);
    let m = o.slots_status@;
    let k = n.slots_status@;
    assert forall|q: Pubkey, t: u64| #![trigger n.tracked(q), n.entry(q).processed_accounts@.contains_key(t)] n.tracked(q) && n.entry(q).processed_accounts@.contains_key(t) && t >= root implies write_kept(n, q, t) by {
        if q != pk {
            assert(o.tracked(q) && n.entry(q) == o.entry(q));
            assert(write_kept(o, q, t));
        } else if o.tracked(pk) {
            assert(o.pubkey_to_account_index@[pk] == n.pubkey_to_account_index@[pk]);
            if o.entry(pk).processed_accounts@.contains_key(t) { assert(write_kept(o, pk, t)); }
        } else { }
    }
    assert forall|q: Pubkey, t: u64| #![trigger n.tracked(q), k.contains_key(t)] n.tracked(q) && k.contains_key(t) && k[t].commitment != Commitment::Finalized
        && k[t].accounts_updated@.contains(n.pubkey_to_account_index@[q]) implies n.entry(q).processed_accounts@.contains_key(t) by {
        if q != pk {
            assert(o.tracked(q) && n.entry(q) == o.entry(q));
            assert(n.pubkey_to_account_index@[q] == o.pubkey_to_account_index@[q]);
        }
    }
}
proof fn lemma_has_top(m: Map<u64, SlotStatus>, si: SlotInfo, c: Commitment, i: usize, t: u64)
    requires hit(m, si, c, t, i),
    ensures exists|x: u64| #[trigger] is_top(m, si, c, x, i) && x >= t,
    decreases si.slot - t,
{
    lemma_reach_le(m, si, c, si.slot, t);
    if !is_top(m, si, c, t, i) {
        let j = choose|j: u64| #[trigger] hit(m, si, c, j, i) && j > t;
        lemma_reach_le(m, si, c, si.slot, j);
        lemma_has_top(m, si, c, i, j);
    }
}
// a slot reaching a commitment: everything written in it or in its ancestors has the commitment now
proof fn lemma_history_slot(o: InmemoryAccountStore, n: InmemoryAccountStore, si: SlotInfo, c: Commitment, v: Seq<AccountData>, root: u64)
    requires o.wf(), n.wf(), slot_rel(o, n, si, c, v), history_ok(o, root),
    ensures
        history_ok(n, if c == Commitment::Finalized && si.slot > root { si.slot } else { root }),
        forall|pk: Pubkey, t: u64| #![trigger n.tracked(pk), reached(o.slots_status@, si, c, t)] n.tracked(pk) && reached(o.slots_status@, si, c, t) && t >= root && o.entry(pk).processed_accounts@.contains_key(t)
            ==> covered(n.entry(pk), o.entry(pk).processed_accounts@[t], c),
{
    reveal(history_ok);
    let m = o.slots_status@;
    let k = n.slots_status@;
    let root2 = if c == Commitment::Finalized && si.slot > root { si.slot } else { root };
    assert(reached(m, si, c, si.slot));
    // levels only grow
    assert forall|pk: Pubkey| #[trigger] n.tracked(pk) implies o.tracked(pk) && n.pubkey_to_account_index@[pk] == o.pubkey_to_account_index@[pk]
        && (forall|d: AccountData, l: Commitment| covered(o.entry(pk), d, l) ==> #[trigger] covered(n.entry(pk), d, l))
        && (forall|t: u64| #[trigger] n.entry(pk).processed_accounts@.contains_key(t) ==> o.entry(pk).processed_accounts@.contains_key(t) && n.entry(pk).processed_accounts@[t] == o.entry(pk).processed_accounts@[t])
        && (forall|t: u64| #[trigger] o.entry(pk).processed_accounts@.contains_key(t) && (c != Commitment::Finalized || t >= si.slot) ==> n.entry(pk).processed_accounts@.contains_key(t)) by {
        let i = o.pubkey_to_account_index@[pk];
        if hit_some(m, si, c, i) {
            let t = choose|t: u64| #[trigger] hit(m, si, c, t, i);
            lemma_has_top(m, si, c, i, t);
            let x = choose|x: u64| #[trigger] is_top(m, si, c, x, i);
            lemma_reach_le(m, si, c, si.slot, x);
            assert(stepped(o.filtered_accounts, o.entry(pk), n.accounts_store@[i as int], n.tracked(pk), x, c));
        } else {
            assert(n.entry(pk) == o.entry(pk));
        }
    }
    assert forall|pk: Pubkey, t: u64| #![trigger n.tracked(pk), reached(o.slots_status@, si, c, t)] n.tracked(pk) && reached(m, si, c, t) && t >= root && o.entry(pk).processed_accounts@.contains_key(t)
            implies covered(n.entry(pk), o.entry(pk).processed_accounts@[t], c) by {
        let i = o.pubkey_to_account_index@[pk];
        assert(o.tracked(pk));
        assert(write_kept(o, pk, t));
        let d = o.entry(pk).processed_accounts@[t];
        if m[t].commitment.rank() < c.rank() {
            if m[t].accounts_updated@.contains(i) {
                assert(hit(m, si, c, t, i));
                lemma_has_top(m, si, c, i, t);
                let x = choose|x: u64| #[trigger] is_top(m, si, c, x, i) && x >= t;
                assert(hit(m, si, c, x, i));
                assert(o.entry(pk).processed_accounts@.contains_key(x));
                assert(stepped(o.filtered_accounts, o.entry(pk), n.accounts_store@[i as int], n.tracked(pk), x, c));
                assert(o.accounts_store@[i as int].wf()) by { assert(entry_ok(o.accounts_store@[i as int], i, o.pubkey_to_account_index@, o.accounts_by_owner@)); }
            } else { assert(covered(o.entry(pk), d, Commitment::Finalized)); }
        }
    }
    assert forall|pk: Pubkey, t: u64| #![trigger n.tracked(pk), n.entry(pk).processed_accounts@.contains_key(t)] n.tracked(pk) && n.entry(pk).processed_accounts@.contains_key(t) && t >= root2 implies write_kept(n, pk, t) by {
        assert(o.tracked(pk) && o.entry(pk).processed_accounts@.contains_key(t));
        assert(write_kept(o, pk, t));
        let d = n.entry(pk).processed_accounts@[t];
        if reached(m, si, c, t) { assert(marked(m, k, si, c, t)); } else { assert(same_slot(m, k, t)); }
        assert(covered(n.entry(pk), d, m[t].commitment));
        assert(covered(n.entry(pk), d, k[t].commitment));
        assert(k[t].accounts_updated@.contains(n.pubkey_to_account_index@[pk]) || covered(n.entry(pk), d, Commitment::Finalized));
    }
    assert forall|pk: Pubkey, t: u64| #![trigger n.tracked(pk), k.contains_key(t)] n.tracked(pk) && k.contains_key(t) && k[t].commitment != Commitment::Finalized
        && k[t].accounts_updated@.contains(n.pubkey_to_account_index@[pk]) implies n.entry(pk).processed_accounts@.contains_key(t) by {
        assert(o.tracked(pk));
        assert(reached(m, si, c, t) || true);
        assert(m.contains_key(t));
        assert(o.entry(pk).processed_accounts@.contains_key(t));
    }
}
