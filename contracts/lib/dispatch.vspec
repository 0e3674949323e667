//@ file common/src/slot_info.rs
//@ struct SlotInfo derive(Clone,Copy)
//@ file common/src/account_store_interface.rs
//@ enum AccountLoadingError
//@ file account_storage/src/storage_by_program_id.rs
//@ world update_account initilize_or_update_account get_account get_program_accounts process_slot_data create_snapshot load_from_snapshot is_in_default_storage

// ---- the storages behind the dispatch: each answers as it likes, from everything it was told and asked before ----
pub enum Told {
    Update(AccountData, Commitment),
    Init(AccountData),
    Get(Pubkey, Commitment),
    List(Pubkey, Option<Vec<AccountFilterType>>, Commitment),
    Slot(SlotInfo, Commitment),
    Snapshot(Pubkey),
    Load(Pubkey, Vec<u8>),
}
pub struct Call { pub to: int, pub what: Told }
// what every storage was told, in order
pub struct VxWorld { pub log: Ghost<Seq<Call>> }
impl VxWorld { pub open spec fn now(&self) -> Seq<Call> { self.log@ } }
pub struct DynAccountStorageInterface { pub key: Ghost<int> }
pub uninterp spec fn took(to: int, before: Seq<Call>, a: AccountData, c: Commitment) -> bool;
pub uninterp spec fn reading(to: int, before: Seq<Call>, k: Pubkey, c: Commitment) -> Result<Option<AccountData>, AccountLoadingError>;
pub uninterp spec fn listing(to: int, before: Seq<Call>, p: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment) -> Result<Vec<AccountData>, AccountLoadingError>;
pub uninterp spec fn reported(to: int, before: Seq<Call>, s: SlotInfo, c: Commitment) -> Seq<AccountData>;
pub uninterp spec fn snapshot_of(to: int, before: Seq<Call>, p: Pubkey) -> Result<Vec<u8>, AccountLoadingError>;
pub uninterp spec fn loading(to: int, before: Seq<Call>, p: Pubkey, b: Vec<u8>) -> Result<(), AccountLoadingError>;
pub open spec fn called(o: Seq<Call>, n: Seq<Call>, to: int, what: Told) -> bool { n == o.push(Call { to: to, what: what }) }
impl DynAccountStorageInterface {
    pub open spec fn id(&self) -> int { self.key@ }
    #[verifier::external_body]
    pub fn update_account(&self, a: AccountData, c: Commitment, w: &mut VxWorld) -> (r: bool)
        ensures called(old(w).now(), final(w).now(), self.id(), Told::Update(a, c)), r == took(self.id(), old(w).now(), a, c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn initilize_or_update_account(&self, a: AccountData, w: &mut VxWorld)
        ensures called(old(w).now(), final(w).now(), self.id(), Told::Init(a)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_account(&self, k: Pubkey, c: Commitment, w: &mut VxWorld) -> (r: Result<Option<AccountData>, AccountLoadingError>)
        ensures called(old(w).now(), final(w).now(), self.id(), Told::Get(k, c)), r == reading(self.id(), old(w).now(), k, c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_program_accounts(&self, p: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment, w: &mut VxWorld) -> (r: Result<Vec<AccountData>, AccountLoadingError>)
        ensures called(old(w).now(), final(w).now(), self.id(), Told::List(p, f, c)), r == listing(self.id(), old(w).now(), p, f, c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn process_slot_data(&self, s: SlotInfo, c: Commitment, w: &mut VxWorld) -> (r: Vec<AccountData>)
        ensures called(old(w).now(), final(w).now(), self.id(), Told::Slot(s, c)), r@ == reported(self.id(), old(w).now(), s, c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_snapshot(&self, p: Pubkey, w: &mut VxWorld) -> (r: Result<Vec<u8>, AccountLoadingError>)
        ensures called(old(w).now(), final(w).now(), self.id(), Told::Snapshot(p)), r == snapshot_of(self.id(), old(w).now(), p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load_from_snapshot(&self, p: Pubkey, b: Vec<u8>, w: &mut VxWorld) -> (r: Result<(), AccountLoadingError>)
        ensures called(old(w).now(), final(w).now(), self.id(), Told::Load(p, b)), r == loading(self.id(), old(w).now(), p, b),
    { unimplemented!() }
}
impl Clone for DynAccountStorageInterface {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_ptr_eq(a: &DynAccountStorageInterface, b: &DynAccountStorageInterface) -> (r: bool) ensures r == (a.id() == b.id()) { unimplemented!() }

//@ struct StorageByProgramId
pub type Storages = Map<Pubkey, DynAccountStorageInterface>;
// what was told since, and nobody was told anything before that is forgotten
pub open spec fn since(o: Seq<Call>, n: Seq<Call>) -> Seq<Call> { n.subrange(o.len() as int, n.len() as int) }
pub open spec fn extends(o: Seq<Call>, n: Seq<Call>) -> bool { o.len() <= n.len() && n.take(o.len() as int) =~= o }
// between o and n the storage was told
pub open spec fn told(o: Seq<Call>, n: Seq<Call>, to: int, what: Told) -> bool {
    exists|i: int| o.len() <= i < n.len() && #[trigger] n[i] == (Call { to: to, what: what })
}
// every answer to an update between o and n, or-ed
pub open spec fn any_took(o: Seq<Call>, n: Seq<Call>, a: AccountData, c: Commitment) -> bool {
    exists|i: int| o.len() <= i < n.len() && (#[trigger] n[i]).what == Told::Update(a, c) && took(n[i].to, n.take(i), a, c)
}
pub open spec fn only_updates(o: Seq<Call>, n: Seq<Call>, a: AccountData, c: Commitment) -> bool {
    forall|i: int| o.len() <= i < n.len() ==> (#[trigger] n[i]).what == Told::Update(a, c) || n[i].what is Get
}
pub open spec fn is_dispatched(m: Storages, to: int) -> bool { exists|k: Pubkey| #[trigger] m.contains_key(k) && m[k].id() == to }
impl StorageByProgramId {
    // where the accounts of a program belong
    pub open spec fn home(&self, p: Pubkey) -> int {
        if self.program_id_dispatch_map@.contains_key(p) { self.program_id_dispatch_map@[p].id() } else { self.default.id() }
    }
    pub open spec fn known(&self, to: int) -> bool { to == self.default.id() || is_dispatched(self.program_id_dispatch_map@, to) }
}
proof fn lemma_last_dropped() ensures forall|s: Seq<Call>, x: Call| (#[trigger] s.push(x)).drop_last() == s {
    assert forall|s: Seq<Call>, x: Call| (#[trigger] s.push(x)).drop_last() == s by { assert(s.push(x).drop_last() =~= s); }
}
proof fn lemma_update_told(o: Seq<Call>, m: Seq<Call>, n: Seq<Call>, to: int, a: AccountData, c: Commitment)
    requires extends(o, m), only_updates(o, m, a, c), called(m, n, to, Told::Update(a, c)),
    ensures
        extends(o, n), only_updates(o, n, a, c), told(o, n, to, Told::Update(a, c)),
        forall|t: int| told(o, m, t, Told::Update(a, c)) ==> #[trigger] told(o, n, t, Told::Update(a, c)),
        any_took(o, n, a, c) == (any_took(o, m, a, c) || took(to, m, a, c)),
{
    let k = m.len() as int;
    assert(n.take(k) =~= m);
    assert(n[k] == (Call { to: to, what: Told::Update(a, c) }));
    assert forall|t: int| told(o, m, t, Told::Update(a, c)) implies #[trigger] told(o, n, t, Told::Update(a, c)) by {
        let i = choose|i: int| o.len() <= i < m.len() && #[trigger] m[i] == (Call { to: t, what: Told::Update(a, c) });
        assert(n[i] == m[i]);
    }
    if any_took(o, m, a, c) {
        let i = choose|i: int| o.len() <= i < m.len() && (#[trigger] m[i]).what == Told::Update(a, c) && took(m[i].to, m.take(i), a, c);
        assert(n[i] == m[i] && n.take(i) =~= m.take(i));
    }
    if any_took(o, n, a, c) {
        let i = choose|i: int| o.len() <= i < n.len() && (#[trigger] n[i]).what == Told::Update(a, c) && took(n[i].to, n.take(i), a, c);
        if i < k { assert(n[i] == m[i] && n.take(i) =~= m.take(i)); }
    }
}
// reading a storage in between tells nobody anything
proof fn lemma_only_read(o: Seq<Call>, m: Seq<Call>, n: Seq<Call>, a: AccountData, c: Commitment)
    requires extends(o, m), only_updates(o, m, a, c), only_reads(m, n),
    ensures
        extends(o, n), only_updates(o, n, a, c),
        forall|t: int| told(o, m, t, Told::Update(a, c)) ==> #[trigger] told(o, n, t, Told::Update(a, c)),
        any_took(o, n, a, c) == any_took(o, m, a, c),
{
    assert forall|i: int| 0 <= i < m.len() implies n[i] == m[i] by { assert(n.take(m.len() as int)[i] == m[i]); }
    assert(n.take(o.len() as int) =~= m.take(o.len() as int));
    assert forall|t: int| told(o, m, t, Told::Update(a, c)) implies #[trigger] told(o, n, t, Told::Update(a, c)) by {
        let i = choose|i: int| o.len() <= i < m.len() && #[trigger] m[i] == (Call { to: t, what: Told::Update(a, c) });
        assert(n[i] == m[i]);
    }
    if any_took(o, m, a, c) {
        let i = choose|i: int| o.len() <= i < m.len() && (#[trigger] m[i]).what == Told::Update(a, c) && took(m[i].to, m.take(i), a, c);
        assert(n[i] == m[i] && n.take(i) =~= m.take(i));
    }
    if any_took(o, n, a, c) {
        let i = choose|i: int| o.len() <= i < n.len() && (#[trigger] n[i]).what == Told::Update(a, c) && took(n[i].to, n.take(i), a, c);
        if i < m.len() { assert(n[i] == m[i] && n.take(i) =~= m.take(i)); }
    }
}
// between o and n, storages were read and nothing else
pub open spec fn only_reads(o: Seq<Call>, n: Seq<Call>) -> bool {
    extends(o, n) && forall|i: int| o.len() <= i < n.len() ==> (#[trigger] n[i]).what is Get
}
pub open spec fn shown_by(to: int, log: Seq<Call>, k: Pubkey, c: Commitment) -> bool {
    match reading(to, log, k, c) { Ok(Some(_)) => true, _ => false }
}
// between o and n, the storage was asked for the account at the commitment and did not have it
pub open spec fn denied(o: Seq<Call>, n: Seq<Call>, to: int, k: Pubkey, c: Commitment) -> bool {
    exists|i: int| o.len() <= i < n.len() && #[trigger] n[i] == (Call { to: to, what: Told::Get(k, c) }) && !shown_by(to, n.take(i), k, c)
}
proof fn lemma_asked(o: Seq<Call>, m: Seq<Call>, n: Seq<Call>, to: int, k: Pubkey, c: Commitment)
    requires extends(o, m), called(m, n, to, Told::Get(k, c)),
    ensures extends(o, n), only_reads(o, m) ==> only_reads(o, n),
        !shown_by(to, m, k, c) ==> denied(o, n, to, k, c),
        forall|t: int, d: Commitment| denied(o, m, t, k, d) ==> #[trigger] denied(o, n, t, k, d),
{
    let e = m.len() as int;
    assert(n.take(e) =~= m);
    assert(n[e] == (Call { to: to, what: Told::Get(k, c) }));
    assert forall|t: int, d: Commitment| denied(o, m, t, k, d) implies #[trigger] denied(o, n, t, k, d) by {
        let i = choose|i: int| o.len() <= i < m.len() && #[trigger] m[i] == (Call { to: t, what: Told::Get(k, d) }) && !shown_by(t, m.take(i), k, d);
        assert(n[i] == m[i] && n.take(i) =~= m.take(i));
    }
}
proof fn lemma_denied_before(o: Seq<Call>, m: Seq<Call>, n: Seq<Call>, to: int, k: Pubkey, c: Commitment)
    requires extends(o, m), extends(m, n), denied(m, n, to, k, c),
    ensures denied(o, n, to, k, c),
{
    let i = choose|i: int| m.len() <= i < n.len() && #[trigger] n[i] == (Call { to: to, what: Told::Get(k, c) }) && !shown_by(to, n.take(i), k, c);
    assert(o.len() <= i < n.len() && n[i] == (Call { to: to, what: Told::Get(k, c) }));
}
proof fn lemma_denied_after(o: Seq<Call>, m: Seq<Call>, n: Seq<Call>, to: int, k: Pubkey, c: Commitment)
    requires denied(o, m, to, k, c), extends(m, n),
    ensures denied(o, n, to, k, c),
{
    let i = choose|i: int| o.len() <= i < m.len() && #[trigger] m[i] == (Call { to: to, what: Told::Get(k, c) }) && !shown_by(to, m.take(i), k, c);
    assert(n.take(m.len() as int)[i] == m[i]);
    assert(n[i] == m[i] && n.take(i) =~= m.take(i));
}
// between o and n the storage was asked for the account and answered r
pub open spec fn answered(o: Seq<Call>, n: Seq<Call>, to: int, k: Pubkey, c: Commitment, r: Result<Option<AccountData>, AccountLoadingError>) -> bool {
    exists|i: int| o.len() <= i < n.len() && #[trigger] n[i] == (Call { to: to, what: Told::Get(k, c) }) && r == reading(to, n.take(i), k, c)
}
proof fn lemma_answered(o: Seq<Call>, m: Seq<Call>, n: Seq<Call>, to: int, k: Pubkey, c: Commitment)
    requires extends(o, m), called(m, n, to, Told::Get(k, c)),
    ensures answered(o, n, to, k, c, reading(to, m, k, c)),
{
    let e = m.len() as int;
    assert(n.take(e) =~= m);
    assert(n[e] == (Call { to: to, what: Told::Get(k, c) }));
}
pub open spec fn among(v: Seq<DynAccountStorageInterface>, to: int) -> bool { exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).id() == to }
// the storages in v, and no others, were told of the slot, each once
pub open spec fn notified_once(o: Seq<Call>, n: Seq<Call>, v: Seq<DynAccountStorageInterface>, s: SlotInfo, c: Commitment) -> bool {
    &&& extends(o, n)
    &&& forall|i: int| o.len() <= i < n.len() ==> among(v, (#[trigger] n[i]).to) && n[i].what == Told::Slot(s, c)
    &&& forall|j: int| 0 <= j < v.len() ==> told(o, n, (#[trigger] v[j]).id(), Told::Slot(s, c))
    &&& nobody_twice(o, n)
}
proof fn lemma_notified(o: Seq<Call>, m: Seq<Call>, n: Seq<Call>, v: Seq<DynAccountStorageInterface>, w: Seq<DynAccountStorageInterface>, s: SlotInfo, c: Commitment)
    requires w.len() == v.len() + 1, w.drop_last() =~= v, notified_once(o, m, v, s, c), called(m, n, w.last().id(), Told::Slot(s, c)), !among(v, w.last().id()),
    ensures
        notified_once(o, n, w, s, c),
        all_reports(o, n, s, c) == all_reports(o, m, s, c).add(reported(w.last().id(), m, s, c).to_multiset()),
{
    let d = w.last();
    let e = m.len() as int;
    assert(n.take(e) =~= m && n.drop_last() =~= m);
    assert(n[e] == (Call { to: d.id(), what: Told::Slot(s, c) }));
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] w[j] == v[j] by { assert(w.drop_last()[j] == v[j]); }
    assert(w[v.len() as int] == d);
    assert forall|i: int| o.len() <= i < n.len() implies among(w, (#[trigger] n[i]).to) && n[i].what == Told::Slot(s, c) by {
        if i < e {
            assert(n[i] == m[i]);
            let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).id() == m[i].to;
            assert(w[j] == v[j]);
        }
    }
    assert forall|j: int| 0 <= j < w.len() implies told(o, n, (#[trigger] w[j]).id(), Told::Slot(s, c)) by {
        if j < v.len() {
            assert(w[j] == v[j]);
            let i = choose|i: int| o.len() <= i < m.len() && #[trigger] m[i] == (Call { to: v[j].id(), what: Told::Slot(s, c) });
            assert(n[i] == m[i]);
        }
    }
    assert forall|i: int, j: int| o.len() <= i < j < n.len() implies (#[trigger] n[i]).to != (#[trigger] n[j]).to by {
        assert(n[i] == m[i]);
        assert(among(v, m[i].to));
        if j < e { assert(n[j] == m[j]); }
    }
}
pub open spec fn nobody_twice(o: Seq<Call>, n: Seq<Call>) -> bool {
    forall|i: int, j: int| o.len() <= i < j < n.len() ==> (#[trigger] n[i]).to != (#[trigger] n[j]).to
}
pub open spec fn all_reports(o: Seq<Call>, n: Seq<Call>, s: SlotInfo, c: Commitment) -> Multiset<AccountData> decreases n.len() {
    if n.len() <= o.len() { Multiset::empty() } else { all_reports(o, n.drop_last(), s, c).add(reported(n.last().to, n.drop_last(), s, c).to_multiset()) }
}
impl StorageByProgramId {
//@ fn StorageByProgramId::new ret=r
    ensures r.program_id_dispatch_map@ == program_id_dispatch_map@, r.default == default,
//@ end
//@ fn StorageByProgramId::is_in_default_storage ret=r
    ensures
        only_reads(old(__w).now(), final(__w).now()),
        !r ==> forall|c: Commitment| denied(old(__w).now(), final(__w).now(), self.default.id(), account_pk, c),
//@ start
    let ghost o = __w.now();
    let ghost mut pre = __w.now();
//@ loop 0
    invariant_except_break
        !__acc0_,
        forall|j: int| 0 <= j < __it0_.pos() ==> denied(o, __w.now(), self.default.id(), account_pk, *(#[trigger] __it0_.items()[j])),
    invariant
        only_reads(o, __w.now()),
        __it0_.items().len() == 3, *__it0_.items()[0] == Commitment::Processed, *__it0_.items()[1] == Commitment::Confirmed, *__it0_.items()[2] == Commitment::Finalized,
    ensures
        !__acc0_ ==> forall|j: int| 0 <= j < 3 ==> denied(o, __w.now(), self.default.id(), account_pk, *(#[trigger] __it0_.items()[j])),
//@ loopstart 0
    proof { pre = __w.now(); }
//@ aftercall get_account 0
    proof { lemma_asked(o, pre, __w.now(), self.default.id(), account_pk, *commitment); }
//@ end
//@ fn AccountStorageInterface for StorageByProgramId::update_account ret=r
    ensures
        extends(old(__w).now(), final(__w).now()), only_updates(old(__w).now(), final(__w).now(), account_data, commitment),
        // every dispatched storage is told: that of its program, and any that holds it from before
        forall|k: Pubkey| #[trigger] self.program_id_dispatch_map@.contains_key(k) ==> told(old(__w).now(), final(__w).now(), self.program_id_dispatch_map@[k].id(), Told::Update(account_data, commitment)),
        // the default storage is told of an account of a program that is not dispatched, of one that nobody takes, and of one it holds
        told(old(__w).now(), final(__w).now(), self.home(account_data.account.owner), Told::Update(account_data, commitment)),
        r || told(old(__w).now(), final(__w).now(), self.default.id(), Told::Update(account_data, commitment)),
        told(old(__w).now(), final(__w).now(), self.default.id(), Told::Update(account_data, commitment))
            || forall|c: Commitment| denied(old(__w).now(), final(__w).now(), self.default.id(), account_data.pubkey, c),
        r == any_took(old(__w).now(), final(__w).now(), account_data, commitment),
//@ start
    let ghost o = __w.now();
    let ghost mut pre = __w.now();
    let ghost up = Told::Update(account_data, commitment);
    let ghost mut asked = false;
//@ loop 0
    invariant
        extends(o, __w.now()), only_updates(o, __w.now(), account_data, commitment), up == Told::Update(account_data, commitment),
        updated == any_took(o, __w.now(), account_data, commitment),
        enumerates_refs(__it0_.items(), self.program_id_dispatch_map@),
        forall|j: int| 0 <= j < __it0_.pos() ==> told(o, __w.now(), (#[trigger] __it0_.items()[j]).1.id(), up),
    ensures
        __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof { pre = __w.now(); }
//@ aftercall update_account 0
    proof { lemma_update_told(o, pre, __w.now(), interface.id(), account_data, commitment); }
//@ loopafter 0
    proof {
        let ghost m = self.program_id_dispatch_map@;
        assert forall|k: Pubkey| #[trigger] m.contains_key(k) implies told(o, __w.now(), m[k].id(), up) by {
            let i = choose|i: int| 0 <= i < __it0_.items().len() && *(#[trigger] __it0_.items()[i]).0 == k;
            assert(told(o, __w.now(), __it0_.items()[i].1.id(), up));
        }
        pre = __w.now();
    }
//@ aftercall update_account 1
    proof {
        let ghost m = __w.now().drop_last();
        lemma_last_dropped();
        assert(__w.now() =~= m.push(__w.now().last()));
        assert(only_reads(pre, m));
        lemma_only_read(o, pre, m, account_data, commitment);
        lemma_update_told(o, m, __w.now(), self.default.id(), account_data, commitment);
        asked = true;
    }
//@ exit
    proof {
        if !asked {
            lemma_only_read(o, pre, __w.now(), account_data, commitment);
            assert forall|c: Commitment| denied(o, __w.now(), self.default.id(), account_data.pubkey, c) by {
                lemma_denied_before(o, pre, __w.now(), self.default.id(), account_data.pubkey, c);
            }
        }
    }
//@ end
//@ fn AccountStorageInterface for StorageByProgramId::initilize_or_update_account
    ensures called(old(__w).now(), final(__w).now(), self.home(account_data.account.owner), Told::Init(account_data)),
//@ end
//@ fn AccountStorageInterface for StorageByProgramId::get_account ret=r
    ensures
        only_reads(old(__w).now(), final(__w).now()),
        // a storage had the account, or all the dispatched ones did not and the answer is that of the default storage
        exists|to: int| self.known(to) && #[trigger] answered(old(__w).now(), final(__w).now(), to, account_pk, commitment, r),
        !(r matches Ok(Some(_))) ==> {
            &&& answered(old(__w).now(), final(__w).now(), self.default.id(), account_pk, commitment, r)
            &&& forall|k: Pubkey| #[trigger] self.program_id_dispatch_map@.contains_key(k) ==> denied(old(__w).now(), final(__w).now(), self.program_id_dispatch_map@[k].id(), account_pk, commitment)
        },
//@ start
    let ghost o = __w.now();
    let ghost mut pre = __w.now();
    let ghost d = self.default.id();
    proof { lemma_last_dropped(); }
//@ loop 0
    invariant
        only_reads(o, __w.now()), d == self.default.id(), o == old(__w).now(),
        enumerates_refs(__it0_.items(), self.program_id_dispatch_map@),
        forall|j: int| 0 <= j < __it0_.pos() ==> denied(o, __w.now(), (#[trigger] __it0_.items()[j]).1.id(), account_pk, commitment),
    ensures
        __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof { pre = __w.now(); }
//@ aftercall get_account 0
    proof {
        lemma_asked(o, pre, __w.now(), interface.id(), account_pk, commitment);
        lemma_answered(o, pre, __w.now(), interface.id(), account_pk, commitment);
        let i = __it0_.pos() - 1;
        assert(self.program_id_dispatch_map@.contains_key(*__it0_.items()[i as int].0));
        assert(self.known(interface.id()));
    }
//@ loopafter 0
    proof {
        let ghost m = self.program_id_dispatch_map@;
        assert forall|k: Pubkey| #[trigger] m.contains_key(k) implies denied(o, __w.now(), m[k].id(), account_pk, commitment) by {
            let i = choose|i: int| 0 <= i < __it0_.items().len() && *(#[trigger] __it0_.items()[i]).0 == k;
            assert(denied(o, __w.now(), __it0_.items()[i].1.id(), account_pk, commitment));
        }
    }
//@ exit
    proof {
        let ghost m = __w.now().drop_last();
        let to = __w.now().last().to;
        lemma_last_dropped();
        assert(only_reads(o, m));
        lemma_asked(o, m, __w.now(), to, account_pk, commitment);
        lemma_answered(o, m, __w.now(), to, account_pk, commitment);
        assert(self.known(to));
    }
//@ end
//@ fn AccountStorageInterface for StorageByProgramId::get_program_accounts ret=r
    ensures
        called(old(__w).now(), final(__w).now(), self.home(program_pubkey), Told::List(program_pubkey, account_filter, commitment)),
        r == listing(self.home(program_pubkey), old(__w).now(), program_pubkey, account_filter, commitment),
//@ end
//@ fn AccountStorageInterface for StorageByProgramId::process_slot_data ret=r
    ensures
        // every storage is told of the slot exactly once, and of nothing else
        extends(old(__w).now(), final(__w).now()),
        forall|i: int| old(__w).now().len() <= i < final(__w).now().len() ==> self.known((#[trigger] final(__w).now()[i]).to) && final(__w).now()[i].what == Told::Slot(slot_info, commitment),
        forall|to: int| #[trigger] self.known(to) ==> told(old(__w).now(), final(__w).now(), to, Told::Slot(slot_info, commitment)),
        nobody_twice(old(__w).now(), final(__w).now()),
        // and every report of theirs is reported, once
        r@.to_multiset() =~= all_reports(old(__w).now(), final(__w).now(), slot_info, commitment),
//@ start
    let ghost o = __w.now();
    let ghost mut pre = __w.now();
    let ghost mut had = Seq::<DynAccountStorageInterface>::empty();
    let ghost mut got = Seq::<AccountData>::empty();
    let ghost mut all = Seq::<DynAccountStorageInterface>::empty();
    proof { Seq::<AccountData>::empty().to_multiset_ensures(); }
//@ loop 0
    invariant
        notified_once(o, __w.now(), notified@, slot_info, commitment),
        return_vec@.to_multiset() =~= all_reports(o, __w.now(), slot_info, commitment),
        enumerates_refs(__it0_.items(), self.program_id_dispatch_map@),
        forall|j: int| 0 <= j < __it0_.pos() ==> among(notified@, (#[trigger] __it0_.items()[j]).1.id()),
        forall|j: int| 0 <= j < notified@.len() ==> is_dispatched(self.program_id_dispatch_map@, (#[trigger] notified@[j]).id()),
    ensures
        __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof { pre = __w.now(); had = notified@; got = return_vec@; }
//@ loop 1
    invariant_except_break
        !__acc1_, forall|j: int| 0 <= j < __it1_.pos() ==> (#[trigger] notified@[j]).id() != interface.id(),
    invariant
        __it1_.items().len() == notified@.len(), forall|j: int| 0 <= j < notified@.len() ==> *(#[trigger] __it1_.items()[j]) == notified@[j],
    ensures
        __acc1_ == among(notified@, interface.id()),
//@ loopend 0
    proof {
        lemma_last_dropped();
        assert(notified@.drop_last() =~= had);
        lemma_notified(o, pre, __w.now(), had, notified@, slot_info, commitment);
        vstd::seq_lib::lemma_multiset_commutative(got, reported(notified@.last().id(), pre, slot_info, commitment));
        assert forall|j: int| 0 <= j < __it0_.pos() implies among(notified@, (#[trigger] __it0_.items()[j]).1.id()) by {
            if j < __it0_.pos() - 1 {
                let i = choose|i: int| 0 <= i < had.len() && (#[trigger] had[i]).id() == __it0_.items()[j].1.id();
                assert(notified@[i] == had[i]);
            } else { assert(notified@.last().id() == __it0_.items()[j].1.id()); }
        }
        assert forall|j: int| 0 <= j < notified@.len() implies is_dispatched(self.program_id_dispatch_map@, (#[trigger] notified@[j]).id()) by {
            if j < had.len() { assert(notified@[j] == had[j]); }
            else {
                let i = __it0_.pos() - 1;
                assert(self.program_id_dispatch_map@.contains_key(*__it0_.items()[i as int].0));
            }
        }
    }
//@ loopafter 0
    proof { pre = __w.now(); had = notified@; got = return_vec@; all = notified@; }
//@ loop 2
    invariant_except_break
        !__acc2_, forall|j: int| 0 <= j < __it2_.pos() ==> (#[trigger] notified@[j]).id() != self.default.id(),
    invariant
        __it2_.items().len() == notified@.len(), forall|j: int| 0 <= j < notified@.len() ==> *(#[trigger] __it2_.items()[j]) == notified@[j],
    ensures
        __acc2_ == among(notified@, self.default.id()),
//@ aftercall process_slot_data 1
    proof {
        lemma_last_dropped();
        all = had.push(self.default);
        assert(all.drop_last() =~= had);
        lemma_notified(o, pre, __w.now(), had, all, slot_info, commitment);
        vstd::seq_lib::lemma_multiset_commutative(got, reported(self.default.id(), pre, slot_info, commitment));
    }
//@ exit
    proof {
        assert(notified_once(o, __w.now(), all, slot_info, commitment));
        let m = self.program_id_dispatch_map@;
        assert forall|to: int| #[trigger] self.known(to) implies among(all, to) by {
            if is_dispatched(m, to) {
                let k = choose|k: Pubkey| #[trigger] m.contains_key(k) && m[k].id() == to;
                assert(among(had, to));
                let j = choose|j: int| 0 <= j < had.len() && (#[trigger] had[j]).id() == to;
                assert(all[j] == had[j]);
            } else if !among(had, to) { assert(all.last().id() == to); }
        }
        assert forall|to: int| among(all, to) implies #[trigger] self.known(to) by {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).id() == to;
            if j < had.len() { assert(all[j] == had[j]); }
        }
    }
//@ end
//@ fn AccountStorageInterface for StorageByProgramId::create_snapshot ret=r
    ensures
        called(old(__w).now(), final(__w).now(), self.home(program_id), Told::Snapshot(program_id)),
        r == snapshot_of(self.home(program_id), old(__w).now(), program_id),
//@ end
//@ fn AccountStorageInterface for StorageByProgramId::load_from_snapshot ret=r
    ensures
        called(old(__w).now(), final(__w).now(), self.home(program_id), Told::Load(program_id, snapshot)),
        r == loading(self.home(program_id), old(__w).now(), program_id, snapshot),
//@ end
}
