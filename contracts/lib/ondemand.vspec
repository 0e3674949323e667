//@ file common/src/slot_info.rs
//@ struct SlotInfo derive(Clone,Copy)
//@ file common/src/account_store_interface.rs
//@ enum AccountLoadingError
//@ file accounts_on_demand/src/accounts_on_demand.rs
//@ world update_account initilize_or_update_account get_account get_program_accounts process_slot_data create_snapshot load_from_snapshot contains_account contains_filter add_account_filters subscribe_accounts subscribe_program_accounts save_snapshot wait_timeout_while notify_all

// ---- the world around the on-demand storage: everything it asks and is answered, in order ----
pub type Conditions = Option<Vec<AccountFilterType>>;
pub enum Asked {
    Read(Pubkey, Commitment, Result<Option<AccountData>, AccountLoadingError>),
    List(Pubkey, Conditions, Commitment, Result<Vec<AccountData>, AccountLoadingError>),
    Watches(Pubkey, bool),
    Covers(AccountFilter, bool),
    // waited for a load by another request; whether it had ended
    Waited(bool),
    // woke up the requests which wait
    Notified,
    Update(AccountData, Commitment, bool),
    Init(AccountData),
    Slot(SlotInfo, Commitment, Vec<AccountData>),
    Snapshot(Pubkey, Result<Vec<u8>, AccountLoadingError>),
    LoadSnapshot(Pubkey, Vec<u8>, Result<(), AccountLoadingError>),
}
// what changes which accounts are watched and loaded
pub enum Act {
    Subscribe(Set<Pubkey>, bool),
    SubscribeProgram(Pubkey, Conditions, bool),
    Watch(Seq<AccountFilter>),
    Load(int, Seq<AccountFilter>, bool),
}
pub struct VxWorld { pub log: Ghost<Seq<Asked>>, pub did: Ghost<Seq<Act>> }
impl VxWorld {
    pub open spec fn now(&self) -> Seq<Asked> { self.log@ }
    pub open spec fn acts(&self) -> Seq<Act> { self.did@ }
}
pub open spec fn asked(o: VxWorld, n: VxWorld, q: Asked) -> bool { n.now() == o.now().push(q) && n.acts() == o.acts() }
pub open spec fn acted(o: VxWorld, n: VxWorld, a: Act) -> bool { n.acts() == o.acts().push(a) && n.now() == o.now() }
pub struct DynAccountStorageInterface { pub key: Ghost<int> }
impl DynAccountStorageInterface {
    pub open spec fn id(&self) -> int { self.key@ }
    #[verifier::external_body]
    pub fn update_account(&self, a: AccountData, c: Commitment, w: &mut VxWorld) -> (r: bool)
        ensures asked(*old(w), *final(w), Asked::Update(a, c, r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn initilize_or_update_account(&self, a: AccountData, w: &mut VxWorld)
        ensures asked(*old(w), *final(w), Asked::Init(a)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_account(&self, k: Pubkey, c: Commitment, w: &mut VxWorld) -> (r: Result<Option<AccountData>, AccountLoadingError>)
        ensures asked(*old(w), *final(w), Asked::Read(k, c, r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_program_accounts(&self, p: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment, w: &mut VxWorld) -> (r: Result<Vec<AccountData>, AccountLoadingError>)
        ensures asked(*old(w), *final(w), Asked::List(p, f, c, r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn process_slot_data(&self, s: SlotInfo, c: Commitment, w: &mut VxWorld) -> (r: Vec<AccountData>)
        ensures asked(*old(w), *final(w), Asked::Slot(s, c, r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_snapshot(&self, p: Pubkey, w: &mut VxWorld) -> (r: Result<Vec<u8>, AccountLoadingError>)
        ensures asked(*old(w), *final(w), Asked::Snapshot(p, r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load_from_snapshot(&self, p: Pubkey, b: Vec<u8>, w: &mut VxWorld) -> (r: Result<(), AccountLoadingError>)
        ensures asked(*old(w), *final(w), Asked::LoadSnapshot(p, b, r)),
    { unimplemented!() }
}
impl Clone for DynAccountStorageInterface {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
}
// the filters, which other requests extend as well
pub struct MutableFilterStore { pub key: Ghost<int> }
impl MutableFilterStore {
    #[verifier::external_body]
    pub fn contains_account(&self, k: Pubkey, w: &mut VxWorld) -> (r: bool) ensures asked(*old(w), *final(w), Asked::Watches(k, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_filter(&self, f: &AccountFilter, w: &mut VxWorld) -> (r: bool) ensures asked(*old(w), *final(w), Asked::Covers(*f, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_account_filters(&self, f: &Vec<AccountFilter>, w: &mut VxWorld) ensures acted(*old(w), *final(w), Act::Watch(f@)) { unimplemented!() }
}
#[derive(Debug)]
pub struct VxErr;
pub struct DynAccountsSourceInterface { pub key: Ghost<int> }
impl DynAccountsSourceInterface {
    #[verifier::external_body]
    pub fn subscribe_accounts(&self, s: HashSet<Pubkey>, w: &mut VxWorld) -> (r: Result<(), VxErr>) ensures acted(*old(w), *final(w), Act::Subscribe(s@, r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    pub fn subscribe_program_accounts(&self, p: Pubkey, f: Option<Vec<AccountFilterType>>, w: &mut VxWorld) -> (r: Result<(), VxErr>) ensures acted(*old(w), *final(w), Act::SubscribeProgram(p, f, r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_snapshot(&self, s: DynAccountStorageInterface, f: Vec<AccountFilter>, w: &mut VxWorld) -> (r: Result<(), VxErr>) ensures acted(*old(w), *final(w), Act::Load(s.id(), f@, r is Ok)) { unimplemented!() }
}
// condition variables: waiting lets other threads change the guarded value
pub struct Condvar { pub key: Ghost<int> }
pub struct Duration { pub secs: u64 }
impl Duration {
    pub fn from_secs(s: u64) -> (r: Self) ensures r.secs == s { Duration { secs: s } }
    pub fn from_millis(s: u64) -> (r: Self) ensures r.secs == s / 1000 { Duration { secs: s / 1000 } }
}
pub struct WaitTimeoutResult { pub late: bool }
impl WaitTimeoutResult { pub fn timed_out(&self) -> (r: bool) ensures r == self.late { self.late } }
pub struct Poisoned;
pub type Waited = Result<((), WaitTimeoutResult), Poisoned>;
impl Condvar {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_all(&self, w: &mut VxWorld) ensures asked(*old(w), *final(w), Asked::Notified) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_wait<M>(&self, m: &mut M, d: Duration) -> (r: Waited)
        requires d.secs >= 10,
    { unimplemented!() }
}
impl Clone for Condvar {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
// wait_timeout_while gives up only with the condition still true, and otherwise returns once it is false
#[verifier::external_body]
pub fn vx_waited_while(r: &Waited, cond: bool, w: &mut VxWorld)
    ensures asked(*old(w), *final(w), Asked::Waited(r is Ok && !cond)), *r matches Ok((_, t)) ==> t.late == cond,
{ unimplemented!() }

impl<T, V> BTreeMap<(Pubkey, T), V> {
    #[verifier::external_body]
    pub fn contains_key(&self, k: &(Pubkey, T)) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &(Pubkey, T)) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (Pubkey, T), v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &(Pubkey, T)) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some == old(self)@.contains_key(*k) { unimplemented!() }
}
impl Clone for AccountFilterType {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for AccountFilter {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// a clone of a list of conditions is the same list
pub broadcast axiom fn axiom_conditions_cloned(a: Vec<AccountFilterType>, b: Vec<AccountFilterType>)
    requires #[trigger] call_ensures(<Vec<AccountFilterType> as Clone>::clone, (&a,), b), ensures a == b;
pub uninterp spec fn no_conditions() -> Vec<AccountFilterType>;
#[verifier::external_body]
pub fn vx_default() -> (r: Vec<AccountFilterType>) ensures r == no_conditions(), r@.len() == 0 { unimplemented!() }
//@ type GpaAccountKey
//@ struct AccountsOnDemand
pub open spec fn extends(o: Seq<Asked>, n: Seq<Asked>) -> bool { o.len() <= n.len() && n.take(o.len() as int) =~= o }
// between o and n
pub open spec fn has(o: Seq<Asked>, n: Seq<Asked>, q: Asked) -> bool { exists|i: int| o.len() <= i < n.len() && #[trigger] n[i] == q }
pub broadcast proof fn lemma_has_pushed(o: Seq<Asked>, m: Seq<Asked>, x: Asked, q: Asked)
    ensures #[trigger] has(o, m.push(x), q) == (has(o, m, q) || (x == q && o.len() <= m.len())),
{
    let n = m.push(x);
    if has(o, m, q) {
        let i = choose|i: int| o.len() <= i < m.len() && #[trigger] m[i] == q;
        assert(n[i] == q);
    }
    if x == q && o.len() <= m.len() { assert(n[m.len() as int] == q); }
    if has(o, n, q) {
        let i = choose|i: int| o.len() <= i < n.len() && #[trigger] n[i] == q;
        if i < m.len() { assert(m[i] == q); } else { assert(x == q); }
    }
}
pub open spec fn waits_end_it(o: Seq<Asked>, n: Seq<Asked>, late: bool) -> bool {
    forall|i: int| o.len() <= i < n.len() && #[trigger] n[i] == Asked::Waited(false) ==> i == n.len() - 1 && late
}
// the filter that admits the account alone, that which asks for the program accounts
pub open spec fn only(f: AccountFilter, k: Pubkey) -> bool { f.accounts@ =~= seq![k] && f.program_id is None && f.filters is None }
pub open spec fn program(f: AccountFilter, p: Pubkey, c: Conditions) -> bool { f.accounts@.len() == 0 && f.program_id == Some(p) && f.filters == c }
pub open spec fn list_or_none(c: Conditions) -> Vec<AccountFilterType> { match c { Some(v) => v, None => no_conditions() } }
pub open spec fn account_acts(d: Seq<Act>, n: Seq<Act>, st: int, k: Pubkey, f: Seq<AccountFilter>, ok: bool) -> bool {
    f.len() == 1 && only(f[0], k) && n =~= d.push(Act::Subscribe(Set::<Pubkey>::empty().insert(k), true)).push(Act::Watch(f)).push(Act::Load(st, f, ok))
}
pub open spec fn program_acts(d: Seq<Act>, n: Seq<Act>, st: int, p: Pubkey, x: Conditions, f: Seq<AccountFilter>, g: Seq<AccountFilter>, ok: bool) -> bool {
    f.len() == 1 && program(f[0], p, x) && g.len() == 1 && program(g[0], p, x)
        && n =~= d.push(Act::SubscribeProgram(p, x, true)).push(Act::Watch(f)).push(Act::Load(st, g, ok))
}
// asked whether the program accounts are watched
pub open spec fn covering(q: Asked, p: Pubkey, x: Conditions, yes: bool) -> bool { q matches Asked::Covers(f, y) && program(f, p, x) && y == yes }
pub open spec fn covers(o: Seq<Asked>, n: Seq<Asked>, p: Pubkey, x: Conditions, yes: bool) -> bool { exists|i: int| o.len() <= i < n.len() && covering(#[trigger] n[i], p, x, yes) }
pub broadcast proof fn lemma_covers_pushed(o: Seq<Asked>, m: Seq<Asked>, q: Asked, p: Pubkey, x: Conditions, yes: bool)
    ensures #[trigger] covers(o, m.push(q), p, x, yes) == (covers(o, m, p, x, yes) || (covering(q, p, x, yes) && o.len() <= m.len())),
{
    let n = m.push(q);
    if covers(o, m, p, x, yes) {
        let i = choose|i: int| o.len() <= i < m.len() && covering(#[trigger] m[i], p, x, yes);
        assert(covering(n[i], p, x, yes));
    }
    if covering(q, p, x, yes) && o.len() <= m.len() { assert(covering(n[m.len() as int], p, x, yes)); }
    if covers(o, n, p, x, yes) {
        let i = choose|i: int| o.len() <= i < n.len() && covering(#[trigger] n[i], p, x, yes);
        if i < m.len() { assert(covering(m[i], p, x, yes)); }
    }
}
// what a request for an unknown account does, and its answer
pub open spec fn loads_account(o: VxWorld, n: VxWorld, st: int, k: Pubkey, c: Commitment, r: Result<Option<AccountData>, AccountLoadingError>) -> bool {
    let d = o.acts();
    let keys = Set::<Pubkey>::empty().insert(k);
    ||| n.acts() =~= d.push(Act::Subscribe(keys, false)) && r == Err::<Option<AccountData>, _>(AccountLoadingError::ErrorSubscribingAccount)
    ||| exists|f: Seq<AccountFilter>, ok: bool| {
        &&& #[trigger] account_acts(d, n.acts(), st, k, f, ok)
        &&& has(o.now(), n.now(), Asked::Notified)
        &&& ok ==> n.now().last() == Asked::Read(k, c, r)
        &&& !ok ==> r == Err::<Option<AccountData>, _>(AccountLoadingError::ErrorCreatingSnapshot)
    }
}
pub open spec fn loads_program(o: VxWorld, n: VxWorld, st: int, p: Pubkey, x: Conditions, c: Commitment, r: Result<Vec<AccountData>, AccountLoadingError>) -> bool {
    let d = o.acts();
    ||| n.acts() =~= d.push(Act::SubscribeProgram(p, x, false)) && r == Err::<Vec<AccountData>, _>(AccountLoadingError::ErrorSubscribingAccount)
    ||| exists|f: Seq<AccountFilter>, g: Seq<AccountFilter>, ok: bool| {
        &&& #[trigger] program_acts(d, n.acts(), st, p, x, f, g, ok)
        &&& has(o.now(), n.now(), Asked::Notified)
        &&& ok ==> n.now().last() == Asked::List(p, x, c, r)
        &&& !ok ==> r == Err::<Vec<AccountData>, _>(AccountLoadingError::ErrorCreatingSnapshot)
    }
}
impl AccountsOnDemand {
//@ fn AccountsOnDemand::new ret=r
    ensures r.accounts_in_loading@ == Map::<Pubkey, Condvar>::empty(), r.gpa_in_loading@ == Map::<GpaAccountKey, Condvar>::empty(), r.accounts_storage.id() == accounts_storage.id(), r.accounts_source == accounts_source, r.mutable_filters == mutable_filters,
//@ end
//@ fn AccountStorageInterface for AccountsOnDemand::update_account ret=r
    ensures asked(*old(__w), *final(__w), Asked::Update(account_data, commitment, r)),
//@ end
//@ fn AccountStorageInterface for AccountsOnDemand::initilize_or_update_account
    ensures asked(*old(__w), *final(__w), Asked::Init(account_data)),
//@ end
//@ fn AccountStorageInterface for AccountsOnDemand::process_slot_data ret=r
    ensures asked(*old(__w), *final(__w), Asked::Slot(slot_info, commitment, r)),
//@ end
//@ fn AccountStorageInterface for AccountsOnDemand::create_snapshot ret=r
    ensures asked(*old(__w), *final(__w), Asked::Snapshot(program_id, r)),
//@ end
//@ fn AccountStorageInterface for AccountsOnDemand::load_from_snapshot ret=r
    ensures asked(*old(__w), *final(__w), Asked::LoadSnapshot(program_id, snapshot, r)),
//@ end
//@ fn AccountStorageInterface for AccountsOnDemand::get_account ret=r self=mut
    ensures
        extends(old(__w).now(), final(__w).now()),
        // the answer is that of the storage, asked last of all; or a failure
        r is Ok ==> final(__w).now().last() == Asked::Read(account_pk, commitment, r),
        // it waits for the load of another request, and gives up only while that goes on
        waits_end_it(old(__w).now(), final(__w).now(), r == Err::<Option<AccountData>, _>(AccountLoadingError::OperationTimeOut)),
        r == Ok::<Option<AccountData>, AccountLoadingError>(None) && old(self).accounts_in_loading@.contains_key(account_pk) ==> has(old(__w).now(), final(__w).now(), Asked::Waited(true)),
        // loading is over for everybody afterwards
        !old(self).accounts_in_loading@.contains_key(account_pk) ==> final(self).accounts_in_loading@ =~= old(self).accounts_in_loading@,
        final(self).gpa_in_loading == old(self).gpa_in_loading,
        final(self).accounts_source == old(self).accounts_source, final(self).mutable_filters == old(self).mutable_filters, final(self).accounts_storage == old(self).accounts_storage,
        // nothing is subscribed for an account that is stored, being loaded or watched already
        final(__w).acts() == old(__w).acts() ==> r is Err || r->Ok_0 is Some || old(self).accounts_in_loading@.contains_key(account_pk) || has(old(__w).now(), final(__w).now(), Asked::Watches(account_pk, true)),
        final(__w).acts() != old(__w).acts() ==> {
            &&& has(old(__w).now(), final(__w).now(), Asked::Read(account_pk, commitment, Ok(None)))
            &&& has(old(__w).now(), final(__w).now(), Asked::Watches(account_pk, false))
            &&& !old(self).accounts_in_loading@.contains_key(account_pk)
            &&& loads_account(*old(__w), *final(__w), old(self).accounts_storage.id(), account_pk, commitment, r)
        },
//@ start
    broadcast use lemma_has_pushed;
//@ aftercall save_snapshot 0
    // whoever asks while it is being loaded waits
    assert(self.accounts_in_loading@.contains_key(account_pk));
//@ exit
    proof {
        let n = __w.acts();
        let d = old(__w).acts();
        if n.len() == d.len() + 3 {
            assert(account_acts(d, n, self.accounts_storage.id(), account_pk, n.last()->Load_1, n.last()->Load_2));
        }
    }
//@ end
//@ fn AccountStorageInterface for AccountsOnDemand::get_program_accounts ret=r self=mut
    ensures
        extends(old(__w).now(), final(__w).now()),
        r is Ok ==> final(__w).now().last() == Asked::List(program_id, filters, commitment, r),
        waits_end_it(old(__w).now(), final(__w).now(), r == Err::<Vec<AccountData>, _>(AccountLoadingError::OperationTimeOut)),
        r is Ok && old(self).gpa_in_loading@.contains_key((program_id, list_or_none(filters))) ==> has(old(__w).now(), final(__w).now(), Asked::Waited(true)),
        !old(self).gpa_in_loading@.contains_key((program_id, list_or_none(filters))) ==> final(self).gpa_in_loading@ =~= old(self).gpa_in_loading@,
        final(self).accounts_in_loading == old(self).accounts_in_loading,
        final(self).accounts_source == old(self).accounts_source, final(self).mutable_filters == old(self).mutable_filters, final(self).accounts_storage == old(self).accounts_storage,
        final(__w).acts() == old(__w).acts() ==> old(self).gpa_in_loading@.contains_key((program_id, list_or_none(filters))) || covers(old(__w).now(), final(__w).now(), program_id, filters, true),
        final(__w).acts() != old(__w).acts() ==> {
            &&& covers(old(__w).now(), final(__w).now(), program_id, filters, false)
            &&& !old(self).gpa_in_loading@.contains_key((program_id, list_or_none(filters)))
            &&& loads_program(*old(__w), *final(__w), old(self).accounts_storage.id(), program_id, filters, commitment, r)
        },
//@ start
    broadcast use {axiom_conditions_cloned, lemma_has_pushed, lemma_covers_pushed};

//@ aftercall save_snapshot 0
    assert(self.gpa_in_loading@.contains_key((program_id, list_or_none(filters))));
//@ exit
    proof {
        let n = __w.acts();
        let d = old(__w).acts();
        if n.len() == d.len() + 3 {
            assert(program_acts(d, n, self.accounts_storage.id(), program_id, filters, n[d.len() as int + 1]->Watch_0, n.last()->Load_1, n.last()->Load_2));
        }
    }
//@ end
}
