// Executable contracts of loading on demand: what a request for an unknown account subscribes and loads, what
// it answers, and that requests at the same time load once, wait for the load and are not blocked by it.
use crate::check;
use crate::common::*;
use crate::fw::*;
use lite_account_manager_common::{
    account_data::AccountData,
    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData},
    account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    accounts_source_interface::AccountsSourceInterface,
    commitment::Commitment,
    mutable_filter_store::MutableFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

fn prog(n: u8) -> Pubkey {
    pkp(0x62, n)
}
fn key(n: u8) -> Pubkey {
    pkp(0xc1, n)
}
fn dead(a: &AccountData) -> bool {
    a.account.lamports == 0
}
fn admits(f: &AccountFilter, a: &AccountData) -> bool {
    (f.accounts.contains(&a.pubkey) || f.program_id == Some(a.account.owner) && f.accounts.is_empty())
        && f.filters.as_ref().map_or(true, |v| {
            let d = a.account.data.data();
            v.iter().all(|x| match x {
                AccountFilterType::Datasize(n) => d.len() as u64 == *n,
                AccountFilterType::Memcmp(m) => match &m.data {
                    MemcmpFilterData::Bytes(b) => d.get(m.offset as usize..).map_or(false, |t| t.starts_with(b)),
                    _ => false,
                },
            })
        })
}

type Hook = Box<dyn FnOnce() + Send>;
/// the chain that accounts are loaded from
#[derive(Default)]
struct Source {
    chain: Mutex<BTreeMap<Pubkey, AccountData>>,
    log: Mutex<Vec<String>>,
    fail_subscribe: AtomicBool,
    fail_snapshot: AtomicBool,
    delay: AtomicU32,
    // run while a snapshot is being saved
    hook: Mutex<Option<Hook>>,
}
impl Source {
    fn pause(&self) {
        let d = self.delay.load(Ordering::SeqCst);
        if d > 0 {
            std::thread::sleep(Duration::from_micros(d as u64));
        }
    }
    fn taken(&self) -> Vec<String> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
}
fn fname(f: &AccountFilter) -> String {
    format!("{:?} {:?} {}", f.accounts.iter().map(short).collect::<Vec<_>>(), f.program_id.as_ref().map(short), xname(&f.filters))
}
// no conditions and an empty list of them mean the same
fn xname(x: &Option<Vec<AccountFilterType>>) -> String {
    format!("{:?}", x.clone().unwrap_or_default())
}
impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, account: HashSet<Pubkey>) -> anyhow::Result<()> {
        let mut v: Vec<String> = account.iter().map(short).collect();
        v.sort();
        self.log.lock().unwrap().push(format!("subscribe {:?}", v));
        self.pause();
        if self.fail_subscribe.load(Ordering::SeqCst) {
            anyhow::bail!("no subscription");
        }
        Ok(())
    }
    fn subscribe_program_accounts(&self, program_id: Pubkey, filters: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        self.log.lock().unwrap().push(format!("subscribe program {} {}", short(&program_id), xname(&filters)));
        self.pause();
        if self.fail_subscribe.load(Ordering::SeqCst) {
            anyhow::bail!("no subscription");
        }
        Ok(())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, account_filters: AccountFilters) -> anyhow::Result<()> {
        self.log.lock().unwrap().push(format!("snapshot {:?}", account_filters.iter().map(fname).collect::<Vec<_>>()));
        let hook = self.hook.lock().unwrap().take();
        if let Some(h) = hook {
            h();
        }
        self.pause();
        if self.fail_snapshot.load(Ordering::SeqCst) {
            anyhow::bail!("no snapshot");
        }
        let all: Vec<AccountData> = self.chain.lock().unwrap().values().cloned().collect();
        for a in all {
            if account_filters.iter().any(|f| admits(f, &a)) {
                storage.initilize_or_update_account(a);
            }
        }
        self.pause();
        Ok(())
    }
}
/// a storage that can be held up after it has read an account
struct Held {
    inner: Arc<dyn AccountStorageInterface>,
    hook: Mutex<Option<(Pubkey, Hook)>>,
}
impl AccountStorageInterface for Held {
    fn update_account(&self, a: AccountData, c: Commitment) -> bool {
        self.inner.update_account(a, c)
    }
    fn initilize_or_update_account(&self, a: AccountData) {
        self.inner.initilize_or_update_account(a)
    }
    fn get_account(&self, k: Pubkey, c: Commitment) -> Result<Option<AccountData>, AccountLoadingError> {
        let r = self.inner.get_account(k, c);
        let mut lk = self.hook.lock().unwrap();
        if lk.as_ref().map_or(false, |x| x.0 == k) {
            let h = lk.take().unwrap().1;
            drop(lk);
            h();
        }
        r
    }
    fn get_program_accounts(&self, p: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment) -> Result<Vec<AccountData>, AccountLoadingError> {
        self.inner.get_program_accounts(p, f, c)
    }
    fn process_slot_data(&self, s: SlotInfo, c: Commitment) -> Vec<AccountData> {
        self.inner.process_slot_data(s, c)
    }
    fn create_snapshot(&self, p: Pubkey) -> Result<Vec<u8>, AccountLoadingError> {
        self.inner.create_snapshot(p)
    }
    fn load_from_snapshot(&self, p: Pubkey, b: Vec<u8>) -> Result<(), AccountLoadingError> {
        self.inner.load_from_snapshot(p, b)
    }
}
struct Stage {
    source: Arc<Source>,
    filters: Arc<MutableFilterStore>,
    store: Arc<Held>,
    by: Arc<AccountsOnDemand>,
}
fn stage() -> Stage {
    let source = Arc::new(Source::default());
    let filters = Arc::new(MutableFilterStore::default());
    let store = Arc::new(Held { inner: Arc::new(InmemoryAccountStore::new(filters.clone())), hook: Mutex::new(None) });
    let by = Arc::new(AccountsOnDemand::new(source.clone(), filters.clone(), store.clone()));
    Stage { source, filters, store, by }
}
fn conditions(x: u8, tag: u8) -> Option<Vec<AccountFilterType>> {
    match x {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![AccountFilterType::Datasize(1 + (tag % 2) as u64)]),
        _ => Some(vec![AccountFilterType::Memcmp(MemcmpFilter { offset: 0, data: MemcmpFilterData::Bytes(vec![tag]) })]),
    }
}
fn ename(e: &AccountLoadingError) -> String {
    format!("{:?}", e)
}
fn list(v: &[AccountData]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(sig).collect();
    v.sort();
    v
}

// ---- one request at a time -----------------------------------------------------------------------
#[derive(Clone)]
pub enum Op {
    Get { k: u8, c: Commitment, no_sub: bool, no_snap: bool },
    List { p: u8, x: u8, tag: u8, c: Commitment, no_sub: bool, no_snap: bool },
    Write { k: u8, owner: u8, live: bool, tag: u8, slot: u64 },
    Slot { slot: u64, c: Commitment },
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let fails = |s: &bool, n: &bool| format!("{}{}", if *s { ", subscribing fails" } else { "" }, if *n { ", the snapshot fails" } else { "" });
        match self {
            Op::Get { k, c, no_sub, no_snap } => write!(f, "read account {} at {}{}", k, cname(*c), fails(no_sub, no_snap)),
            Op::List { p, x, tag, c, no_sub, no_snap } => write!(f, "list program {} with {:?} at {}{}", p, conditions(*x, *tag), cname(*c), fails(no_sub, no_snap)),
            Op::Write { k, owner, live, tag, slot } => write!(f, "write account {} program={} {} content={} slot={} as finalized", k, owner, if *live { "live" } else { "deleted" }, tag, slot),
            Op::Slot { slot, c } => write!(f, "slot {} becomes {}", slot, cname(*c)),
        }
    }
}
fn run_ops(ops: &[Op]) -> Result<bool, String> {
    let s = stage();
    let mut loads = 0;
    // a load that failed is not repeated, so that the answers may lack accounts from then on
    let mut lacking = false;
    for (n, op) in ops.iter().enumerate() {
        s.source.taken();
        let set = |no_sub: bool, no_snap: bool| {
            s.source.fail_subscribe.store(no_sub, Ordering::SeqCst);
            s.source.fail_snapshot.store(no_snap, Ordering::SeqCst);
        };
        match op {
            Op::Get { k, c, no_sub, no_snap } => {
                set(*no_sub, *no_snap);
                let before = s.store.get_account(key(*k), *c).map_err(|e| format!("reading the storage fails with {}", ename(&e)))?;
                let known = s.filters.contains_account(key(*k));
                let got = s.by.get_account(key(*k), *c);
                let log = s.source.taken();
                let sub = format!("subscribe {:?}", vec![short(&key(*k))]);
                let snap = format!("snapshot {:?}", vec![fname(&AccountFilter { accounts: vec![key(*k)], program_id: None, filters: None })]);
                if let Some(b) = before {
                    check!(log.is_empty(), "after operation {}: a stored account was loaded again: {:?}", n, log);
                    check!(matches!(&got, Ok(Some(g)) if sig(g) == sig(&b)), "after operation {}: a stored account {} is answered with {:?}", n, sig(&b), got.map(|g| sigo(&g)).map_err(|e| ename(&e)));
                } else if known {
                    check!(log.is_empty(), "after operation {}: an account that is watched was subscribed again: {:?}", n, log);
                    check!(matches!(&got, Ok(None)), "after operation {}: a watched account that is not stored is answered with {:?}", n, got.map(|g| sigo(&g)).map_err(|e| ename(&e)));
                } else if *no_sub {
                    check!(log == vec![sub.clone()], "after operation {}: with a failing subscription: {:?}", n, log);
                    check!(matches!(&got, Err(AccountLoadingError::ErrorSubscribingAccount)), "after operation {}: subscribing failed, answered {:?}", n, got.map(|g| sigo(&g)).map_err(|e| ename(&e)));
                    check!(!s.filters.contains_account(key(*k)), "after operation {}: an account that could not be subscribed is taken for watched", n);
                } else {
                    loads += 1;
                    check!(log == vec![sub.clone(), snap.clone()], "after operation {}: an unknown account is loaded by {:?}, expected {:?}", n, log, vec![sub, snap]);
                    check!(s.filters.contains_account(key(*k)), "after operation {}: a subscribed account is not watched", n);
                    if *no_snap {
                        lacking = true;
                        check!(matches!(&got, Err(AccountLoadingError::ErrorCreatingSnapshot)), "after operation {}: the snapshot failed, answered {:?}", n, got.map(|g| sigo(&g)).map_err(|e| ename(&e)));
                    } else {
                        let e = s.source.chain.lock().unwrap().get(&key(*k)).cloned();
                        check!(matches!(&got, Ok(g) if sigo(g) == sigo(&e)), "after operation {}: account {} was loaded and is answered with {:?}", n, sigo(&e), got.map(|g| sigo(&g)).map_err(|e| ename(&e)));
                    }
                }
            }
            Op::List { p, x, tag, c, no_sub, no_snap } => {
                set(*no_sub, *no_snap);
                let xs = conditions(*x, *tag);
                let f = AccountFilter { accounts: vec![], program_id: Some(prog(*p)), filters: xs.clone() };
                let known = s.filters.contains_filter(&f);
                let got = s.by.get_program_accounts(prog(*p), xs.clone(), *c);
                let log = s.source.taken();
                let sub = format!("subscribe program {} {}", short(&prog(*p)), xname(&xs));
                let snap = format!("snapshot {:?}", vec![fname(&f)]);
                let show = |g: Result<Vec<AccountData>, AccountLoadingError>| g.map(|g| list(&g)).map_err(|e| ename(&e));
                if known {
                    check!(log.is_empty(), "after operation {}: program accounts that are watched were subscribed again: {:?}", n, log);
                } else if *no_sub {
                    check!(log == vec![sub.clone()], "after operation {}: with a failing subscription: {:?}", n, log);
                    check!(matches!(&got, Err(AccountLoadingError::ErrorSubscribingAccount)), "after operation {}: subscribing failed, answered {:?}", n, show(got));
                    check!(!s.filters.contains_filter(&f), "after operation {}: program accounts that could not be subscribed are taken for watched", n);
                    continue;
                } else {
                    loads += 1;
                    check!(log == vec![sub.clone(), snap.clone()], "after operation {}: unknown program accounts are loaded by {:?}, expected {:?}", n, log, vec![sub, snap]);
                    check!(s.filters.contains_filter(&f), "after operation {}: subscribed program accounts are not watched", n);
                    if *no_snap {
                        lacking = true;
                        check!(matches!(&got, Err(AccountLoadingError::ErrorCreatingSnapshot)), "after operation {}: the snapshot failed, answered {:?}", n, show(got));
                        continue;
                    }
                }
                let e = s.store.get_program_accounts(prog(*p), xs.clone(), *c);
                check!(show(got.clone_list()) == show(e.clone_list()), "after operation {}: program {} is listed as {:?}, the storage holds {:?}", n, p, show(got), show(e));
                if !lacking {
                    let mut e: Vec<String> = s.source.chain.lock().unwrap().values().filter(|a| admits(&f, a)).map(sig).collect();
                    e.sort();
                    check!(show(got.clone_list()) == Ok(e.clone()), "after operation {}: program {} is listed as {:?}, on the chain are {:?}", n, p, show(got), e);
                }
            }
            Op::Write { k, owner, live, tag, slot } => {
                let a = account(key(*k), prog(*owner), if *live { 1 + *slot } else { 0 }, &vec![*tag; 1 + (*tag % 2) as usize], *slot, *slot);
                let held = s.store.get_account(key(*k), Commitment::Finalized).map_err(|e| ename(&e))?.is_some() || s.filters.satisfies(&a);
                let got = s.by.update_account(a.clone(), Commitment::Finalized);
check!(got || !held || dead(&a), "after operation {}: a write of a watched account is not taken", n);
                let mut chain = s.source.chain.lock().unwrap();
                if dead(&a) {
                    chain.remove(&a.pubkey);
                } else {
                    chain.insert(a.pubkey, a);
                }
                drop(chain);
                check!(s.source.taken().is_empty(), "after operation {}: a write loads accounts", n);
            }
            Op::Slot { slot, c } => {
                s.by.process_slot_data(SlotInfo { slot: *slot, parent: slot - 1, root: slot - 1 }, *c);
                check!(s.source.taken().is_empty(), "after operation {}: a slot notification loads accounts", n);
            }
        }
    }
    Ok(loads > 0)
}
trait CloneList {
    fn clone_list(&self) -> Self;
}
impl CloneList for Result<Vec<AccountData>, AccountLoadingError> {
    fn clone_list(&self) -> Self {
        match self {
            Ok(v) => Ok(v.clone()),
            Err(e) => Err(match e {
                AccountLoadingError::ConfigDoesnotContainRequiredFilters => AccountLoadingError::ConfigDoesnotContainRequiredFilters,
                AccountLoadingError::OperationTimeOut => AccountLoadingError::OperationTimeOut,
                AccountLoadingError::ErrorSubscribingAccount => AccountLoadingError::ErrorSubscribingAccount,
                AccountLoadingError::ErrorCreatingSnapshot => AccountLoadingError::ErrorCreatingSnapshot,
                _ => AccountLoadingError::DeserializationIssues,
            }),
        }
    }
}
fn gen_ops(r: &mut Rng) -> Vec<Op> {
    let len = 2 + r.us(20);
    let (keys, progs) = (1 + r.below(4), 1 + r.below(3));
    let fails = r.chance(1, 2);
    let mut slot = 10;
    (0..len)
        .map(|_| {
            let (no_sub, no_snap) = (fails && r.chance(1, 6), fails && r.chance(1, 8));
            let c = COMMITMENTS[r.us(3)];
            match r.below(10) {
                0..=2 => Op::Get { k: r.below(keys) as u8, c, no_sub, no_snap },
                3..=4 => Op::List { p: r.below(progs) as u8, x: r.below(4) as u8, tag: r.below(3) as u8, c, no_sub, no_snap },
                5 => {
                    slot += 1;
                    Op::Slot { slot, c }
                }
                _ => {
                    slot += 1 + r.below(2);
                    Op::Write { k: r.below(keys) as u8, owner: r.below(progs) as u8, live: !r.chance(1, 7), tag: r.below(3) as u8, slot }
                }
            }
        })
        .collect()
}

// ---- requests at the same time --------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Crowd {
    /// (what to ask: account n, or 100 + program; started so many microseconds in)
    asks: Vec<(u8, u32)>,
    delay: u32,
    no_sub: bool,
    no_snap: bool,
}
fn patience() -> Duration {
    Duration::from_secs(25)
}
fn run_crowd(cs: &[Crowd]) -> Result<bool, String> {
    for c in cs {
        let s = stage();
        for k in 0..3u8 {
            s.source.chain.lock().unwrap().insert(key(k), account(key(k), prog(k % 2), 5, &[k], 4, 1));
        }
        s.source.delay.store(c.delay, Ordering::SeqCst);
        s.source.fail_subscribe.store(c.no_sub, Ordering::SeqCst);
        s.source.fail_snapshot.store(c.no_snap, Ordering::SeqCst);
        let (tx, rx) = mpsc::channel();
        for (n, (what, at)) in c.asks.iter().copied().enumerate() {
            let (by, tx) = (s.by.clone(), tx.clone());
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_micros(at as u64));
                let t = Instant::now();
                let r = if what < 100 {
                    by.get_account(key(what), Commitment::Finalized).map(|a| a.iter().map(sig).collect::<Vec<_>>())
                } else {
                    by.get_program_accounts(prog(what - 100), None, Commitment::Finalized).map(|v| list(&v))
                };
                let _ = tx.send((n, what, r, t.elapsed()));
            });
        }
        let until = Instant::now() + patience();
        for _ in 0..c.asks.len() {
            let left = until.saturating_duration_since(Instant::now());
            let Ok((n, what, r, took)) = rx.recv_timeout(left) else { return Err("a request is never answered".into()) };
            let chain: Vec<String> = {
                let ch = s.source.chain.lock().unwrap();
                let mut v: Vec<String> = ch.values().filter(|a| if what < 100 { a.pubkey == key(what) } else { a.account.owner == prog(what - 100) }).map(sig).collect();
                v.sort();
                v
            };
            match r {
                // the wait for another request's load ends after ten seconds at the earliest
                Err(AccountLoadingError::OperationTimeOut) => check!(took > Duration::from_millis(9_000), "request {} gave up after {:?}", n, took),
                Err(AccountLoadingError::ErrorSubscribingAccount) => check!(c.no_sub, "request {} fails to subscribe", n),
                Err(AccountLoadingError::ErrorCreatingSnapshot) => check!(c.no_snap && !c.no_sub, "request {} fails to load", n),
                Err(e) => return Err(format!("request {} fails with {}", n, ename(&e))),
                Ok(v) => check!(c.no_snap && !c.no_sub && v.is_empty() || !c.no_sub && v == chain, "request {} is answered with {:?}, on the chain is {:?}", n, v, chain),
            }
        }
        let log = s.source.taken();
        if !c.no_sub {
            for l in &log {
                check!(log.iter().filter(|x| *x == l).count() == 1, "requests at the same time did this more than once: {}", l);
            }
        }
        // and a failed load does not keep anybody from asking again
        s.source.fail_subscribe.store(false, Ordering::SeqCst);
        s.source.fail_snapshot.store(false, Ordering::SeqCst);
        if c.no_sub {
            let (tx, rx) = mpsc::channel();
            let (by, what) = (s.by.clone(), c.asks[0].0);
            std::thread::spawn(move || {
                let _ = tx.send(if what < 100 { by.get_account(key(what), Commitment::Finalized).map(|a| a.is_some()) } else { by.get_program_accounts(prog(what - 100), None, Commitment::Finalized).map(|v| !v.is_empty()) });
            });
            match rx.recv_timeout(patience()) {
                Ok(Ok(b)) => check!(b == (what != 3 && what < 102), "asked again after a failed subscription, the answer is {}", b),
                Ok(Err(e)) => return Err(format!("asked again after a failed subscription, the request fails with {}", ename(&e))),
                Err(_) => return Err("asked again after a failed subscription, the request is never answered".into()),
            }
        }
    }
    Ok(cs.iter().any(|c| c.asks.len() > 1))
}

// ---- chosen interleavings ---------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Overlap {
    /// during a load: 0 another account, 1 another program, 2 the same account, 3 the same program, 4 a write of the account;
    /// 5 the account is loaded by another request after the storage was found without it
    what: u8,
    program: bool,
    exists: bool,
    wait: u32,
}
fn run_overlap(os: &[Overlap]) -> Result<bool, String> {
    for o in os {
        let s = stage();
        if o.exists {
            s.source.chain.lock().unwrap().insert(key(0), account(key(0), prog(0), 5, &[1], 4, 1));
        }
        s.source.chain.lock().unwrap().insert(key(1), account(key(1), prog(1), 6, &[2], 4, 2));
        let trouble: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
        let late: Arc<Mutex<Option<mpsc::Receiver<Result<Vec<String>, AccountLoadingError>>>>> = Arc::new(Mutex::new(None));
        let ask = |by: Arc<AccountsOnDemand>, program: bool, n: u8| {
            let (tx, rx) = mpsc::channel();
            std::thread::spawn(move || {
                let r = if program { by.get_program_accounts(prog(n), None, Commitment::Confirmed).map(|v| list(&v)) } else { by.get_account(key(n), Commitment::Confirmed).map(|a| a.iter().map(sig).collect()) };
                let _ = tx.send(r);
            });
            rx
        };
        let (by, tr, lt, o2, src) = (s.by.clone(), trouble.clone(), late.clone(), o.clone(), Arc::downgrade(&s.source));
        let hook: Hook = Box::new(move || match o2.what {
            0 | 1 => match ask(by, o2.what == 1, 1).recv_timeout(Duration::from_secs(8)) {
                Ok(Ok(v)) => {
                    if v.len() != 1 {
                        *tr.lock().unwrap() = Some(format!("asked during another load, the answer is {:?}", v));
                    }
                }
                Ok(Err(e)) => *tr.lock().unwrap() = Some(format!("asked during another load, the request fails with {}", ename(&e))),
                Err(_) => *tr.lock().unwrap() = Some("a request for something else waits while a snapshot is being loaded".into()),
            },
            2 | 3 => {
                *lt.lock().unwrap() = Some(ask(by, o2.program, 0));
                std::thread::sleep(Duration::from_micros(o2.wait as u64));
            }
            4 => {
                // the write is on the chain before the snapshot is taken
                let a = account(key(0), prog(0), 9, &[7], 6, 3);
                if let Some(src) = src.upgrade() {
                    src.chain.lock().unwrap().insert(key(0), a.clone());
                }
                by.update_account(a, Commitment::Finalized);
            }
            _ => {
                let _ = ask(by, false, 0).recv_timeout(Duration::from_secs(4));
            }
        });
        if o.what == 5 {
            *s.store.hook.lock().unwrap() = Some((key(0), hook));
        } else {
            *s.source.hook.lock().unwrap() = Some(hook);
        }
        let program = o.program && o.what != 5;
        let first = match ask(s.by.clone(), program, 0).recv_timeout(patience()) {
            Ok(r) => r.map_err(|e| format!("the request fails with {}", ename(&e)))?,
            Err(_) => return Err("a request is never answered".into()),
        };
        if let Some(t) = trouble.lock().unwrap().take() {
            return Err(t);
        }
        let chain: Vec<String> = s.source.chain.lock().unwrap().get(&key(0)).map(sig).into_iter().collect();
        check!(first == chain, "the request is answered with {:?}, on the chain is {:?}", first, chain);
        if let Some(rx) = late.lock().unwrap().take() {
            match rx.recv_timeout(patience()) {
                Ok(Ok(v)) => check!(v == chain, "asked for the same during the load, the answer is {:?}, on the chain is {:?}", v, chain),
                Ok(Err(e)) => return Err(format!("asked for the same during the load, the request fails with {}", ename(&e))),
                Err(_) => return Err("asked for the same during the load, the request is never answered".into()),
            }
        }
        let log = s.source.taken();
        for l in &log {
            check!(log.iter().filter(|x| *x == l).count() == 1, "requests at the same time did this more than once: {}", l);
        }
    }
    Ok(true)
}

// ---- loads that take long ----------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Slow {
    program: bool,
    /// how long the load takes
    ms: u64,
}
/// the same asked again while it is being loaded; all of them at the same time, for none needs the others
fn run_slow(cs: &[Slow]) -> Result<bool, String> {
    let all: Vec<_> = cs
        .iter()
        .cloned()
        .map(|c| {
            std::thread::spawn(move || -> Result<(), String> {
                let s = stage();
                s.source.chain.lock().unwrap().insert(key(0), account(key(0), prog(0), 5, &[1], 4, 1));
                let (loading_tx, loading) = mpsc::channel();
                let ms = c.ms;
                *s.source.hook.lock().unwrap() = Some(Box::new(move || {
                    let _ = loading_tx.send(());
                    std::thread::sleep(Duration::from_millis(ms));
                }));
                let ask = |by: Arc<AccountsOnDemand>| {
                    let (tx, rx) = mpsc::channel();
                    std::thread::spawn(move || {
                        let t = Instant::now();
                        let r = if c.program { by.get_program_accounts(prog(0), None, Commitment::Confirmed).map(|v| v.len()) } else { by.get_account(key(0), Commitment::Confirmed).map(|a| a.iter().count()) };
                        let _ = tx.send((r, t.elapsed()));
                    });
                    rx
                };
                let first = ask(s.by.clone());
                if loading.recv_timeout(patience()).is_err() {
                    return Err("nothing is loaded".into());
                }
                let second = ask(s.by.clone());
                for (n, rx) in [("the second", second), ("the first", first)] {
                    match rx.recv_timeout(patience()) {
                        Ok((Ok(1), _)) => {}
                        Ok((Ok(k), took)) => return Err(format!("load of {} ms: {} request is answered after {:?} with {} accounts", c.ms, n, took, k)),
                        Ok((Err(AccountLoadingError::OperationTimeOut), took)) if n == "the second" => check!(took >= Duration::from_millis(9_999), "load of {} ms: {} request gave up after {:?}", c.ms, n, took),
                        Ok((Err(e), _)) => return Err(format!("load of {} ms: {} request fails with {}", c.ms, n, ename(&e))),
                        Err(_) => return Err(format!("load of {} ms: {} request is not answered within {:?}", c.ms, n, patience())),
                    }
                }
                Ok(())
            })
        })
        .collect();
    for t in all {
        t.join().map_err(|_| "a request ends in a panic".to_string())??;
    }
    Ok(true)
}

pub fn suites(ctx: &mut Ctx) {
    let t = if ctx.thorough { 15 } else { 1 };
    ctx.histories(
        "on-demand",
        "2-21 requests for accounts and program accounts, with and without conditions, writes and slot notifications, with subscriptions and snapshots that fail; compared with the chain and with what is stored and watched; non-trivial when something was loaded",
        4_000 * t,
        |r, _| gen_ops(r),
        run_ops,
    );
    ctx.histories(
        "on-demand-overlap",
        "a request during the load of something else, the same or a write, and a load by another request just after the storage was found without the account",
        60 * t,
        |r, i| vec![Overlap { what: (i % 6) as u8, program: r.chance(1, 2), exists: r.chance(5, 6), wait: r.below(3_000) as u32 }],
        run_overlap,
    );
    ctx.histories(
        "on-demand-crowd",
        "2-12 requests started within 2 ms for the same or different accounts and programs, from a source that takes up to 3 ms for a step and may fail (bounded: schedules are those that happen); non-trivial with two requests",
        300 * t,
        |r, _| {
            let n = 2 + r.us(11);
            let kinds = 1 + r.us(3);
            let all = [0u8, 1, 2, 3, 100, 101];
            let what: Vec<u8> = (0..kinds).map(|_| *r.pick(&all)).collect();
            let no_sub = r.chance(1, 8);
            vec![Crowd { asks: (0..n).map(|_| (*r.pick(&what), r.below(2_000) as u32)).collect(), delay: r.below(3_000) as u32, no_sub, no_snap: r.chance(1, 8) }]
        },
        run_crowd,
    );
    ctx.histories(
        "on-demand-slow",
        "loads of 8 to 12 seconds during which the same is asked for again, which is answered after the load, or with a timeout after ten seconds at the earliest",
        1,
        |_, _| [8_200, 9_300, 9_900, 11_500].into_iter().flat_map(|ms| [Slow { program: false, ms }, Slow { program: true, ms }]).collect(),
        run_slow,
    );
}
