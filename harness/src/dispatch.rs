// Executable contracts of the dispatch by program id: which storage is told and asked, and that accounts
// read and list as if one storage held everything.
use crate::check;
use crate::common::*;
use crate::fw::*;
use lite_account_manager_common::{
    account_data::AccountData,
    account_filter::{AccountFilter, AccountFilterType},
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    commitment::Commitment,
    simple_filter_store::SimpleFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::{inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

fn prog(n: u8) -> Pubkey {
    pkp(0x61, n)
}
fn key(n: u8) -> Pubkey {
    pkp(0xb1, n)
}

// ---- storages that write down what they are told, with chosen answers ---------------------------
#[derive(Clone, Debug, Default)]
pub struct Script {
    takes: bool,
    has: bool,
    fails: bool,
    reports: u8,
}
struct Recorder {
    id: u8,
    script: Script,
    log: Arc<Mutex<Vec<(u8, String)>>>,
}
impl Recorder {
    fn tell(&self, s: String) {
        self.log.lock().unwrap().push((self.id, s));
    }
    fn mine(&self, k: Pubkey, n: u64) -> AccountData {
        account(k, prog(0), 1 + self.id as u64, &[self.id], n, 0)
    }
}
impl AccountStorageInterface for Recorder {
    fn update_account(&self, a: AccountData, c: Commitment) -> bool {
        self.tell(format!("update {} {}", sig(&a), cname(c)));
        self.script.takes
    }
    fn initilize_or_update_account(&self, a: AccountData) {
        self.tell(format!("init {}", sig(&a)));
    }
    fn get_account(&self, k: Pubkey, c: Commitment) -> Result<Option<AccountData>, AccountLoadingError> {
        self.tell(format!("get {} {}", short(&k), cname(c)));
        if self.script.fails {
            Err(AccountLoadingError::OperationTimeOut)
        } else {
            Ok(self.script.has.then(|| self.mine(k, c as u64)))
        }
    }
    fn get_program_accounts(&self, p: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment) -> Result<Vec<AccountData>, AccountLoadingError> {
        self.tell(format!("list {} {:?} {}", short(&p), f, cname(c)));
        if self.script.fails {
            Err(AccountLoadingError::ConfigDoesnotContainRequiredFilters)
        } else {
            Ok(vec![self.mine(p, 7)])
        }
    }
    fn process_slot_data(&self, s: SlotInfo, c: Commitment) -> Vec<AccountData> {
        self.tell(format!("slot {:?} {}", (s.slot, s.parent, s.root), cname(c)));
        (0..self.script.reports).map(|n| self.mine(key(n), s.slot)).collect()
    }
    fn create_snapshot(&self, p: Pubkey) -> Result<Vec<u8>, AccountLoadingError> {
        self.tell(format!("snapshot {}", short(&p)));
        if self.script.fails {
            Err(AccountLoadingError::ErrorCreatingSnapshot)
        } else {
            Ok(vec![self.id, 1])
        }
    }
    fn load_from_snapshot(&self, p: Pubkey, b: Vec<u8>) -> Result<(), AccountLoadingError> {
        self.tell(format!("load {} {:?}", short(&p), b));
        if self.script.fails {
            Err(AccountLoadingError::DeserializationIssues)
        } else {
            Ok(())
        }
    }
}
#[derive(Clone)]
pub enum Ask {
    Update { owner: u8, c: Commitment },
    Init { owner: u8 },
    Get { c: Commitment },
    List { p: u8, c: Commitment },
    Slot { slot: u64, parent: u64, c: Commitment },
    Snapshot { p: u8 },
    Load { p: u8 },
}
impl std::fmt::Debug for Ask {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Ask::Update { owner, c } => write!(f, "update an account of program {} at {}", owner, cname(*c)),
            Ask::Init { owner } => write!(f, "initialize an account of program {}", owner),
            Ask::Get { c } => write!(f, "read an account at {}", cname(*c)),
            Ask::List { p, c } => write!(f, "list program {} at {}", p, cname(*c)),
            Ask::Slot { slot, parent, c } => write!(f, "slot {} (parent {}) becomes {}", slot, parent, cname(*c)),
            Ask::Snapshot { p } => write!(f, "snapshot of program {}", p),
            Ask::Load { p } => write!(f, "load a snapshot of program {}", p),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Scene {
    /// program n -> storage
    map: Vec<u8>,
    scripts: Vec<Script>,
    asks: Vec<Ask>,
}
const DEFAULT: u8 = 9;
fn run_scene(scenes: &[Scene]) -> Result<bool, String> {
    // the map is walked in an order that differs from one to the next
    for s in scenes.iter().flat_map(|s| std::iter::repeat(s).take(10)) {
        let log = Arc::new(Mutex::new(vec![]));
        let mut st: BTreeMap<u8, Arc<dyn AccountStorageInterface>> = BTreeMap::new();
        let script = |id: u8| if id == DEFAULT { s.scripts[0].clone() } else { s.scripts[1 + id as usize].clone() };
        for id in s.map.iter().copied().chain([DEFAULT]) {
            st.entry(id).or_insert_with(|| Arc::new(Recorder { id, script: script(id), log: log.clone() }));
        }
        let m: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = s.map.iter().enumerate().map(|(p, id)| (prog(p as u8), st[id].clone())).collect();
        let by = StorageByProgramId::new(m, st[&DEFAULT].clone());
        let to = |p: u8| s.map.get(p as usize).copied().unwrap_or(DEFAULT);
        let dispatched: BTreeSet<u8> = s.map.iter().copied().collect();
        for (n, a) in s.asks.iter().enumerate() {
            log.lock().unwrap().clear();
            match a {
                Ask::Update { owner, c } => {
                    let acc = account(key(1), prog(*owner), 3, &[n as u8], n as u64, 5);
                    let got = by.update_account(acc.clone(), *c);
                    let l = log.lock().unwrap().clone();
                    let what = format!("update {} {}", sig(&acc), cname(*c));
                    check!(l.iter().any(|(id, w)| *id == to(*owner) && *w == what), "the storage of the program of {} is not told; told: {:?}", sig(&acc), l);
                    let told: BTreeSet<u8> = l.iter().filter(|(_, w)| w.starts_with("update")).map(|x| x.0).collect();
                    check!(l.iter().all(|(_, w)| *w == what || w.starts_with("get")), "told something else than {}: {:?}", what, l);
                    let took = told.iter().any(|id| script(*id).takes);
                    check!(told.contains(&DEFAULT) || took, "no storage took {} and the default storage is not told", sig(&acc));
                    for id in &dispatched {
                        check!(told.contains(id), "storage {} is not told of {}, which it may hold from before", id, sig(&acc));
                    }
                    if script(DEFAULT).has && !script(DEFAULT).fails {
                        check!(told.contains(&DEFAULT), "the default storage holds the account and is not told of {}", sig(&acc));
                    }
                    check!(got == took, "the update is reported as {} but the storages said {:?}", got, told.iter().map(|id| (*id, script(*id).takes)).collect::<Vec<_>>());
                }
                Ask::Init { owner } => {
                    let acc = account(key(1), prog(*owner), 3, &[n as u8], n as u64, 5);
                    by.initilize_or_update_account(acc.clone());
                    let l = log.lock().unwrap().clone();
                    check!(l == vec![(to(*owner), format!("init {}", sig(&acc)))], "initializing {} told {:?}", sig(&acc), l);
                }
                Ask::Get { c } => {
                    let got = by.get_account(key(2), *c);
                    let l = log.lock().unwrap().clone();
                    check!(l.iter().all(|(_, w)| *w == format!("get {} {}", short(&key(2)), cname(*c))), "asked something else: {:?}", l);
                    let holders: Vec<u8> = dispatched.iter().copied().filter(|id| script(*id).has && !script(*id).fails).collect();
                    match (got, holders.is_empty()) {
                        (Ok(Some(a)), false) => check!(holders.contains(&a.account.data.data()[0]) && a.updated_slot == *c as u64, "an account of storages {:?} is answered with {}", holders, sig(&a)),
                        (g, true) => {
                            let d = script(DEFAULT);
                            let ok = match &g {
                                Err(_) => d.fails,
                                Ok(None) => !d.fails && !d.has,
                                Ok(Some(a)) => !d.fails && d.has && a.account.data.data()[0] == DEFAULT,
                            };
                            check!(ok, "no dispatched storage has the account, the default storage is {:?}, the answer {:?}", d, g.map(|x| sigo(&x)).map_err(|_| "an error"));
                        }
                        (g, false) => return Err(format!("an account of storages {:?} is answered with {:?}", holders, g.map(|x| sigo(&x)).map_err(|_| "an error"))),
                    }
                }
                Ask::List { p, c } => {
                    let f = Some(vec![AccountFilterType::Datasize(n as u64)]);
                    let got = by.get_program_accounts(prog(*p), f.clone(), *c);
                    let l = log.lock().unwrap().clone();
                    check!(l == vec![(to(*p), format!("list {} {:?} {}", short(&prog(*p)), f, cname(*c)))], "listing program {} asked {:?}", p, l);
                    match got {
                        Ok(v) => check!(!script(to(*p)).fails && v.len() == 1 && v[0].account.data.data()[0] == to(*p), "program {} is listed as {:?}", p, v.iter().map(sig).collect::<Vec<_>>()),
                        Err(e) => check!(script(to(*p)).fails && matches!(e, AccountLoadingError::ConfigDoesnotContainRequiredFilters), "listing program {} fails with {:?}", p, e),
                    }
                }
                Ask::Slot { slot, parent, c } => {
                    let got = by.process_slot_data(SlotInfo { slot: *slot, parent: *parent, root: 1 }, *c);
                    let mut l = log.lock().unwrap().clone();
                    l.sort();
                    let mut e: Vec<(u8, String)> = dispatched.iter().copied().chain([DEFAULT]).collect::<BTreeSet<u8>>().into_iter().map(|id| (id, format!("slot {:?} {}", (*slot, *parent, 1u64), cname(*c)))).collect();
                    e.sort();
                    check!(l == e, "a slot notification told {:?}, not every storage once", l);
                    let mut g: Vec<(u8, Pubkey)> = got.iter().map(|a| (a.account.data.data()[0], a.pubkey)).collect();
                    g.sort();
                    let mut e: Vec<(u8, Pubkey)> = dispatched.iter().copied().chain([DEFAULT]).collect::<BTreeSet<u8>>().into_iter().flat_map(|id| (0..script(id).reports).map(move |n| (id, key(n)))).collect();
                    e.sort();
                    check!(g == e, "the storages reported {:?}, the dispatch {:?}", e, g);
                }
                Ask::Snapshot { p } => {
                    let got = by.create_snapshot(prog(*p));
                    let l = log.lock().unwrap().clone();
                    check!(l == vec![(to(*p), format!("snapshot {}", short(&prog(*p))))], "a snapshot of program {} asked {:?}", p, l);
                    check!(got.is_err() == script(to(*p)).fails && got.map_or(true, |v| v == vec![to(*p), 1]), "the snapshot of program {} is another", p);
                }
                Ask::Load { p } => {
                    let b = vec![1, 2, n as u8];
                    let got = by.load_from_snapshot(prog(*p), b.clone());
                    let l = log.lock().unwrap().clone();
                    check!(l == vec![(to(*p), format!("load {} {:?}", short(&prog(*p)), b))], "loading a snapshot of program {} told {:?}", p, l);
                    check!(got.is_err() == script(to(*p)).fails, "loading a snapshot answers {:?}", got.is_err());
                }
            }
        }
    }
    Ok(scenes.iter().any(|s| !s.map.is_empty() && !s.asks.is_empty()))
}

// ---- real storages: the dispatch cannot be noticed -----------------------------------------------
#[derive(Clone)]
pub enum Op {
    Write { k: u8, owner: u8, live: bool, tag: u8, slot: u64, wv: u64, c: Commitment },
    Init { k: u8, owner: u8, tag: u8, slot: u64, wv: u64 },
    Slot { slot: u64, parent: u64, c: Commitment },
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Write { k, owner, live, tag, slot, wv, c } => write!(f, "write account {} program={} {} content={} slot={} version={} as {}", k, owner, if *live { "live" } else { "deleted" }, tag, slot, wv, cname(*c)),
            Op::Init { k, owner, tag, slot, wv } => write!(f, "initialize account {} program={} content={} slot={} version={}", k, owner, tag, slot, wv),
            Op::Slot { slot, parent, c } => write!(f, "slot {} (parent {}) becomes {}", slot, parent, cname(*c)),
        }
    }
}
const KEYS: u8 = 4;
fn inmem(programs: &[u8]) -> Arc<dyn AccountStorageInterface> {
    let mut s = SimpleFilterStore::default();
    s.add_account_filters(&programs.iter().map(|p| AccountFilter { accounts: vec![], program_id: Some(prog(*p)), filters: None }).collect());
    Arc::new(InmemoryAccountStore::new(Arc::new(s)))
}
/// 0 programs 0, 1 and the rest (2, 3) apart; 1 programs 0 and 1 together, the rest apart; 2 program 0 apart; 3 everything by default
fn composed(cfg: u64) -> StorageByProgramId {
    let mut m = HashMap::new();
    let d = match cfg {
        0 => {
            m.insert(prog(0), inmem(&[0]));
            m.insert(prog(1), inmem(&[1]));
            inmem(&[2, 3])
        }
        1 => {
            let s = inmem(&[0, 1]);
            m.insert(prog(0), s.clone());
            m.insert(prog(1), s);
            inmem(&[2, 3])
        }
        2 => {
            m.insert(prog(0), inmem(&[0]));
            inmem(&[1, 2, 3])
        }
        _ => inmem(&[0, 1, 2, 3]),
    };
    StorageByProgramId::new(m, d)
}
fn run_moves(cfg: u64, ops: &[Op]) -> Result<bool, String> {
    let (by, one) = (composed(cfg), inmem(&[0, 1, 2, 3]));
    let mut moved = false;
    let mut owners: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
    for (n, op) in ops.iter().enumerate() {
        let when = format!("after operation {}", n + 1);
        match op {
            Op::Write { k, owner, live, tag, slot, wv, c } => {
                let a = account(key(*k), prog(*owner), *live as u64 * (1 + n as u64), &[*tag, *slot as u8, *wv as u8], *slot, *wv);
                let (g, e) = (by.update_account(a.clone(), *c), one.update_account(a, *c));
                let o = owners.entry(*k).or_default();
                o.insert(*owner);
                moved |= o.len() > 1;
                check!(g == e || o.len() > 1, "{}: the write is reported as {}, one storage says {}", when, g, e);
            }
            Op::Init { k, owner, tag, slot, wv } => {
                let a = account(key(*k), prog(*owner), 1 + n as u64, &[*tag, *slot as u8, *wv as u8], *slot, *wv);
                by.initilize_or_update_account(a.clone());
                one.initilize_or_update_account(a);
                owners.entry(*k).or_default().insert(*owner);
            }
            Op::Slot { slot, parent, c } => {
                let i = SlotInfo { slot: *slot, parent: *parent, root: 0 };
                let (g, e) = (by.process_slot_data(i, *c), one.process_slot_data(i, *c));
                let live = |v: &[AccountData]| -> BTreeSet<String> { v.iter().filter(|a| a.account.lamports > 0).map(sig).collect() };
                let (gs, es) = (live(&g), live(&e));
                check!(gs == es, "{}: the slot notification reports {:?}, one storage {:?}", when, gs, es);
                let still = |v: &[AccountData]| {
                    let mut v: Vec<String> = v.iter().filter(|a| owners.get(&a.pubkey.to_bytes()[31]).map_or(true, |o| o.len() == 1)).map(sig).collect();
                    v.sort();
                    v
                };
                check!(still(&g) == still(&e), "{}: the slot notification reports {:?}, one storage {:?}", when, still(&g), still(&e));
            }
        }
        for c in COMMITMENTS {
            for k in 0..KEYS {
                let g = by.get_account(key(k), c).map_err(|_| "reading fails")?;
                let e = one.get_account(key(k), c).map_err(|_| "reading fails")?;
                check!(sigo(&g) == sigo(&e), "{}: account {} at {} reads {}, one storage reads {}", when, k, cname(c), sigo(&g), sigo(&e));
            }
            for p in 0..4 {
                for f in [None, Some(vec![crate::accounts::mem(0, &[1])])] {
                    let list = |s: &dyn AccountStorageInterface| -> Result<Vec<String>, String> {
                        let mut v: Vec<String> = s.get_program_accounts(prog(p), f.clone(), c).map_err(|_| format!("{}: program {} cannot be listed", when, p))?.iter().map(sig).collect();
                        v.sort();
                        Ok(v)
                    };
                    let (g, e) = (list(&by)?, list(one.as_ref())?);
                    check!(g == e, "{}: program {} at {} is listed as {:?}, by one storage as {:?}", when, p, cname(c), g, e);
                }
            }
        }
    }
    // snapshots of the composition, loaded into another
    let (to, one2) = (composed(cfg), inmem(&[0, 1, 2, 3]));
    for p in 0..4 {
        let b = by.create_snapshot(prog(p)).map_err(|_| "no snapshot")?;
        to.load_from_snapshot(prog(p), b).map_err(|_| "a snapshot cannot be loaded")?;
        one2.load_from_snapshot(prog(p), one.create_snapshot(prog(p)).map_err(|_| "no snapshot")?).map_err(|_| "a snapshot cannot be loaded")?;
    }
    for k in 0..KEYS {
        let g = to.get_account(key(k), Commitment::Finalized).map_err(|_| "reading fails")?;
        let e = one2.get_account(key(k), Commitment::Finalized).map_err(|_| "reading fails")?;
        check!(sigo(&g) == sigo(&e), "from the snapshots, account {} reads {}, from those of one storage {}", k, sigo(&g), sigo(&e));
    }
    Ok(moved)
}
fn gen_moves(r: &mut Rng) -> Vec<Op> {
    let len = 3 + r.us(22);
    let mut slot = 10u64;
    let mut par: BTreeMap<u64, u64> = BTreeMap::new();
    par.insert(10, 9);
    let mut seen = BTreeSet::new();
    let mut wv = 0;
    let mut dead = BTreeSet::new();
    let mut owned: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
    let (keys, progs) = (1 + r.below(3), 2 + r.below(3));
    (0..len)
        .map(|_| {
            if r.chance(1, 4) {
                let p = if r.chance(2, 3) { slot } else { *r.pick(&par.keys().copied().collect::<Vec<_>>()) };
                slot += 1 + r.below(2);
                par.insert(slot, p);
            }
            if r.chance(2, 5) {
                let s = *r.pick(&par.keys().copied().collect::<Vec<_>>());
                Op::Slot { slot: s, parent: par[&s], c: COMMITMENTS[match r.below(10) { 0 => 0, 1..=5 => 1, _ => 2 }] }
            } else {
                wv += 1;
                let (k, owner, tag) = (r.below(keys) as u8, r.below(progs) as u8, r.below(3) as u8);
                // an account that was deleted comes back under the program it always had, or not at all
                let before = owned.entry(k).or_default();
                let owner = if dead.contains(&k) { *before.iter().next().unwrap_or(&owner) } else { owner };
                let live = if dead.contains(&k) && before.len() > 1 { false } else { !r.chance(1, 6) };
                before.insert(owner);
                if !live {
                    dead.insert(k);
                }
                if live && seen.insert(k) && r.chance(1, 4) {
                    // from a snapshot that is older than every slot
                    Op::Init { k, owner, tag, slot: 5, wv: 0 }
                } else {
                    Op::Write { k, owner, live, tag, slot, wv, c: Commitment::Processed }
                }
            }
        })
        .collect()
}

pub fn suites(ctx: &mut Ctx) {
    let t = if ctx.thorough { 12 } else { 1 };
    ctx.histories(
        "dispatch",
        "storages that record what they are told and asked and answer as chosen, up to three programs dispatched to up to three storages (two programs may share one); non-trivial when a program is dispatched",
        6_000 * t,
        |r, _| {
            let map: Vec<u8> = (0..r.below(4)).map(|_| if r.below(8) == 0 { DEFAULT } else { r.below(3) as u8 }).collect();
            let scripts = (0..4).map(|_| Script { takes: r.chance(1, 2), has: r.chance(1, 3), fails: r.chance(1, 5), reports: r.below(3) as u8 }).collect();
            let asks = (0..1 + r.us(6))
                .map(|_| {
                    let (p, c) = (r.below(5) as u8, COMMITMENTS[r.us(3)]);
                    match r.below(9) {
                        0 | 1 => Ask::Update { owner: p, c },
                        2 => Ask::Init { owner: p },
                        3 | 4 => Ask::Get { c },
                        5 => Ask::List { p, c },
                        6 => Ask::Slot { slot: r.below(9), parent: r.below(9), c },
                        7 => Ask::Snapshot { p },
                        _ => Ask::Load { p },
                    }
                })
                .collect();
            vec![Scene { map, scripts, asks }]
        },
        run_scene,
    );
    for cfg in 0..4 {
        ctx.histories(
            &format!("dispatch-moves-{}", cfg),
            &format!("3-24 operations on 1-3 accounts that move between programs, with deletions, forks and slot notifications in any order, each account's writes in their order; compared after every operation with one storage of everything; composition {}; non-trivial when an account moved", cfg),
            1_200 * t,
            |r, _| gen_moves(r),
            |ops| {
                run_moves(cfg, ops)?;
                run_moves(cfg, ops)
            },
        );
    }
}
