// Executable contract of the in-memory account store: a reference model written from the contracts,
// run side by side with the real store.
use crate::check;
use crate::common::*;
use crate::fw::*;
use lite_account_manager_common::{
    account_data::{AccountData, CompressionMethod},
    account_filter::{AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::AccountStorageInterface,
    commitment::Commitment,
    mutable_filter_store::MutableFilterStore,
    simple_filter_store::SimpleFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone)]
pub enum Op {
    Write { k: u8, owner: u8, live: bool, tag: u8, slot: u64, wv: u64, c: Commitment },
    Init { k: u8, owner: u8, live: bool, tag: u8, slot: u64, wv: u64 },
    Slot { slot: u64, parent: u64, c: Commitment },
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Write { k, owner, live, tag, slot, wv, c } => write!(f, "write account {} owner={} {} content={} slot={} version={} as {}", k, owner, if *live { "live" } else { "deleted" }, tag, slot, wv, cname(*c)),
            Op::Init { k, owner, live, tag, slot, wv } => write!(f, "initialize account {} owner={} {} content={} slot={} version={}", k, owner, if *live { "live" } else { "deleted" }, tag, slot, wv),
            Op::Slot { slot, parent, c } => write!(f, "slot {} (parent {}) becomes {}", slot, parent, cname(*c)),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    Promotion,
    Lists,
    Reads,
    Admission,
    Snapshot,
}

#[derive(Clone, Default)]
pub struct Entry {
    id: usize,
    processed: BTreeMap<u64, AccountData>,
    confirmed: Option<AccountData>,
    finalized: Option<AccountData>,
}
struct Status {
    c: Commitment,
    parent: Option<u64>,
    accounts: BTreeSet<usize>,
}
fn older(a: &AccountData, b: &AccountData) -> bool {
    (a.updated_slot, a.write_version) < (b.updated_slot, b.write_version)
}
fn raise(cur: &mut Option<AccountData>, d: &AccountData) -> bool {
    let ch = cur.as_ref().map(|c| older(c, d)).unwrap_or(true);
    if ch {
        *cur = Some(d.clone());
    }
    ch
}
impl Entry {
    pub fn at(&self, c: Commitment) -> Option<AccountData> {
        match c {
            Commitment::Processed => self.processed.values().next_back().cloned().or(self.confirmed.clone()),
            Commitment::Confirmed => self.confirmed.clone(),
            Commitment::Finalized => self.finalized.clone(),
        }
    }
}
pub struct Model {
    pub accounts: BTreeMap<u8, Entry>,
    slots: BTreeMap<u64, Status>,
    next: usize,
    cfg: u64,
}
fn live(a: &AccountData) -> bool {
    a.account.lamports > 0
}
pub fn owner(n: u8) -> Pubkey {
    pkp(0x50, n)
}
pub fn akey(n: u8) -> Pubkey {
    pkp(0xa0, n)
}
fn name(p: &Pubkey) -> u8 {
    p.to_bytes()[31]
}
pub fn mem(offset: u64, b: &[u8]) -> AccountFilterType {
    AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(b.to_vec()) })
}
/// What the configuration `cfg` watches: 0 programs 0 and 1; 1 program 0 with content starting with 1
/// or 2, program 1, account 3; 2 everything of programs 0, 1, 2; 3 account 1 and program 0
fn filters(cfg: u64) -> Vec<AccountFilter> {
    let p = |n: u8, f: Option<Vec<AccountFilterType>>| AccountFilter { accounts: vec![], program_id: Some(owner(n)), filters: f };
    match cfg {
        0 => vec![p(0, None), p(1, None)],
        1 => vec![p(0, Some(vec![mem(0, &[1])])), p(0, Some(vec![mem(0, &[2])])), p(1, None), AccountFilter { accounts: vec![akey(3)], program_id: None, filters: None }],
        2 => vec![p(0, None), p(1, None), p(2, None)],
        _ => vec![AccountFilter { accounts: vec![akey(1)], program_id: None, filters: None }, p(0, None)],
    }
}
fn admits(cfg: u64, d: &AccountData) -> bool {
    let (k, o, t) = (name(&d.pubkey), name(&d.account.owner), d.account.data.data()[0]);
    match cfg {
        0 => o <= 1,
        1 => (o == 0 && (t == 1 || t == 2)) || o == 1 || k == 3,
        2 => o <= 2,
        _ => k == 1 || o == 0,
    }
}
fn whole_programs(cfg: u64) -> Vec<u8> {
    match cfg {
        0 => vec![0, 1],
        1 => vec![1],
        2 => vec![0, 1, 2],
        _ => vec![0],
    }
}
impl Model {
    pub fn new(cfg: u64) -> Self {
        Model { accounts: Default::default(), slots: Default::default(), next: 0, cfg }
    }
    fn record(&mut self, slot: u64, id: usize, c: Commitment) -> Commitment {
        let s = self.slots.entry(slot).or_insert(Status { c, parent: None, accounts: Default::default() });
        if c != Commitment::Finalized {
            s.accounts.insert(id);
        }
        s.c.max(c)
    }
    pub fn write(&mut self, d: AccountData, c0: Commitment) -> bool {
        let k = name(&d.pubkey);
        if !self.accounts.contains_key(&k) {
            if !admits(self.cfg, &d) {
                return false;
            }
            let id = self.next;
            self.next += 1;
            let c = self.record(d.updated_slot, id, c0);
            let mut e = Entry { id, ..Default::default() };
            e.processed.insert(d.updated_slot, d.clone());
            if c != Commitment::Processed {
                e.confirmed = Some(d.clone());
            }
            if c == Commitment::Finalized {
                e.finalized = Some(d);
            }
            self.accounts.insert(k, e);
            return true;
        }
        let id = self.accounts[&k].id;
        let c = self.record(d.updated_slot, id, c0);
        let e = self.accounts.get_mut(&k).unwrap();
        let prev = e.at(c);
        let mut changed = false;
        if e.processed.get(&d.updated_slot).map(|p| p.write_version < d.write_version).unwrap_or(true) {
            e.processed.insert(d.updated_slot, d.clone());
            changed = true;
        }
        if c != Commitment::Processed {
            let ch = raise(&mut e.confirmed, &d);
            changed |= ch && c == Commitment::Confirmed;
        }
        if c == Commitment::Finalized {
            changed |= raise(&mut e.finalized, &d);
        }
        if changed {
            if let Some(p) = prev {
                self.maybe_drop(k, &p, &d, c);
            }
        }
        changed
    }
    fn maybe_drop(&mut self, k: u8, prev: &AccountData, new: &AccountData, c: Commitment) {
        if c == Commitment::Finalized && prev.account.owner != new.account.owner && (!live(new) || !admits(self.cfg, new)) {
            if !self.accounts[&k].at(Commitment::Processed).map(|p| older(new, &p)).unwrap_or(false) {
                self.accounts.remove(&k);
            }
        }
    }
    pub fn slot(&mut self, slot: u64, parent: u64, c: Commitment) -> Vec<AccountData> {
        let mut tops: BTreeMap<usize, u64> = Default::default();
        let mut cur = Some(slot);
        while let Some(s) = cur {
            let st = self.slots.entry(s).or_insert(Status { c, parent: None, accounts: Default::default() });
            if s == slot {
                st.parent = Some(parent);
            }
            if st.c < c {
                st.c = c;
                for a in &st.accounts {
                    tops.entry(*a).or_insert(s);
                }
            }
            cur = if c == Commitment::Processed { None } else { st.parent.filter(|p| *p < s) };
        }
        if c == Commitment::Finalized {
            self.slots.retain(|s, _| *s >= slot);
        }
        let mut out = vec![];
        for k in self.accounts.keys().copied().collect::<Vec<_>>() {
            let e = self.accounts.get_mut(&k).unwrap();
            let Some(t) = tops.get(&e.id).copied() else { continue };
            let d = e.processed.get(&t).cloned();
            let mut exp = None;
            if let Some(d) = d {
                let prev = e.at(c);
                let a = raise(&mut e.confirmed, &d);
                let b = if c == Commitment::Finalized { raise(&mut e.finalized, &d) } else { a };
                if b {
                    exp = Some((d, prev));
                }
            }
            if c == Commitment::Finalized {
                let last = e.processed.keys().next_back().copied();
                e.processed.retain(|k, _| *k >= t || Some(*k) == last);
            }
            if let Some((d, prev)) = exp {
                if let Some(p) = prev {
                    self.maybe_drop(k, &p, &d, c);
                }
                out.push(d);
            }
        }
        out
    }
}

pub fn data_of(tag: u8, slot: u64, wv: u64) -> Vec<u8> {
    let mut v = vec![tag, 7, slot as u8, wv as u8];
    v.extend(std::iter::repeat(tag).take(tag as usize));
    v
}
fn mk(k: u8, o: u8, l: bool, tag: u8, slot: u64, wv: u64, n: usize) -> AccountData {
    let m = match n % 5 {
        1 => CompressionMethod::Lz4(1),
        3 => CompressionMethod::Zstd(1),
        _ => CompressionMethod::None,
    };
    account_c(akey(k), owner(o), if l { 1 + n as u64 } else { 0 }, &data_of(tag, slot, wv), slot, wv, m)
}
pub fn store(cfg: u64) -> InmemoryAccountStore {
    let f: Arc<dyn AccountFiltersStoreInterface> = if cfg % 2 == 0 {
        let mut s = SimpleFilterStore::default();
        s.add_account_filters(&filters(cfg));
        Arc::new(s)
    } else {
        let s = MutableFilterStore::default();
        s.add_account_filters(&filters(cfg));
        Arc::new(s)
    };
    InmemoryAccountStore::new(f)
}
fn shown(e: Option<&Entry>, c: Commitment) -> Option<AccountData> {
    e.and_then(|e| e.at(c)).filter(live)
}
fn requests(cfg: u64) -> Vec<(u8, Option<Vec<AccountFilterType>>)> {
    let mut v: Vec<(u8, Option<Vec<AccountFilterType>>)> = vec![];
    for p in whole_programs(cfg) {
        v.push((p, None));
        v.push((p, Some(vec![])));
        v.push((p, Some(vec![mem(0, &[1])])));
        v.push((p, Some(vec![mem(0, &[2]), AccountFilterType::Datasize(6)])));
        v.push((p, Some(vec![AccountFilterType::Datasize(4)])));
    }
    if cfg == 1 {
        v.push((0, Some(vec![mem(0, &[1])])));
        v.push((0, Some(vec![mem(0, &[2]), mem(1, &[7])])));
    }
    v
}
fn allowed(fs: &Option<Vec<AccountFilterType>>, data: &[u8]) -> bool {
    fs.as_ref().map(|fs| fs.iter().all(|f| match f {
        AccountFilterType::Datasize(n) => data.len() as u64 == *n,
        AccountFilterType::Memcmp(m) => {
            let MemcmpFilterData::Bytes(b) = &m.data else { return false };
            data.get(m.offset as usize..m.offset as usize + b.len()) == Some(&b[..])
        }
    })).unwrap_or(true)
}
pub const KEYS: u8 = 5;

pub fn check_lists(st: &InmemoryAccountStore, cfg: u64, ctx: &str) -> Result<bool, String> {
    let mut any = false;
    for c in COMMITMENTS {
        let reads: Vec<AccountData> = (0..KEYS).filter_map(|k| st.get_account(akey(k), c).ok().flatten()).collect();
        for (p, fs) in requests(cfg) {
            let got = match st.get_program_accounts(owner(p), fs.clone(), c) {
                Ok(v) => v,
                Err(e) => return Err(format!("{}: accounts of program {} with {:?} at {} are refused with {:?} although the store watches them", ctx, p, fs, cname(c), e)),
            };
            let mut g: Vec<String> = got.iter().map(sig).collect();
            let mut e: Vec<String> = reads.iter().filter(|a| a.account.owner == owner(p) && allowed(&fs, &a.account.data.data())).map(sig).collect();
            g.sort();
            e.sort();
            any |= !e.is_empty();
            check!(g == e, "{}: accounts of program {} with {:?} at {} are {:?}, the accounts read one by one are {:?}", ctx, p, fs, cname(c), g, e);
        }
        check!(st.get_program_accounts(pk(200), None, c).is_err(), "{}: accounts of a program that is not watched are answered", ctx);
    }
    Ok(any)
}

pub fn run(aspect: Aspect, cfg: u64, ops: &[Op]) -> Result<bool, String> {
    let st = store(cfg);
    let mut m = Model::new(cfg);
    let mut nt = false;
    for (n, op) in ops.iter().enumerate() {
        let ctx = format!("after operation {} ({:?})", n + 1, op);
        match op {
            Op::Write { k, owner, live, tag, slot, wv, c } => {
                let d = mk(*k, *owner, *live, *tag, *slot, *wv, n);
                let known = m.accounts.contains_key(k);
                let exp = m.write(d.clone(), *c);
                let got = st.update_account(d, *c);
                if aspect == Aspect::Admission {
                    check!(got == exp, "{}: the update reported {}, expected {}", ctx, got, exp);
                    nt |= !exp || known;
                }
            }
            Op::Init { k, owner, live, tag, slot, wv } => {
                let d = mk(*k, *owner, *live, *tag, *slot, *wv, n);
                m.write(d.clone(), Commitment::Finalized);
                st.initilize_or_update_account(d);
            }
            Op::Slot { slot, parent, c } => {
                let exp = m.slot(*slot, *parent, *c);
                let got = st.process_slot_data(SlotInfo { slot: *slot, parent: *parent, root: 0 }, *c);
                if aspect == Aspect::Promotion {
                    let mut g: Vec<String> = got.iter().map(sig).collect();
                    let mut e: Vec<String> = exp.iter().map(sig).collect();
                    g.sort();
                    e.sort();
                    check!(g == e, "{}: newly visible accounts are {:?}, expected {:?}", ctx, g, e);
                    nt |= !e.is_empty();
                }
            }
        }
        if matches!(aspect, Aspect::Promotion | Aspect::Reads | Aspect::Admission) {
            for k in 0..KEYS {
                for c in COMMITMENTS {
                    let e = shown(m.accounts.get(&k), c);
                    let g = st.get_account(akey(k), c).map_err(|e| format!("{}: reading account {} fails with {:?}", ctx, k, e))?;
                    check!(sigo(&g) == sigo(&e), "{}: account {} at {} reads {}, expected {}", ctx, k, cname(c), sigo(&g), sigo(&e));
                    if aspect == Aspect::Reads {
                        nt |= e.is_none() && m.accounts.get(&k).map(|x| x.at(c).is_some()).unwrap_or(false);
                    }
                }
            }
        }
        if aspect == Aspect::Lists {
            nt |= check_lists(&st, cfg, &ctx)?;
        }
    }
    if aspect == Aspect::Snapshot {
        let fin: Vec<AccountData> = (0..KEYS).filter_map(|k| st.get_account(akey(k), Commitment::Finalized).unwrap()).collect();
        for p in whole_programs(cfg) {
            let snap = st.create_snapshot(owner(p)).map_err(|e| format!("the snapshot of program {} fails: {:?}", p, e))?;
            let fresh = store(cfg);
            fresh.load_from_snapshot(owner(p), snap.clone()).map_err(|e| format!("loading the snapshot of program {} fails: {:?}", p, e))?;
            for k in 0..KEYS {
                let e = fin.iter().find(|a| a.pubkey == akey(k) && a.account.owner == owner(p)).cloned();
                nt |= e.is_some();
                for c in COMMITMENTS {
                    let g = fresh.get_account(akey(k), c).unwrap();
                    check!(sigo(&g) == sigo(&e), "account {} of program {} at {} after loading the snapshot reads {}, it was {}", k, p, cname(c), sigo(&g), sigo(&e));
                }
            }
            check_lists(&fresh, cfg, "after loading the snapshot")?;
            // loading it into the store that made it changes nothing
            let before: Vec<String> = (0..KEYS).flat_map(|k| COMMITMENTS.map(|c| sigo(&st.get_account(akey(k), c).unwrap()))).collect();
            st.load_from_snapshot(owner(p), snap.clone()).map_err(|e| format!("loading the snapshot of program {} fails: {:?}", p, e))?;
            let after: Vec<String> = (0..KEYS).flat_map(|k| COMMITMENTS.map(|c| sigo(&st.get_account(akey(k), c).unwrap()))).collect();
            check!(before == after, "loading its own snapshot of program {} changed the store from {:?} to {:?}", p, before, after);
            // a damaged snapshot is refused
            if snap.len() > 9 {
                let cut = snap[..snap.len() - 1].to_vec();
                let f2 = store(cfg);
                check!(f2.load_from_snapshot(owner(p), cut).is_err(), "a snapshot that lacks its last byte is accepted");
                check!((0..KEYS).all(|k| COMMITMENTS.iter().all(|c| f2.get_account(akey(k), *c).unwrap().is_none())), "a refused snapshot left accounts behind");
            }
        }
        check!(st.create_snapshot(pk(200)).is_err(), "a snapshot of a program that is not watched is made");
    }
    Ok(nt)
}

pub struct Shape {
    pub slots: Vec<u64>,
    pub keys: u8,
    pub owners: u8,
    pub parents: u8, // 0 chain, 1 chain with skips, 2 forks
    pub slot_ops: u64, // per 20
    pub low: bool, // mostly processed writes
}
pub fn gen_ops(r: &mut Rng, sh: &Shape, len: usize) -> Vec<Op> {
    // a fixed parent for every slot
    let par: Vec<u64> = (0..sh.slots.len())
        .map(|i| match (i, sh.parents) {
            (0, _) => sh.slots[0].saturating_sub(1),
            (i, 0) => sh.slots[i - 1],
            (i, 1) => sh.slots[i - 1 - r.us(2.min(i))],
            (i, _) => sh.slots[r.us(i)],
        })
        .collect();
    (0..len)
        .map(|_| {
            if r.below(20) < sh.slot_ops {
                let i = r.us(sh.slots.len());
                Op::Slot { slot: sh.slots[i], parent: par[i], c: COMMITMENTS[match r.below(10) { 0..=2 => 0, 3..=7 => 1, _ => 2 }] }
            } else {
                let (k, owner) = (r.below(sh.keys as u64) as u8, r.below(sh.owners as u64) as u8);
                let slot = *r.pick(&sh.slots);
                let (live, tag, wv) = (!r.chance(1, 6), r.below(4) as u8, r.below(4));
                if r.chance(1, 14) {
                    Op::Init { k, owner, live, tag, slot, wv }
                } else {
                    let c = if sh.low { COMMITMENTS[match r.below(12) { 0..=9 => 0, 10 => 1, _ => 2 }] } else { COMMITMENTS[r.us(3)] };
                    Op::Write { k, owner, live, tag, slot, wv, c }
                }
            }
        })
        .collect()
}
fn shape(r: &mut Rng, slot_ops: u64, low: bool) -> Shape {
    let slots: Vec<u64> = match r.below(5) {
        0 => vec![0, 1, 2, 3],
        1 => vec![5, 6],
        2 => (10..18).collect(),
        3 => vec![3, 50, 51, u64::MAX - 1, u64::MAX],
        _ => (20..32).collect(),
    };
    Shape { slots, keys: 1 + r.below(KEYS as u64 - 1) as u8, owners: 1 + r.below(4) as u8, parents: r.below(3) as u8, slot_ops, low }
}

fn by_cfg(ctx: &mut Ctx, suite: &str, rule: &str, n: u64, aspect: Aspect, gen: impl Fn(&mut Rng, u64) -> Vec<Op>) {
    for cfg in 0..4u64 {
        ctx.histories(&format!("{}-{}", suite, cfg), &format!("{}; filter configuration {}", rule, cfg), n, &gen, |ops| run(aspect, cfg, ops));
    }
}
pub fn suites_promotion(ctx: &mut Ctx) {
    let w = |k: u8, slot: u64, wv: u64, c: Commitment| Op::Write { k, owner: 0, live: true, tag: 1, slot, wv, c };
    let s = |slot: u64, parent: u64, c: Commitment| Op::Slot { slot, parent, c };
    use Commitment::*;
    let al = vec![w(1, 5, 1, Processed), w(1, 6, 1, Processed), w(2, 5, 1, Processed), w(2, 6, 2, Confirmed), s(5, 4, Processed), s(6, 5, Processed), s(6, 5, Confirmed), s(7, 6, Confirmed), s(7, 6, Finalized), s(5, 4, Finalized), w(1, 7, 1, Processed)];
    let len = if ctx.thorough { 5 } else { 4 };
    ctx.enumerate("promotion-small", "two accounts, three slots in a chain, writes and slot notifications; non-trivial when a slot notification made a write visible", &al, len, |ops| run(Aspect::Promotion, 0, ops));
    let n = if ctx.thorough { 30_000 } else { 2_500 };
    by_cfg(ctx, "promotion-random", "4-40 operations over 1-4 accounts, chains, skips and forks of 2-12 slots, slots notified in any order and repeatedly; non-trivial when a slot notification made a write visible", n, Aspect::Promotion, |r, _| {
        let (so, len) = (6 + r.below(8), 4 + r.us(37));
        let mut sh = shape(r, so, true);
        if r.chance(2, 3) {
            sh.owners = 1;
        }
        gen_ops(r, &sh, len)
    });
}
pub fn suites_lists(ctx: &mut Ctx) {
    let n = if ctx.thorough { 15_000 } else { 1_500 };
    by_cfg(ctx, "program-accounts", "3-25 operations over 1-4 accounts and 1-4 owners, with deletions, owner changes, out-of-order writes and slot notifications, listed after every operation for every watched program and several filters; non-trivial when a listing is not empty", n, Aspect::Lists, |r, _| {
        let (so, len) = (r.below(9), 3 + r.us(23));
        let sh = { let l = r.chance(1, 2); shape(r, so, l) };
        gen_ops(r, &sh, len)
    });
}
pub fn suites_reads(ctx: &mut Ctx) {
    let n = if ctx.thorough { 30_000 } else { 2_500 };
    by_cfg(ctx, "reads", "3-30 writes over 1-4 accounts and 1-4 owners with a third deletions; every account read at every commitment after every operation; non-trivial when a deleted account is read", n, Aspect::Reads, |r, _| {
        let len = 3 + r.us(28);
        let sh = { let l = r.chance(1, 2); shape(r, 0, l) };
        let mut v = gen_ops(r, &sh, len);
        for o in v.iter_mut() {
            if let Op::Write { live, .. } | Op::Init { live, .. } = o {
                *live = !r.chance(1, 3);
            }
        }
        v
    });
}
pub fn suites_admission(ctx: &mut Ctx) {
    let n = if ctx.thorough { 30_000 } else { 2_500 };
    by_cfg(ctx, "admission", "3-30 operations over 1-4 accounts and 1-4 owners, most of them outside the filters, on slots already confirmed or finalized; non-trivial when a write is refused or repeats", n, Aspect::Admission, |r, _| {
        let (so, len) = (r.below(8), 3 + r.us(28));
        let mut sh = { let l = r.chance(1, 2); shape(r, so, l) };
        sh.owners = 4;
        gen_ops(r, &sh, len)
    });
}
pub fn suites_snapshot(ctx: &mut Ctx) {
    let n = if ctx.thorough { 20_000 } else { 1_500 };
    by_cfg(ctx, "snapshot", "3-30 operations over 1-4 accounts and 1-4 owners, then a snapshot of every watched program loaded into an empty store and into its own; non-trivial when a snapshot holds an account", n, Aspect::Snapshot, |r, _| {
        let (so, len) = (r.below(9), 3 + r.us(28));
        let sh = { let l = r.chance(1, 4); shape(r, so, l) };
        gen_ops(r, &sh, len)
    });
}
