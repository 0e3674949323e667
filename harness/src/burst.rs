// Executable contracts of writes at the same time: what is there afterwards is what the same writes
// leave one after the other. Only writes whose outcome does not depend on their order are used.
use crate::check;
use crate::common::*;
use crate::fw::*;
use lite_account_manager_common::{
    account_data::AccountData, account_filter::{AccountFilter, AccountFilterType}, account_filters_interface::AccountFiltersStoreInterface, account_store_interface::AccountStorageInterface, commitment::Commitment,
    mutable_filter_store::MutableFilterStore, slot_info::SlotInfo,
};
use lite_account_storage::{inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId};
use lite_token_account_storage::{
    account_types::{Program, TokenAccount, TokenProgramAccountState},
    inmemory_token_account_storage::InmemoryTokenAccountStorage,
    inmemory_token_storage::TokenProgramAccountsStorage,
    token_account_storage_interface::TokenAccountStorageInterface,
};
use solana_sdk::program_pack::Pack;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Barrier};

#[derive(Clone, Debug)]
pub struct Burst {
    dispatched: bool,
    threads: u8,
    ops: u8,
    keys: u8,
    /// processed only, and all slots finalized afterwards
    processed: bool,
    seed: u64,
}
fn key(n: u8) -> Pubkey {
    pkp(0xb1, n)
}
fn prog(n: u8) -> Pubkey {
    pkp(0xb2, n)
}
/// Runs f for each thread number at once.
fn at_once<T: Send + 'static>(n: u8, f: impl Fn(u8) -> Result<T, String> + Send + Sync + 'static) -> Result<Vec<T>, String> {
    let (f, start) = (Arc::new(f), Arc::new(Barrier::new(n as usize)));
    let v: Vec<_> = (0..n)
        .map(|t| {
            let (f, start) = (f.clone(), start.clone());
            std::thread::spawn(move || {
                start.wait();
                guarded(|| f(t))
            })
        })
        .collect();
    v.into_iter().map(|h| h.join().map_err(|_| "a thread ended".to_string())?).collect()
}
/// the numbers 0..n in some order
fn shuffled(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n as u64).collect();
    for i in (1..n).rev() {
        v.swap(i, r.us(i + 1));
    }
    v
}
type Write = (AccountData, Commitment);
fn plan(c: &Burst) -> Vec<Vec<Write>> {
    let mut r = Rng::new(c.seed);
    let slots = shuffled(&mut r, c.threads as usize * c.ops as usize);
    let mut i = 0;
    (0..c.threads)
        .map(|_| {
            (0..c.ops)
                .map(|_| {
                    let slot = 10 + slots[i];
                    i += 1;
                    let n = r.below(c.keys as u64) as u8;
                    let owner = if c.dispatched { n % 2 } else { r.below(2) as u8 };
                    let com = if c.processed || r.chance(1, 2) { Commitment::Processed } else { COMMITMENTS[r.us(3)] };
                    (account(key(n), prog(owner), 1000, &[slot as u8, 1, n], slot, 1 + r.below(3)), com)
                })
                .collect()
        })
        .collect()
}
fn run_accounts(cs: &[Burst]) -> Result<bool, String> {
    for c in cs {
        let f = MutableFilterStore::default();
        f.add_account_filters(&(0..2).map(|n| AccountFilter { accounts: vec![], program_id: Some(prog(n)), filters: None }).collect());
        let f = Arc::new(f);
        let one = Arc::new(InmemoryAccountStore::new(f.clone()));
        let st: Arc<dyn AccountStorageInterface> = if c.dispatched {
            let other: Arc<dyn AccountStorageInterface> = Arc::new(InmemoryAccountStore::new(f));
            Arc::new(StorageByProgramId::new(HashMap::from([(prog(1), other)]), one))
        } else {
            one
        };
        let plan = Arc::new(plan(c));
        let (p, s) = (plan.clone(), st.clone());
        let said = at_once(c.threads, move |t| Ok(p[t as usize].iter().map(|(a, com)| s.update_account(a.clone(), *com)).collect::<Vec<bool>>()))?;
        let all: Vec<(&Write, bool)> = plan.iter().zip(&said).flat_map(|(v, s)| v.iter().zip(s.iter().copied())).collect();
        if c.processed {
            let mut slots: Vec<u64> = all.iter().map(|w| w.0 .0.updated_slot).collect();
            slots.sort();
            for s in slots {
                st.process_slot_data(SlotInfo { slot: s, parent: s - 1, root: s - 1 }, Commitment::Finalized);
            }
        }
        let mut alive: BTreeMap<(String, u8), Vec<String>> = BTreeMap::new();
        for n in 0..c.keys {
            for com in COMMITMENTS {
                let newest = all.iter().filter(|w| w.0 .0.pubkey == key(n) && (c.processed || w.0 .1 as u8 >= com as u8)).max_by_key(|w| w.0 .0.updated_slot);
                let got = st.get_account(key(n), com).map_err(|e| format!("reading failed: {:?}", e))?;
                let want = newest.map(|w| w.0 .0.clone());
                check!(sigo(&got) == sigo(&want), "after writes at the same time, {} at {} is\n{}\ninstead of the newest\n{}", short(&key(n)), cname(com), sigo(&got), sigo(&want));
                if let Some(w) = newest {
                    check!(w.1 || com != Commitment::Processed, "the newest write was reported as not taken: {}", sig(&w.0 .0));
                    let owner = if w.0 .0.account.owner == prog(0) { 0 } else { 1 };
                    alive.entry((cname(com).into(), owner)).or_default().push(sig(&w.0 .0));
                }
            }
        }
        for com in COMMITMENTS {
            for p in 0..2 {
                let mut got: Vec<String> = match st.get_program_accounts(prog(p), None, com) {
                    Ok(v) => v.iter().map(sig).collect(),
                    Err(e) => return Err(format!("listing failed: {:?}", e)),
                };
                got.sort();
                let mut want = alive.get(&(cname(com).into(), p)).cloned().unwrap_or_default();
                want.sort();
                check!(got == want, "after writes at the same time, the list of {} at {} is\n{}\ninstead of\n{}", short(&prog(p)), cname(com), got.join("\n"), want.join("\n"));
            }
        }
    }
    Ok(true)
}
fn run_reports(cs: &[Burst]) -> Result<bool, String> {
    for c in cs {
        let f = MutableFilterStore::default();
        f.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None }]);
        let st = Arc::new(InmemoryAccountStore::new(Arc::new(f)));
        let mut r = Rng::new(c.seed);
        let com = if c.processed { Commitment::Finalized } else { Commitment::Confirmed };
        let mut newest: BTreeMap<u8, AccountData> = BTreeMap::new();
        for slot in 10..10 + c.ops as u64 {
            // one thread reports the slot, the others write in it
            let plan: Vec<Vec<AccountData>> = (0..c.threads)
                .map(|t| {
                    (0..1 + r.below(2))
                        .map(|i| {
                            let n = r.below(c.keys as u64) as u8;
                            account(key(n), prog(0), 1000, &[slot as u8, t, i as u8], slot, 1 + t as u64 * 2 + i)
                        })
                        .collect()
                })
                .collect();
            let (plan, s, wait) = (Arc::new(plan), st.clone(), r.below(400));
            let p = plan.clone();
            at_once(c.threads + 1, move |t| {
                if t == 0 {
                    for _ in 0..wait {
                        std::hint::spin_loop();
                    }
                    s.process_slot_data(SlotInfo { slot, parent: slot - 1, root: slot - 1 }, com);
                } else {
                    for a in &p[t as usize - 1] {
                        s.update_account(a.clone(), Commitment::Processed);
                    }
                }
                Ok(())
            })?;
            for a in plan.iter().flatten() {
                let n = (0..c.keys).find(|n| key(*n) == a.pubkey).unwrap();
                let e = newest.entry(n).or_insert(a.clone());
                if (a.updated_slot, a.write_version) > (e.updated_slot, e.write_version) {
                    *e = a.clone();
                }
            }
            for (n, a) in &newest {
                for at in [Commitment::Processed, com] {
                    let got = st.get_account(key(*n), at).map_err(|e| format!("reading failed: {:?}", e))?;
                    check!(sigo(&got) == sig(a), "slot {} was reported as {} and written at the same time: {} at {} is\n{}\ninstead of\n{}", slot, cname(com), short(&key(*n)), cname(at), sigo(&got), sig(a));
                }
            }
        }
    }
    Ok(true)
}
fn run_readers(cs: &[Burst]) -> Result<bool, String> {
    for c in cs {
        let f = MutableFilterStore::default();
        f.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None }]);
        let st = Arc::new(InmemoryAccountStore::new(Arc::new(f)));
        for n in 0..c.keys {
            st.initilize_or_update_account(account(key(n), prog(0), 1000, &[9], 9, 1));
        }
        let (s, c2) = (st.clone(), c.clone());
        // thread 0 writes, thread 1 reports the slots, the others read
        at_once(c.threads.max(3), move |t| {
            let mut r = Rng::new(c2.seed.wrapping_add(t as u64));
            let mut last: BTreeMap<(u8, u8), u64> = BTreeMap::new();
            for i in 0..c2.ops as u64 * 4 {
                match t {
                    0 => {
                        s.update_account(account(key(r.below(c2.keys as u64) as u8), prog(0), 1000, &[i as u8], 10 + i, 1), Commitment::Processed);
                    }
                    1 => {
                        s.process_slot_data(SlotInfo { slot: 10 + i, parent: 9 + i, root: 9 + i }, if i % 2 == 0 { Commitment::Confirmed } else { Commitment::Finalized });
                    }
                    _ => {
                        let com = COMMITMENTS[r.us(3)];
                        let seen: Vec<(u8, u64)> = if r.chance(1, 2) {
                            let list = s.get_program_accounts(prog(0), None, com).map_err(|e| format!("listing failed: {:?}", e))?;
                            for n in 0..c2.keys {
                                let k = list.iter().filter(|a| a.pubkey == key(n)).count();
                                check!(k == 1, "a list at {} read while its accounts are updated holds {} {} times", cname(com), short(&key(n)), k);
                            }
                            list.iter().map(|a| ((0..c2.keys).find(|n| key(*n) == a.pubkey).unwrap(), a.updated_slot)).collect()
                        } else {
                            let n = r.below(c2.keys as u64) as u8;
                            let a = s.get_account(key(n), com).map_err(|e| format!("reading failed: {:?}", e))?;
                            check!(a.is_some(), "{} is not there at {} while it is updated", short(&key(n)), cname(com));
                            vec![(n, a.unwrap().updated_slot)]
                        };
                        for (n, slot) in seen {
                            let l = last.entry((n, com as u8)).or_insert(slot);
                            check!(*l <= slot, "{} at {} was read with slot {}, and then with slot {}", short(&key(n)), cname(com), l, slot);
                            *l = slot;
                        }
                    }
                }
            }
            Ok(())
        })?;
    }
    Ok(true)
}
fn token_account(n: u8, mint: u8, amount: u64) -> Vec<u8> {
    let t = spl_token::state::Account { mint: key(200 + mint), owner: key(100 + n % 2), amount, state: spl_token::state::AccountState::Initialized, ..Default::default() };
    let mut d = vec![0; 165];
    t.pack_into_slice(&mut d);
    d
}
fn run_tokens(cs: &[Burst]) -> Result<bool, String> {
    for c in cs {
        let st = Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())));
        let mut r = Rng::new(c.seed);
        let slots = shuffled(&mut r, c.threads as usize * c.ops as usize);
        let mints = 1 + r.below(4) as u8;
        let mut i = 0;
        // None: given at the start, once for each account
        let mut first: HashSet<Pubkey> = HashSet::new();
        let plan: Vec<Vec<(AccountData, bool)>> = (0..c.threads)
            .map(|_| {
                (0..c.ops)
                    .map(|_| {
                        let slot = 10 + slots[i];
                        i += 1;
                        let (k, d) = if r.chance(1, 5) {
                            let m = r.below(mints as u64) as u8;
                            let a = spl_token::state::Mint { supply: slot, decimals: m, is_initialized: true, ..Default::default() };
                            let mut d = vec![0; 82];
                            a.pack_into_slice(&mut d);
                            (key(200 + m), d)
                        } else {
                            let n = r.below(c.keys as u64) as u8;
                            (key(n), token_account(n, n % mints, slot))
                        };
                        let start = r.chance(1, 4) && first.insert(k);
                        (account(k, spl_token::id(), 2_039_280, &d, if start { 0 } else { slot }, 1), start)
                    })
                    .collect()
            })
            .collect();
        let plan = Arc::new(plan);
        let (p, s) = (plan.clone(), st.clone());
        at_once(c.threads, move |t| {
            for (a, start) in &p[t as usize] {
                if *start {
                    s.initilize_or_update_account(a.clone());
                } else {
                    s.update_account(a.clone(), Commitment::Processed);
                }
            }
            Ok(())
        })?;
        for s in 10..10 + slots.len() as u64 {
            st.process_slot_data(SlotInfo { slot: s, parent: s - 1, root: s - 1 }, Commitment::Finalized);
        }
        let mut newest: BTreeMap<Pubkey, &AccountData> = BTreeMap::new();
        for (a, _) in plan.iter().flatten() {
            let e = newest.entry(a.pubkey).or_insert(a);
            if a.updated_slot > e.updated_slot {
                *e = a;
            }
        }
        for (k, a) in &newest {
            for com in COMMITMENTS {
                let got = st.get_account(*k, com).map_err(|e| format!("reading failed: {:?}", e))?;
                let same = got.as_ref().map(|g| g.account.owner == a.account.owner && g.account.data.data() == a.account.data.data()).unwrap_or(false);
                check!(same, "after writes at the same time, {} at {} is\n{}\ninstead of the newest\n{}", short(k), cname(com), sigo(&got), sig(a));
            }
        }
        // the mints, the accounts of each owner, the accounts of each mint
        let mut lists = vec![(82, None)];
        lists.extend((0..2).map(|o| (165, Some((32, key(100 + o))))));
        lists.extend((0..mints).map(|m| (165, Some((0, key(200 + m))))));
        for (len, part) in lists {
            let mut q = vec![AccountFilterType::Datasize(len)];
            q.extend(part.map(|(at, k): (u64, Pubkey)| crate::tokens::mem(at, &k.to_bytes())));
            let mut got: Vec<Pubkey> = st.get_program_accounts(spl_token::id(), Some(q), Commitment::Finalized).map_err(|e| format!("listing failed: {:?}", e))?.iter().map(|a| a.pubkey).collect();
            got.sort();
            let want: Vec<Pubkey> = newest
                .iter()
                .filter(|(_, a)| {
                    let d = a.account.data.data();
                    d.len() == len as usize && part.map(|(at, k)| d[at as usize..at as usize + 32] == k.to_bytes()).unwrap_or(true)
                })
                .map(|(k, _)| *k)
                .collect();
            check!(got == want, "after writes at the same time, the list of the accounts of {} bytes of {:?} holds {:?} instead of {:?}", len, part, got.iter().map(short).collect::<Vec<_>>(), want.iter().map(short).collect::<Vec<_>>());
        }
    }
    Ok(true)
}
fn stored(k: Pubkey, amount: u64) -> TokenAccount {
    TokenAccount {
        program: Program::TokenProgram,
        is_deleted: false,
        pubkey: k,
        owner: key(9),
        mint: 3,
        amount,
        state: TokenProgramAccountState::Initialized,
        delegate: None,
        is_native: None,
        close_authority: None,
        additional_data: None,
    }
}
fn run_index(cs: &[Burst]) -> Result<bool, String> {
    for c in cs {
        let st = Arc::new(InmemoryTokenAccountStorage::default());
        let (s, c2) = (st.clone(), c.clone());
        // each thread has accounts of its own, and all save one more
        // most of them with beginnings of their own
        let own = |t: u8, n: u8| if n % 4 == 3 { pkp(0xb3, 1 + t * 8 + n) } else { Pubkey::new_from_array([1 + t * 8 + n; 32]) };
        let left = at_once(c.threads, move |t| {
            let mut r = Rng::new(c2.seed.wrapping_add(t as u64));
            let mut left: BTreeMap<Pubkey, Option<u64>> = BTreeMap::new();
            for i in 0..c2.ops as u64 {
                let k = own(t, r.below(c2.keys.min(8) as u64) as u8);
                if r.chance(1, 6) {
                    s.delete(&k);
                    left.insert(k, None);
                } else {
                    let amount = t as u64 * 1000 + i;
                    s.save_or_update(stored(k, amount));
                    left.insert(k, Some(amount));
                    let back = s.get_by_pubkey(&k).map(|a| (a.pubkey, a.amount));
                    check!(back == Some((k, amount)), "an account that was saved with {} reads as {:?} (nobody else writes it)", amount, back);
                }
                if r.chance(1, 4) {
                    s.save_or_update(stored(own(20, 0), 7));
                }
            }
            s.save_or_update(stored(own(20, 0), 7));
            Ok(left)
        })?;
        let mut live: BTreeMap<Pubkey, Option<u64>> = left.into_iter().flatten().collect();
        live.insert(own(20, 0), Some(7));
        let mut seen = HashSet::new();
        for (k, amount) in &live {
            let back = st.get_by_pubkey(k).map(|a| a.amount);
            check!(back == *amount, "after saves and deletions at the same time, {} reads as {:?} instead of {:?}", short(k), back, amount);
            let ix = st.contains(k);
            check!(ix.is_some() == amount.is_some(), "{} is stored: {:?} instead of {}", short(k), ix, amount.is_some());
            if let Some(ix) = ix {
                check!(seen.insert(ix), "two accounts are stored in one place ({})", ix);
                let by = st.get_by_index(HashSet::from([ix])).map_err(|e| format!("reading by index failed: {:?}", e))?;
                check!(by.len() == 1 && by[0].pubkey == *k, "the place of {} holds {:?}", short(k), by.iter().map(|a| short(&a.pubkey)).collect::<Vec<_>>());
            }
        }
        let snap = st.create_snapshot(Program::TokenProgram).map_err(|e| format!("the snapshot failed: {:?}", e))?;
        let n = live.values().filter(|x| x.is_some()).count();
        check!(snap.len() == n, "the snapshot holds {} accounts instead of {}", snap.len(), n);
    }
    Ok(true)
}
// nothing but new accounts, and nothing between two saves
fn run_new(cs: &[Burst]) -> Result<bool, String> {
    for _ in cs {
        let st = Arc::new(InmemoryTokenAccountStorage::default());
        let s = st.clone();
        let keys = |t: u8| (0..24u8).map(move |n| Pubkey::new_from_array([1 + t * 24 + n; 32]));
        at_once(8, move |t| {
            for k in keys(t) {
                s.save_or_update(stored(k, 5));
            }
            Ok(())
        })?;
        for k in (0..8).flat_map(keys) {
            let back = st.get_by_pubkey(&k).map(|a| a.pubkey);
            check!(back == Some(k), "after saving new accounts at the same time, {} reads as {:?}", short(&k), back.map(|k| short(&k)));
        }
    }
    Ok(true)
}
fn run_filters(cs: &[Burst]) -> Result<bool, String> {
    for c in cs {
        let st = Arc::new(MutableFilterStore::default());
        let (s, c2) = (st.clone(), c.clone());
        let mine = |t: u8, i: u8| AccountFilter { accounts: vec![pkp(t, i)], program_id: if i % 2 == 0 { Some(pkp(t, i)) } else { None }, filters: None };
        at_once(c.threads, move |t| {
            for i in 0..c2.ops {
                let f = if i % 2 == 0 { AccountFilter { accounts: vec![], ..mine(t, i) } } else { mine(t, i) };
                s.add_account_filters(&vec![f]);
            }
            Ok(())
        })?;
        for t in 0..c.threads {
            for i in 0..c.ops {
                let a = if i % 2 == 0 { account(pkp(99, 1), pkp(t, i), 1, &[], 1, 1) } else { account(pkp(t, i), pkp(98, 1), 1, &[], 1, 1) };
                check!(st.satisfies(&a), "a filter added while others were added is not there: thread {} filter {}", t, i);
            }
        }
    }
    Ok(true)
}
fn gen(ctx_seed: u64) -> impl Fn(&mut Rng, u64) -> Vec<Burst> {
    move |r, i| {
        vec![Burst {
            dispatched: i % 4 == 3,
            threads: 2 + r.below(7) as u8,
            ops: if i % 2 == 0 { 1 + r.below(3) as u8 } else { 5 + r.below(20) as u8 },
            keys: 1 + r.below(6) as u8,
            processed: r.chance(1, 2),
            seed: ctx_seed.wrapping_mul(104_729).wrapping_add(i),
        }]
    }
}
const RULE: &str = "what is there afterwards is what the writes leave in any order; 2-8 threads";
fn n(ctx: &Ctx, k: u64) -> u64 {
    if ctx.thorough {
        k * 10
    } else {
        k
    }
}
pub fn suites_accounts(ctx: &mut Ctx) {
    let (k, s) = (n(ctx, 1500), ctx.seed);
    ctx.histories("writes of accounts at the same time", RULE, k, gen(s), run_accounts);
}
pub fn suites_reports(ctx: &mut Ctx) {
    let (k, s) = (n(ctx, 400), ctx.seed);
    ctx.histories("slots written and reported at the same time", RULE, k, gen(s), run_reports);
}
pub fn suites_readers(ctx: &mut Ctx) {
    let (k, s) = (n(ctx, 600), ctx.seed);
    ctx.histories("accounts read while they are updated", "every account is there once, and never older than before; 3-8 threads", k, gen(s), run_readers);
}
pub fn suites_tokens(ctx: &mut Ctx) {
    let (k, s) = (n(ctx, 1000), ctx.seed);
    ctx.histories("writes of token accounts and mints at the same time", RULE, k, gen(s), run_tokens);
}
pub fn suites_index(ctx: &mut Ctx) {
    let (k, s) = (n(ctx, 1500), ctx.seed);
    ctx.histories("saves and deletions at the same time", RULE, k, gen(s), run_index);
    ctx.histories("new accounts saved at the same time", "each is found under its key; 8 threads", 2 * k, gen(s), run_new);
}
pub fn suites_filters(ctx: &mut Ctx) {
    let (k, s) = (n(ctx, 500), ctx.seed);
    ctx.histories("filters added at the same time", RULE, k, gen(s), run_filters);
}
