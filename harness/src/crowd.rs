// Executable contracts of operations at the same time: operations of one storage from several threads all return.
use crate::common::*;
use crate::fw::*;
use lite_account_manager_common::{
    account_data::AccountData,
    account_filter::{AccountFilter, AccountFilterType, AccountFilters},
    account_store_interface::AccountStorageInterface,
    accounts_source_interface::AccountsSourceInterface,
    commitment::Commitment,
    mutable_filter_store::MutableFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::{inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId};
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use lite_token_account_storage::{inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage};
use solana_sdk::program_pack::Pack;
use solana_sdk::pubkey::Pubkey;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Crowd {
    /// 0 accounts, 1 token accounts, 2 both behind one dispatch, 3 that loaded on demand
    storage: u8,
    threads: u8,
    ops: u32,
    keys: u8,
    seed: u64,
}
fn prog(n: u8) -> Pubkey {
    pkp(0x71, n)
}
fn key(n: u8) -> Pubkey {
    pkp(0xd1, n)
}
fn token_data(kind: u64, n: u8, mint: u8) -> Vec<u8> {
    match kind {
        0 => {
            let t = spl_token::state::Account { mint: key(200 + mint), owner: key(100 + n % 2), amount: 5, state: spl_token::state::AccountState::Initialized, ..Default::default() };
            let mut d = vec![0; 165];
            t.pack_into_slice(&mut d);
            d
        }
        1 => {
            let m = spl_token::state::Mint { supply: 3, decimals: 1, is_initialized: true, ..Default::default() };
            let mut d = vec![0; 82];
            m.pack_into_slice(&mut d);
            d
        }
        _ => {
            let mut m = spl_token::state::Multisig { m: 1, n: 1, is_initialized: true, ..Default::default() };
            m.signers[0] = key(n);
            let mut d = vec![0; 355];
            m.pack_into_slice(&mut d);
            d
        }
    }
}
fn accounts() -> (Arc<InmemoryAccountStore>, Arc<MutableFilterStore>) {
    let f = MutableFilterStore::default();
    f.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None }, AccountFilter { accounts: vec![], program_id: Some(prog(1)), filters: Some(vec![AccountFilterType::Datasize(3)]) }]);
    let f = Arc::new(f);
    (Arc::new(InmemoryAccountStore::new(f.clone())), f)
}
fn tokens() -> Arc<TokenProgramAccountsStorage> {
    Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())))
}
fn write(r: &mut Rng, c: &Crowd, slot: u64, wv: u64) -> AccountData {
    let n = r.below(c.keys as u64) as u8;
    let token = c.storage == 1 && !r.chance(1, 6) || c.storage >= 2 && r.chance(1, 2);
    let lamports = if r.chance(1, 4) { 0 } else { 1_000 };
    if token {
        let n = if r.chance(1, 4) { 200 + n } else { n };
        let d = token_data(if n >= 200 { 1 } else if r.chance(1, 5) { 2 } else { 0 }, n, r.below(2) as u8);
        account(key(n), if r.chance(1, 4) { spl_token_2022::id() } else { spl_token::id() }, lamports, &d, slot, wv)
    } else {
        let d = vec![1; r.us(5)];
        account(key(n), prog(r.below(3) as u8), lamports, &d, slot, wv)
    }
}
/// a source that has every account asked for, always in another state
struct Chain {
    version: AtomicU64,
}
impl AccountsSourceInterface for Chain {
    fn subscribe_accounts(&self, _: HashSet<Pubkey>) -> anyhow::Result<()> {
        if self.version.fetch_add(1, Ordering::SeqCst) % 5 == 0 {
            anyhow::bail!("no subscription");
        }
        Ok(())
    }
    fn subscribe_program_accounts(&self, _: Pubkey, _: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        self.subscribe_accounts(HashSet::new())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, f: AccountFilters) -> anyhow::Result<()> {
        for x in &f {
            let v = self.version.fetch_add(1, Ordering::SeqCst);
            for k in x.accounts.iter().copied().chain((0..2).map(key)) {
                storage.initilize_or_update_account(account(k, x.program_id.unwrap_or(prog(0)), 9, &[1, 2, 3], 5, v));
            }
        }
        Ok(())
    }
}
fn run_crowd(cs: &[Crowd]) -> Result<bool, String> {
    for c in cs {
        let (acc, filters) = accounts();
        let tok = tokens();
        let storage: Arc<dyn AccountStorageInterface> = match c.storage {
            0 => acc.clone(),
            1 => tok.clone(),
            n => {
                let mut m: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = HashMap::new();
                m.insert(spl_token::id(), tok.clone());
                m.insert(spl_token_2022::id(), tok.clone());
                let both = Arc::new(StorageByProgramId::new(m, acc.clone()));
                if n == 2 {
                    both
                } else {
                    Arc::new(AccountsOnDemand::new(Arc::new(Chain { version: AtomicU64::new(1) }), filters.clone(), both))
                }
            }
        };
        let slot = Arc::new(AtomicU64::new(10));
        let wv = Arc::new(AtomicU64::new(1));
        let doing: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec!["nothing yet".into(); c.threads as usize]));
        let start = Arc::new(Barrier::new(c.threads as usize));
        let (tx, rx) = mpsc::channel();
        for t in 0..c.threads as usize {
            let (c, st, slot, wv, doing, start, tx, filters) = (c.clone(), storage.clone(), slot.clone(), wv.clone(), doing.clone(), start.clone(), tx.clone(), filters.clone());
            std::thread::spawn(move || {
                let mut r = Rng::new(c.seed.wrapping_mul(31).wrapping_add(t as u64));
                start.wait();
                let res = guarded(|| {
                    for _ in 0..c.ops {
                        let now = slot.load(Ordering::SeqCst);
                        let com = COMMITMENTS[r.us(3)];
                        let say = |s: String| doing.lock().unwrap()[t] = s;
                        match r.below(20) {
                            0..=8 => {
                                let at = now + r.below(3);
                                let a = write(&mut r, &c, at, wv.fetch_add(1, Ordering::SeqCst));
                                let com = if r.chance(1, 2) { Commitment::Processed } else { com };
                                say(format!("write of {} at {}", sig(&a), cname(com)));
                                st.update_account(a, com);
                            }
                            9..=13 => {
                                let s = slot.fetch_add(1, Ordering::SeqCst);
                                say(format!("slot {} becomes {}", s, cname(com)));
                                st.process_slot_data(SlotInfo { slot: s, parent: s - 1, root: s - 1 }, com);
                            }
                            14..=15 => {
                                let k = key(r.below(c.keys as u64) as u8);
                                say(format!("read of {} at {}", short(&k), cname(com)));
                                let _ = st.get_account(k, com);
                            }
                            16..=17 => {
                                let p = if c.storage == 1 || c.storage >= 2 && r.chance(1, 2) { spl_token::id() } else { prog(r.below(3) as u8) };
                                let f = match r.below(4) {
                                    0 => None,
                                    1 => Some(vec![AccountFilterType::Datasize(82)]),
                                    2 => Some(vec![AccountFilterType::Datasize(165), memcmp(32, &key(100 + r.below(2) as u8).to_bytes())]),
                                    _ => Some(vec![AccountFilterType::Datasize(165), memcmp(0, &key(200 + r.below(2) as u8).to_bytes())]),
                                };
                                say(format!("list of {} with {:?} at {}", short(&p), f, cname(com)));
                                let _ = st.get_program_accounts(p, f, com);
                            }
                            18 => {
                                let p = if c.storage == 1 || c.storage >= 2 && r.chance(1, 2) { spl_token::id() } else { prog(0) };
                                say(format!("snapshot of {} loaded again", short(&p)));
                                if let Ok(s) = st.create_snapshot(p) {
                                    let _ = st.load_from_snapshot(p, s);
                                }
                            }
                            _ => {
                                say("another filter".into());
                                filters.add_account_filters(&vec![AccountFilter { accounts: vec![key(r.below(c.keys as u64) as u8)], program_id: None, filters: None }]);
                            }
                        }
                    }
                    Ok(())
                });
                doing.lock().unwrap()[t] = "done".into();
                let _ = tx.send(res);
            });
        }
        let until = Instant::now() + Duration::from_secs(20);
        for _ in 0..c.threads {
            match rx.recv_timeout(until.saturating_duration_since(Instant::now())) {
                Ok(r) => r?,
                Err(_) => return Err(format!("the operations wait for each other for 20 s; the threads are in:\n{}", doing.lock().unwrap().join("\n"))),
            }
        }
        if c.storage < 2 {
            agree(storage.as_ref())?;
        }
    }
    Ok(true)
}
/// once no operation is under way, the lists and the reads tell the same
fn agree(st: &dyn AccountStorageInterface) -> Result<(), String> {
    for com in COMMITMENTS {
        for p in [prog(0), prog(1), spl_token::id(), spl_token_2022::id()] {
            let mut list: Vec<String> = match st.get_program_accounts(p, None, com) {
                Ok(l) => l.iter().map(sig).collect(),
                Err(_) => continue,
            };
            list.sort();
            let mut reads = vec![];
            for n in 0..=255u8 {
                if let Ok(Some(a)) = st.get_account(key(n), com) {
                    if a.account.owner == p {
                        reads.push(sig(&a));
                    }
                }
            }
            reads.sort();
            if list != reads {
                return Err(format!("after all operations returned, the list of {} at {} is\n{}\nand the reads give\n{}", short(&p), cname(com), list.join("\n"), reads.join("\n")));
            }
        }
    }
    Ok(())
}
fn memcmp(offset: u64, b: &[u8]) -> AccountFilterType {
    crate::accounts::mem(offset, b)
}
pub fn suites(ctx: &mut Ctx) {
    let t = if ctx.thorough { 10 } else { 1 };
    let seed = ctx.seed;
    ctx.histories(
        "crowd",
        "2-8 threads with writes, deletions, owner changes, slot notifications, reads, lists, snapshots and new filters on one storage (accounts, token accounts, both dispatched by program, or both loaded on demand), which all have to return; non-trivial always",
        160 * t,
        |r, i| vec![Crowd { storage: (i % 4) as u8, threads: 2 + r.below(7) as u8, ops: 300, keys: 1 + r.below(4) as u8, seed: seed.wrapping_mul(7919).wrapping_add(i) }],
        run_crowd,
    );
}
