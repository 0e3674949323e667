// Executable contracts of the token account storage: codec, index storage, and the storage of token
// accounts, mints and multisigs run side by side with a reference model.
use crate::check;
use crate::common::*;
use crate::fw::*;
use lite_account_manager_common::{
    account_data::{Account, AccountData, CompressionMethod, Data},
    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_store_interface::AccountStorageInterface,
    commitment::Commitment,
    slot_info::SlotInfo,
};
use lite_token_account_storage::{
    account_types::{Program, TokenAccount, TokenProgramAccountState},
    inmemory_token_account_storage::InmemoryTokenAccountStorage,
    inmemory_token_storage::TokenProgramAccountsStorage,
    token_account_storage_interface::TokenAccountStorageInterface,
};
use solana_sdk::{program_pack::Pack, pubkey::Pubkey};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

// ---------------------------------------------------------------- codec

fn rnd_pk(r: &mut Rng) -> Pubkey {
    match r.below(4) {
        0 => Pubkey::default(),
        1 => Pubkey::new_from_array([0xff; 32]),
        _ => {
            let b = r.bytes(32);
            Pubkey::new_from_array(b.try_into().unwrap())
        }
    }
}
fn rnd_u64(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => r.below(256),
        _ => r.next(),
    }
}
fn state(n: u64) -> TokenProgramAccountState {
    match n % 3 {
        0 => TokenProgramAccountState::Uninitialized,
        1 => TokenProgramAccountState::Initialized,
        _ => TokenProgramAccountState::Frozen,
    }
}
/// every combination of the optional parts, programs, states and the deletion mark: n < 192
fn token_account(r: &mut Rng, n: u64) -> TokenAccount {
    TokenAccount {
        program: if n & 1 == 0 { Program::TokenProgram } else { Program::Token2022Program },
        is_deleted: n & 2 != 0,
        pubkey: rnd_pk(r),
        owner: rnd_pk(r),
        mint: rnd_u64(r) as u32,
        amount: rnd_u64(r),
        state: state(n / 64),
        delegate: if n & 4 != 0 { Some((rnd_pk(r), rnd_u64(r))) } else { None },
        is_native: if n & 8 != 0 { Some(rnd_u64(r)) } else { None },
        close_authority: if n & 16 != 0 { Some(rnd_pk(r)) } else { None },
        additional_data: if n & 32 != 0 {
            let l = *r.pick(&[0usize, 1, 2, 3, 4, 5, 31, 32, 83, 255, 256, 257, 700, 65535, 65536, 70001]);
            let l = if r.chance(1, 8) { l } else { l % 1000 };
            Some(r.bytes(l))
        } else {
            None
        },
    }
}
pub fn suites_codec(ctx: &mut Ctx) {
    let rounds = if ctx.thorough { 3000 } else { 250 };
    let name = "encode and decode token accounts";
    ctx.rules.push(format!("{}: every combination of program, deletion mark, state and optional parts, {} rounds of field values", name, rounds));
    for i in 0..rounds {
        for n in 0..192u64 {
            if ctx.stop() {
                return;
            }
            let mut r = Rng::new(ctx.seed.wrapping_mul(77_003).wrapping_add(i * 192 + n));
            let a = token_account(&mut r, n);
            let res = guarded(|| {
                let b = a.to_bytes();
                check!(TokenAccount::get_pubkey_from_binary(&b) == a.pubkey, "the key read from the encoding is {:?}", TokenAccount::get_pubkey_from_binary(&b));
                check!(TokenAccount::get_owner_from_binary(&b) == a.owner, "the owner read from the encoding is {:?}", TokenAccount::get_owner_from_binary(&b));
                check!(TokenAccount::get_mint_index_from_binary(&b) == a.mint, "the mint read from the encoding is {}", TokenAccount::get_mint_index_from_binary(&b));
                let d = TokenAccount::from_bytes(&b);
                check!(d == a, "decoded as {:?}", brief(&d));
                Ok(())
            });
            let c = brief(&a);
            match res {
                Ok(()) => ctx.note(name, &c, true),
                Err(e) => {
                    ctx.evaluations += 1;
                    ctx.fail(name, c, e);
                    return;
                }
            }
        }
    }
}
fn brief(a: &TokenAccount) -> String {
    let mut s = format!("{:?}", a);
    s.truncate(900);
    s
}

// ---------------------------------------------------------------- index storage

#[derive(Clone, Debug)]
enum IOp {
    Save { k: u8, p: u8, tag: u8 },
    Delete { k: u8 },
}
fn ikey(k: u8) -> Pubkey {
    // 0..2 differ in the last byte only, 3..5 in the fifth byte, the others in the first
    let mut b = [0x11u8; 32];
    match k {
        0..=2 => b[31] = k,
        3..=5 => b[4] = k,
        _ => b[0] = k,
    }
    Pubkey::new_from_array(b)
}
fn itok(k: u8, p: u8, tag: u8) -> TokenAccount {
    TokenAccount {
        program: if p == 0 { Program::TokenProgram } else { Program::Token2022Program },
        is_deleted: false,
        pubkey: ikey(k),
        owner: pk(tag),
        mint: tag as u32,
        amount: tag as u64,
        state: state(tag as u64),
        delegate: if tag & 1 == 1 { Some((pk(tag), 7)) } else { None },
        is_native: if tag & 2 == 2 { Some(9) } else { None },
        close_authority: if tag & 4 == 4 { Some(pk(9)) } else { None },
        additional_data: if tag & 8 == 8 { Some(vec![tag; 3]) } else { None },
    }
}
const NK: u8 = 8;
fn run_index(ops: &[IOp]) -> Result<bool, String> {
    let s = InmemoryTokenAccountStorage::default();
    let mut m: BTreeMap<u8, (u32, TokenAccount)> = BTreeMap::new();
    let mut used: BTreeMap<u32, u8> = BTreeMap::new();
    let mut nt = false;
    for (i, op) in ops.iter().enumerate() {
        match op {
            IOp::Save { k, p, tag } => {
                let a = itok(*k, *p, *tag);
                let (index, new) = s.save_or_update(a.clone());
                match m.get(k) {
                    Some((old, _)) => {
                        check!(!new && index == *old, "step {}: saving a stored account returned index {} new={} instead of its index {}", i, index, new, old);
                        nt = true;
                    }
                    None => {
                        check!(new, "step {}: saving an account that is not stored did not report a new one", i);
                        check!(!used.contains_key(&index), "step {}: index {} was already given to account {}", i, index, used[&index]);
                        used.insert(index, *k);
                    }
                }
                m.insert(*k, (index, a));
            }
            IOp::Delete { k } => {
                s.delete(&ikey(*k));
                nt |= m.remove(k).is_some();
            }
        }
        for k in 0..NK {
            let want = m.get(&k);
            check!(s.contains(&ikey(k)) == want.map(|x| x.0), "step {}: contains(account {}) is {:?}, expected {:?}", i, k, s.contains(&ikey(k)), want.map(|x| x.0));
            let got = s.get_by_pubkey(&ikey(k));
            check!(got == want.map(|x| x.1.clone()), "step {}: account {} reads {:?}", i, k, got.map(|x| brief(&x)));
        }
    }
    for (index, k) in &used {
        let got: Vec<TokenAccount> = s.get_by_index(HashSet::from([*index])).map_err(|e| format!("{:?}", e))?.into_iter().filter(|x| !x.is_deleted).collect();
        let want: Vec<TokenAccount> = m.values().filter(|x| x.0 == *index).map(|x| x.1.clone()).collect();
        check!(got == want, "index {} (given to account {}) holds {:?}", index, k, got.iter().map(brief).collect::<Vec<_>>());
    }
    let all: HashSet<u32> = used.keys().copied().chain([1000]).collect();
    let mut got: Vec<TokenAccount> = s.get_by_index(all).map_err(|e| format!("{:?}", e))?.into_iter().filter(|x| !x.is_deleted).collect();
    got.sort();
    let mut want: Vec<TokenAccount> = m.values().map(|x| x.1.clone()).collect();
    want.sort();
    check!(got == want, "all indexes together hold {} accounts instead of {}", got.len(), want.len());
    for p in [Program::TokenProgram, Program::Token2022Program] {
        let mut got: Vec<TokenAccount> = s.create_snapshot(p).map_err(|e| format!("{:?}", e))?.iter().map(|b| TokenAccount::from_bytes(b)).collect();
        got.sort();
        let mut want: Vec<TokenAccount> = m.values().map(|x| x.1.clone()).filter(|x| x.program == p).collect();
        want.sort();
        check!(got == want, "the snapshot of {:?} holds {:?}", p, got.iter().map(brief).collect::<Vec<_>>());
    }
    Ok(nt)
}
pub fn suites_index(ctx: &mut Ctx) {
    let alphabet = vec![
        IOp::Save { k: 0, p: 0, tag: 1 },
        IOp::Save { k: 1, p: 1, tag: 2 },
        IOp::Save { k: 0, p: 1, tag: 15 },
        IOp::Save { k: 3, p: 0, tag: 4 },
        IOp::Delete { k: 0 },
        IOp::Delete { k: 1 },
        IOp::Delete { k: 2 },
    ];
    let len = if ctx.thorough { 6 } else { 5 };
    ctx.enumerate("saving and deleting token accounts, keys with equal beginnings", "after every step each key reads its own account and nothing else", &alphabet, len, run_index);
    let n = if ctx.thorough { 60_000 } else { 4_000 };
    ctx.histories(
        "random saves and deletions of token accounts",
        "up to 30 operations over 8 keys, three of them equal but for the last byte, three equal in the first four bytes",
        n,
        |r, _| {
            let l = 1 + r.us(30);
            (0..l)
                .map(|_| {
                    if r.chance(2, 3) {
                        IOp::Save { k: r.below(NK as u64) as u8, p: r.below(2) as u8, tag: r.below(16) as u8 }
                    } else {
                        IOp::Delete { k: r.below(NK as u64) as u8 }
                    }
                })
                .collect()
        },
        run_index,
    );
}

// ---------------------------------------------------------------- storage of the token programs

#[derive(Clone, PartialEq, Debug)]
pub enum Content {
    Tok { p: u8, mint: u8, owner: u8, tag: u8, ext: u8 },
    Mint { p: u8, tag: u8, ext: u8 },
    Multi { p: u8, tag: u8 },
    /// no lamports, still owned by the token program (p < 2) or by the system program
    Closed { p: u8 },
    /// alive and owned by another program
    Moved,
}
#[derive(Clone)]
pub enum TOp {
    Write { k: u8, content: Content, slot: u64, wv: u64, c: Commitment },
    Init { k: u8, content: Content },
    Slot { slot: u64, parent: u64, c: Commitment },
}
impl std::fmt::Debug for TOp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            TOp::Write { k, content, slot, wv, c } => write!(f, "Write {{ account {}, {:?}, slot {}, write version {}, {} }}", k, content, slot, wv, cname(*c)),
            TOp::Init { k, content } => write!(f, "Initialize {{ account {}, {:?} }}", k, content),
            TOp::Slot { slot, parent, c } => write!(f, "Slot {{ slot {}, parent {}, {} }}", slot, parent, cname(*c)),
        }
    }
}
fn program(p: u8) -> Pubkey {
    match p {
        0 => spl_token::id(),
        1 => spl_token_2022::id(),
        _ => Pubkey::default(),
    }
}
fn tkey(k: u8) -> Pubkey {
    // all equal in the first four bytes up to 3, distinct after that
    let mut b = [0x22u8; 32];
    if k > 3 {
        b[1] = k;
    }
    b[31] = k;
    Pubkey::new_from_array(b)
}
fn towner(o: u8) -> Pubkey {
    // owners 0 and 1 begin alike, owner 3 is the default key
    match o {
        3 => Pubkey::default(),
        _ => {
            let mut b = [0x33u8; 32];
            b[30] = o;
            if o == 2 {
                b[0] = 0x34;
            }
            Pubkey::new_from_array(b)
        }
    }
}
/// mints 0..3 are the keys 4..7; mint 4 is the default key, of which there is never an account
fn mkey(m: u8) -> Pubkey {
    if m == 4 {
        Pubkey::default()
    } else {
        tkey(4 + m)
    }
}
pub const KEYS: u8 = 9;
impl Content {
    fn live(&self) -> bool {
        matches!(self, Content::Tok { .. } | Content::Mint { .. } | Content::Multi { .. })
    }
    fn token_program(&self) -> bool {
        self.live() || matches!(self, Content::Closed { p } if *p < 2)
    }
    fn lamports(&self) -> u64 {
        match self {
            Content::Tok { .. } => 2_039_280,
            Content::Mint { tag, .. } => 1000 + *tag as u64,
            Content::Multi { tag, .. } => 5000 + *tag as u64,
            Content::Closed { .. } => 0,
            Content::Moved => 77,
        }
    }
    fn owner(&self) -> Pubkey {
        match self {
            Content::Tok { p, .. } | Content::Mint { p, .. } | Content::Multi { p, .. } | Content::Closed { p } => program(*p),
            Content::Moved => pk(200),
        }
    }
    fn data(&self) -> Vec<u8> {
        match self {
            Content::Tok { p, mint, owner, tag, ext } => {
                let t = *tag;
                let acc = spl_token_2022::state::Account {
                    mint: mkey(*mint),
                    owner: towner(*owner),
                    amount: 1000 + t as u64,
                    delegate: if t & 1 == 1 { Some(pk(t)).into() } else { None.into() },
                    state: if t & 32 == 32 { spl_token_2022::state::AccountState::Frozen } else if t & 64 == 64 { spl_token_2022::state::AccountState::Uninitialized } else { spl_token_2022::state::AccountState::Initialized },
                    is_native: if t & 2 == 2 { Some(31 + t as u64).into() } else { None.into() },
                    delegated_amount: if t & 1 == 1 { 17 + t as u64 } else { 0 },
                    close_authority: if t & 4 == 4 { Some(pk(t.wrapping_add(1))).into() } else { None.into() },
                };
                let mut d = vec![0; 165];
                acc.pack_into_slice(&mut d);
                if *p == 1 && *ext > 0 {
                    d.push(2);
                    d.extend((1..*ext).map(|x| x.wrapping_mul(3)));
                }
                d
            }
            Content::Mint { p, tag, ext } => {
                let t = *tag;
                let m = spl_token_2022::state::Mint {
                    mint_authority: if t & 1 == 1 { Some(pk(t)).into() } else { None.into() },
                    supply: 100 + t as u64,
                    decimals: t,
                    is_initialized: t & 2 == 0,
                    freeze_authority: if t & 4 == 4 { Some(pk(t.wrapping_add(2))).into() } else { None.into() },
                };
                let mut d = vec![0; 82];
                m.pack_into_slice(&mut d);
                if *p == 1 && *ext > 0 {
                    d.resize(165, 0);
                    d.push(1);
                    d.extend((1..*ext).map(|x| x.wrapping_mul(5)));
                }
                d
            }
            Content::Multi { tag, .. } => {
                let t = *tag;
                let n = 1 + (t % 11) as usize;
                let mut signers = [Pubkey::default(); 11];
                for (i, s) in signers.iter_mut().enumerate().take(n) {
                    // a signer in use can be the system program
                    *s = if t & 16 == 16 && i == 0 { Pubkey::default() } else { pk(t.wrapping_add(i as u8)) };
                }
                let m = spl_token_2022::state::Multisig { m: 1 + t % 3, n: n as u8, is_initialized: t & 32 == 0, signers };
                let mut d = vec![0; 355];
                m.pack_into_slice(&mut d);
                d
            }
            Content::Closed { .. } => vec![],
            Content::Moved => vec![1, 2, 3],
        }
    }
    fn account(&self, k: u8, slot: u64, wv: u64) -> AccountData {
        let method = match (k as u64 + wv) % 5 {
            0 => CompressionMethod::Lz4(1),
            1 => CompressionMethod::Zstd(1),
            _ => CompressionMethod::None,
        };
        let data = self.data();
        AccountData {
            pubkey: tkey(k),
            account: Arc::new(Account {
                lamports: self.lamports(),
                data: if data.is_empty() { Data::Uncompressed(data) } else { Data::new(&data, method) },
                owner: self.owner(),
                executable: false,
                rent_epoch: u64::MAX,
            }),
            updated_slot: slot,
            write_version: wv,
        }
    }
    /// what a reader must get: key, owner, contents, and the lamports of mints and multisigs
    fn seen(&self, k: u8) -> Option<String> {
        if !self.live() {
            return None;
        }
        let l = if matches!(self, Content::Tok { .. }) { None } else { Some(self.lamports()) };
        Some(show(&tkey(k), &self.owner(), &self.data(), l))
    }
}
fn show(pubkey: &Pubkey, owner: &Pubkey, data: &[u8], lamports: Option<u64>) -> String {
    let hex: String = data.iter().map(|b| format!("{:02x}", b)).collect();
    format!("{} owner={} lamports={:?} data[{}]={}", short(pubkey), if *owner == spl_token::id() { "token".into() } else if *owner == spl_token_2022::id() { "token2022".into() } else { short(owner) }, lamports, data.len(), hex)
}
fn got(a: &AccountData) -> String {
    let d = a.account.data.data();
    let tok = d.len() == 165 || (d.len() > 165 && d.len() != 355 && d[165] == 2);
    show(&a.pubkey, &a.account.owner, &d, if tok && a.account.lamports > 0 { None } else { Some(a.account.lamports) })
}

#[derive(Default, Clone)]
struct MSlot {
    accounts: BTreeMap<u8, (Content, u64)>,
    parent: Option<u64>,
}
#[derive(Default, Clone)]
pub struct TModel {
    processed: BTreeMap<u64, MSlot>,
    finalized: BTreeMap<u8, Content>,
    confirmed_slot: u64,
    finalized_slot: u64,
}
impl TModel {
    fn set_finalized(&mut self, k: u8, c: &Content) {
        if c.live() {
            self.finalized.insert(k, c.clone());
        } else {
            self.finalized.remove(&k);
        }
    }
    fn chain(&self, k: u8) -> Option<Content> {
        let mut s = Some(self.confirmed_slot);
        let mut fuel = 100;
        while let Some(x) = s {
            fuel -= 1;
            if fuel == 0 {
                break;
            }
            let e = self.processed.get(&x)?;
            if let Some((c, _)) = e.accounts.get(&k) {
                return Some(c.clone());
            }
            s = e.parent;
        }
        None
    }
    fn read(&self, k: u8, c: Commitment) -> Option<Content> {
        let mut r = None;
        if c == Commitment::Processed {
            r = self.processed.iter().rev().filter(|(s, _)| **s > self.confirmed_slot).find_map(|(_, e)| e.accounts.get(&k)).map(|x| x.0.clone());
        }
        if r.is_none() && c != Commitment::Finalized {
            r = self.chain(k);
        }
        r.or(self.finalized.get(&k).cloned()).filter(|x| x.live())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TAspect {
    Reads,
    Lists,
    Contents,
    Snapshot,
}
fn new_store() -> TokenProgramAccountsStorage {
    TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default()))
}
fn reads(s: &TokenProgramAccountsStorage, m: &TModel, when: &str) -> Result<(), String> {
    for c in COMMITMENTS {
        for k in 0..KEYS {
            let want = m.read(k, c).and_then(|x| x.seen(k));
            let have = s.get_account(tkey(k), c).map_err(|e| format!("{}: reading account {} failed: {:?}", when, k, e))?.map(|a| got(&a));
            check!(want == have, "{}: account {} at {} reads\n  {}\ninstead of\n  {}", when, k, cname(c), have.unwrap_or("nothing".into()), want.unwrap_or("nothing".into()));
        }
    }
    Ok(())
}
pub fn mem(offset: u64, b: &[u8]) -> AccountFilterType {
    AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(b.to_vec()) })
}
fn pass(f: &[AccountFilterType], d: &[u8]) -> bool {
    f.iter().all(|f| match f {
        AccountFilterType::Datasize(n) => d.len() as u64 == *n,
        AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(b) }) => d.len() as u64 >= *offset + b.len() as u64 && &d[*offset as usize..*offset as usize + b.len()] == &b[..],
        _ => unreachable!(),
    })
}
fn queries(p: u8) -> Vec<Vec<AccountFilterType>> {
    let size = AccountFilterType::Datasize(165);
    let mut heads: Vec<Vec<AccountFilterType>> = vec![];
    for o in 0..4 {
        heads.push(vec![mem(32, &towner(o).to_bytes())]);
        heads.push(vec![mem(0, &mkey(o).to_bytes()), mem(32, &towner(o % 2).to_bytes())]);
    }
    for m in 0..5 {
        heads.push(vec![mem(0, &mkey(m).to_bytes())]);
    }
    let mut out = vec![];
    for h in &heads {
        let mut v = h.clone();
        v.push(size.clone());
        out.push(v.clone());
        v.push(mem(64, &1001u64.to_le_bytes()));
        out.push(v);
        if p == 1 {
            let mut v = h.clone();
            v.insert(0, mem(165, &[2]));
            out.push(v);
        }
    }
    out.push(vec![AccountFilterType::Datasize(82)]);
    out.push(vec![AccountFilterType::Datasize(82), mem(36, &101u64.to_le_bytes())]);
    out
}
fn lists(s: &TokenProgramAccountsStorage, m: &TModel, when: &str) -> Result<bool, String> {
    let mut nt = false;
    for c in COMMITMENTS {
        // what single reads give, whatever the model thinks
        let singles: Vec<(Pubkey, Pubkey, Vec<u8>, String)> =
            (0..KEYS).filter_map(|k| s.get_account(tkey(k), c).ok().flatten()).map(|a| (a.pubkey, a.account.owner, a.account.data.data(), got(&a))).collect();
        for p in 0..2 {
            for q in queries(p) {
                let mut want: Vec<String> = (0..KEYS)
                    .filter_map(|k| m.read(k, c).filter(|x| x.owner() == program(p) && pass(&q, &x.data())).and_then(|x| x.seen(k)))
                    .collect();
                want.sort();
                let mut have: Vec<String> = s.get_program_accounts(program(p), Some(q.clone()), c).map_err(|e| format!("{}: list {:?} refused: {:?}", when, q, e))?.iter().map(got).collect();
                have.sort();
                check!(want == have, "{}: program {} at {} filtered by {:?} lists\n  {:#?}\ninstead of\n  {:#?}", when, p, cname(c), q, have, want);
                let mut one: Vec<String> = singles.iter().filter(|x| x.1 == program(p) && pass(&q, &x.2)).map(|x| x.3.clone()).collect();
                one.sort();
                check!(one == have, "{}: program {} at {} filtered by {:?} lists\n  {:#?}\nbut single reads give\n  {:#?}", when, p, cname(c), q, have, one);
                nt |= !have.is_empty();
            }
        }
        for bad in [pk(200), Pubkey::default()] {
            check!(s.get_program_accounts(bad, Some(queries(0)[0].clone()), c).is_err(), "{}: a list of a program that is not a token program was answered", when);
        }
        check!(s.get_program_accounts(program(0), None, c).is_err(), "{}: a list without filters was answered", when);
    }
    Ok(nt)
}
fn snapshots(s: &TokenProgramAccountsStorage, m: &TModel, target: &[TOp], when: &str) -> Result<bool, String> {
    let mut nt = false;
    check!(s.create_snapshot(pk(200)).is_err(), "{}: a snapshot of another program was made", when);
    for p in 0..2u8 {
        let snap = s.create_snapshot(program(p)).map_err(|e| format!("{}: snapshot failed: {:?}", when, e))?;
        for pre in [&[][..], target] {
            let t = new_store();
            let mut tm = TModel::default();
            for op in pre {
                if let TOp::Init { k, content } = op {
                    t.initilize_or_update_account(content.account(*k, 0, 0));
                    if content.token_program() || tm.finalized.contains_key(k) {
                        tm.set_finalized(*k, content);
                    }
                }
            }
            t.load_from_snapshot(program(p), snap.clone()).map_err(|e| format!("{}: loading the snapshot of program {} failed: {:?}", when, p, e))?;
            for (k, c) in &m.finalized {
                if c.owner() == program(p) {
                    tm.set_finalized(*k, c);
                    nt = true;
                }
            }
            reads(&t, &tm, &format!("{}, loaded the snapshot of program {} into a store holding {:?}", when, p, pre))?;
            lists(&t, &tm, &format!("{}, loaded the snapshot of program {} into a store holding {:?}", when, p, pre))?;
            let again = t.load_from_snapshot(program(p), vec![1, 2, 3]);
            check!(again.is_err(), "{}: bytes that are not a snapshot were accepted", when);
            reads(&t, &tm, &format!("{}, after a refused snapshot", when))?;
        }
    }
    Ok(nt)
}
fn run_store(ops: &[TOp], aspect: TAspect) -> Result<bool, String> {
    let s = new_store();
    let mut m = TModel::default();
    let mut nt = false;
    for (i, op) in ops.iter().enumerate() {
        let when = format!("step {} ({:?})", i, op);
        match op {
            TOp::Write { k, content, slot, wv, c } => {
                let res = s.update_account(content.account(*k, *slot, *wv), *c);
                let known = m.finalized.contains_key(k) || m.processed.values().any(|e| e.accounts.contains_key(k));
                let mint_key = (4..8).contains(k);
                if !content.token_program() && !known {
                    // a mint can be known by its token accounts only
                    if !mint_key && !ops[..i].iter().any(|o| matches!(o, TOp::Write { k: x, .. } | TOp::Init { k: x, .. } if x == k)) {
                        check!(!res, "{}: a write of an account the store does not know, of another program, was taken", when);
                    }
                    if *c == Commitment::Finalized {
                        continue;
                    }
                    if res {
                        m.processed.entry(*slot).or_default().accounts.entry(*k).and_modify(|x| if x.1 < *wv { *x = (content.clone(), *wv) }).or_insert((content.clone(), *wv));
                    }
                    continue;
                }
                if *c == Commitment::Finalized {
                    check!(res, "{}: a finalized write was not taken", when);
                    m.set_finalized(*k, content);
                    nt = true;
                } else {
                    let e = m.processed.entry(*slot).or_default();
                    let newer = e.accounts.get(k).map(|x| x.1 < *wv).unwrap_or(true);
                    check!(res == newer, "{}: reported {} for a write that is {}", when, res, if newer { "newer than what the slot had" } else { "not newer than what the slot had" });
                    if newer {
                        e.accounts.insert(*k, (content.clone(), *wv));
                    }
                }
            }
            TOp::Init { k, content } => {
                let known = m.finalized.contains_key(k) || m.processed.values().any(|e| e.accounts.contains_key(k));
                s.initilize_or_update_account(content.account(*k, 0, 0));
                if content.token_program() || known {
                    m.set_finalized(*k, content);
                }
            }
            TOp::Slot { slot, parent, c } => {
                let info = SlotInfo { slot: *slot, parent: *parent, root: 0 };
                let mut have: Vec<String> = s.process_slot_data(info, *c).iter().map(|a| format!("{} @{}.{}", got(a), a.updated_slot, a.write_version)).collect();
                have.sort();
                let mut want: Vec<String> = vec![];
                match c {
                    Commitment::Processed => m.processed.entry(*slot).or_default().parent = Some(*parent).filter(|p| p < slot),
                    Commitment::Confirmed => {
                        if m.confirmed_slot < *slot {
                            m.confirmed_slot = *slot;
                            m.processed.entry(*slot).or_default().parent = Some(*parent).filter(|p| p < slot);
                        }
                        match m.processed.get(slot) {
                            Some(e) => want = e.accounts.iter().filter_map(|(k, (x, wv))| x.seen(*k).map(|t| format!("{} @{}.{}", t, slot, wv))).collect(),
                            None => m.processed.entry(*slot).or_default().parent = Some(*parent).filter(|p| p < slot),
                        }
                    }
                    Commitment::Finalized => {
                        if m.finalized_slot < *slot {
                            m.finalized_slot = *slot;
                            m.processed.entry(*slot).or_default().parent = Some(*parent).filter(|p| p < slot);
                        }
                        let mut x = Some(*slot);
                        let mut moved: BTreeMap<u8, (Content, u64, u64)> = BTreeMap::new();
                        while let Some(y) = x {
                            let Some(e) = m.processed.remove(&y) else { break };
                            for (k, (c, wv)) in e.accounts {
                                moved.entry(k).or_insert((c, y, wv));
                            }
                            x = e.parent;
                        }
                        m.processed.retain(|s, _| *s > *slot);
                        for (k, (c, s, wv)) in &moved {
                            m.set_finalized(*k, c);
                            if let Some(t) = c.seen(*k) {
                                want.push(format!("{} @{}.{}", t, s, wv));
                            }
                            nt = true;
                        }
                    }
                }
                want.sort();
                check!(have == want, "{}: reported\n  {:#?}\ninstead of\n  {:#?}", when, have, want);
            }
        }
        if aspect == TAspect::Reads || aspect == TAspect::Contents {
            reads(&s, &m, &when)?;
        }
    }
    match aspect {
        TAspect::Lists => {
            nt &= lists(&s, &m, "at the end")?;
        }
        TAspect::Snapshot => {
            let mut r = Rng::new(ops.len() as u64 + 5);
            let target: Vec<TOp> = (0..5).map(|_| TOp::Init { k: r.below(KEYS as u64) as u8, content: content(&mut r, None) }).collect();
            nt &= snapshots(&s, &m, &target, "at the end")?;
        }
        _ => {}
    }
    Ok(nt)
}
fn content(r: &mut Rng, k: Option<u8>) -> Content {
    let kind = match k {
        Some(k) if r.chance(7, 8) => match k {
            0..=3 => 0,
            4..=7 => 1,
            _ => 2,
        },
        _ => r.below(3),
    };
    if r.chance(1, 7) {
        return if r.chance(1, 3) { Content::Moved } else { Content::Closed { p: r.below(3) as u8 } };
    }
    let p = r.below(2) as u8;
    match kind {
        0 => Content::Tok { p, mint: r.below(5) as u8, owner: r.below(4) as u8, tag: r.below(128) as u8, ext: if r.chance(1, 2) { 0 } else { 1 + r.below(60) as u8 } },
        1 => Content::Mint { p, tag: r.below(8) as u8, ext: if r.chance(1, 2) { 0 } else { 1 + r.below(60) as u8 } },
        _ => Content::Multi { p, tag: r.below(64) as u8 },
    }
}
fn gen_history(r: &mut Rng, i: u64) -> Vec<TOp> {
    let l = 1 + r.us(if i % 4 == 0 { 6 } else { 26 });
    let mut fin = 0u64;
    let direct = r.chance(1, 2);
    (0..l)
        .map(|j| {
            let few = r.chance(1, 2);
            let k = r.below(if few { 3 } else { KEYS as u64 }) as u8;
            let slot = fin + 1 + r.below(6);
            match r.below(10) {
                0..=5 => {
                    let c = match r.below(6) {
                        0 if direct => Commitment::Finalized,
                        1 => Commitment::Confirmed,
                        _ => Commitment::Processed,
                    };
                    let wv = if r.chance(1, 3) { r.below(5) } else { j as u64 + 5 };
                    TOp::Write { k, content: content(r, Some(k)), slot: if r.chance(1, 12) { fin.saturating_sub(r.below(2)) } else { slot }, wv, c }
                }
                6 if r.chance(1, 2) => TOp::Init { k, content: content(r, Some(k)) },
                _ => {
                    let c = *r.pick(&[Commitment::Processed, Commitment::Processed, Commitment::Confirmed, Commitment::Confirmed, Commitment::Finalized]);
                    if c == Commitment::Finalized {
                        fin = slot;
                    }
                    let parent = if r.chance(3, 4) { slot - 1 } else { slot.saturating_sub(1 + r.below(3)) };
                    TOp::Slot { slot, parent, c }
                }
            }
        })
        .collect()
}
pub fn suites_reads(ctx: &mut Ctx) {
    let t = |mint, owner, tag| Content::Tok { p: 0, mint, owner, tag, ext: 0 };
    let w = |k, content, slot, wv, c| TOp::Write { k, content, slot, wv, c };
    use Commitment::*;
    let alphabet = vec![
        w(0, t(0, 0, 1), 1, 1, Processed),
        w(0, t(0, 1, 2), 2, 2, Processed),
        w(1, Content::Closed { p: 2 }, 2, 3, Processed),
        w(1, t(1, 0, 3), 1, 4, Confirmed),
        TOp::Slot { slot: 1, parent: 0, c: Processed },
        TOp::Slot { slot: 2, parent: 1, c: Processed },
        TOp::Slot { slot: 1, parent: 0, c: Confirmed },
        TOp::Slot { slot: 2, parent: 1, c: Confirmed },
        TOp::Slot { slot: 2, parent: 1, c: Finalized },
    ];
    let len = if ctx.thorough { 6 } else { 4 };
    ctx.enumerate("writes and notifications of two slots", "after every step every account reads, at every commitment, what the contracts say; every notification returns what they say", &alphabet, len, |o| run_store(o, TAspect::Reads));
    // the first slot of a cluster is reported as its own parent
    let alphabet = vec![
        w(0, t(0, 0, 1), 0, 1, Processed),
        TOp::Slot { slot: 0, parent: 0, c: Processed },
        TOp::Slot { slot: 0, parent: 0, c: Confirmed },
        TOp::Slot { slot: 1, parent: 0, c: Confirmed },
        TOp::Slot { slot: 1, parent: 0, c: Finalized },
    ];
    ctx.enumerate("writes and notifications of the first slot", "the same with slot 0, reported as its own parent", &alphabet, 4, |o| run_store(o, TAspect::Reads));
    let n = if ctx.thorough { 60_000 } else { 4_000 };
    ctx.histories("random histories of the token storage", "up to 26 writes, initializations and slot notifications over 9 keys; finalization in increasing slot order", n, gen_history, |o| run_store(o, TAspect::Reads));
}
pub fn suites_lists(ctx: &mut Ctx) {
    let n = if ctx.thorough { 40_000 } else { 2_500 };
    ctx.histories("lists of token accounts and mints", "at the end of a random history, every list by owner, mint, owner and mint, or size 82, with more filters, at every commitment, against the model and against single reads", n, gen_history, |o| run_store(o, TAspect::Lists));
}
pub fn suites_contents(ctx: &mut Ctx) {
    let n = if ctx.thorough { 60_000 } else { 6_000 };
    ctx.histories(
        "contents of token accounts, mints and multisigs",
        "accounts of all kinds with all optional parts and extensions are written, finalized or not, and read back",
        n,
        |r, _| {
            let l = 1 + r.us(5);
            (0..l)
                .map(|j| {
                    let k = r.below(KEYS as u64) as u8;
                    let content = content(r, None);
                    match r.below(4) {
                        0 => TOp::Slot { slot: 1 + r.below(3), parent: 0, c: Commitment::Confirmed },
                        1 => TOp::Write { k, content, slot: 1 + r.below(3), wv: j as u64, c: Commitment::Processed },
                        2 => TOp::Write { k, content, slot: 1, wv: j as u64, c: Commitment::Finalized },
                        _ => TOp::Init { k, content },
                    }
                })
                .collect()
        },
        |o| run_store(o, TAspect::Contents),
    );
}
pub fn suites_snapshot(ctx: &mut Ctx) {
    let n = if ctx.thorough { 10_000 } else { 700 };
    ctx.histories("snapshots of the token storage", "at the end of a random history a snapshot of each program is loaded into an empty store and into one with other accounts and mints; reads and lists against the model", n, gen_history, |o| run_store(o, TAspect::Snapshot));
}
