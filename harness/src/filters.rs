// Executable contracts of the account filters and the filter stores, run on the real code.
use crate::check;
use crate::common::*;
use crate::fw::*;
use base64::Engine;
use lite_account_manager_common::{
    account_data::{AccountData, CompressionMethod},
    account_filter::{AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_filters_interface::AccountFiltersStoreInterface,
    except_filter_store::ExceptFilterStore,
    mutable_filter_store::MutableFilterStore,
    simple_filter_store::SimpleFilterStore,
};
use solana_sdk::pubkey::Pubkey;

/// a filter by meaning, plus how the bytes are written (0 bytes, 1 base58, 2 base64)
#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Size(u64),
    Mem(u64, Vec<u8>, u8),
}
impl F {
    pub fn real(&self) -> AccountFilterType {
        match self {
            F::Size(n) => AccountFilterType::Datasize(*n),
            F::Mem(o, b, e) => AccountFilterType::Memcmp(MemcmpFilter {
                offset: *o,
                data: match e {
                    0 => MemcmpFilterData::Bytes(b.clone()),
                    1 => MemcmpFilterData::Base58(bs58::encode(b).into_string()),
                    // texts that do not decode
                    3 => MemcmpFilterData::Base58(format!("0{}", bs58::encode(b).into_string())),
                    4 => MemcmpFilterData::Base64(format!("!{}", bs58::encode(b).into_string())),
                    _ => MemcmpFilterData::Base64(base64::engine::general_purpose::STANDARD.encode(b)),
                },
            }),
        }
    }
    pub fn matches(&self, d: &[u8]) -> bool {
        match self {
            F::Size(n) => d.len() as u128 == *n as u128,
            F::Mem(_, _, 3..) => false,
            F::Mem(o, b, _) => {
                let end = *o as u128 + b.len() as u128;
                end <= d.len() as u128 && (0..b.len()).all(|i| d[*o as usize + i] == b[i])
            }
        }
    }
    fn same(&self, o: &F) -> bool {
        match (self, o) {
            (F::Size(a), F::Size(b)) => a == b,
            (F::Mem(a, b, e), F::Mem(c, d, f)) => a == c && b == d && (e == f || (*e < 3 && *f < 3)),
            _ => false,
        }
    }
}
pub fn gen_f(r: &mut Rng, wide: bool) -> F {
    if r.chance(1, 3) {
        F::Size(if wide && r.chance(1, 8) { u64::MAX } else { r.below(5) })
    } else {
        let o = if wide { *r.pick(&[0, 1, 2, 3, 4, 5, 9, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32]) } else { r.below(4) };
        let n = r.us(3);
        let b = (0..n).map(|_| r.below(2) as u8).collect();
        F::Mem(o, b, if r.chance(1, 12) { 3 + r.below(2) as u8 } else { r.below(3) as u8 })
    }
}
fn datas() -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..4 {
        let mut nx = vec![];
        for c in &cur {
            for b in 0..2u8 {
                let mut d = c.clone();
                d.push(b);
                nx.push(d);
            }
        }
        v.extend(nx.clone());
        cur = nx;
    }
    v
}

#[derive(Clone, Debug)]
pub struct Probe {
    f: F,
    data: Vec<u8>,
}
fn run_match(ops: &[Probe]) -> Result<bool, String> {
    let mut nt = false;
    for p in ops {
        let got = p.f.real().allows(&p.data);
        let exp = p.f.matches(&p.data);
        check!(got == exp, "filter {:?} on {:?}: {}, expected {}", p.f, p.data, got, exp);
        nt |= exp || matches!(&p.f, F::Mem(o, b, _) if *o as u128 + b.len() as u128 > p.data.len() as u128);
    }
    Ok(nt)
}

pub fn suites_match(ctx: &mut Ctx) {
    // every filter of the small universe against every content of the small universe
    let mut al = vec![];
    for d in datas() {
        for n in 0..6 {
            al.push(Probe { f: F::Size(n), data: d.clone() });
        }
        for o in (0..6).chain([u64::MAX, u64::MAX - 1, u64::MAX - 2]) {
            for b in [vec![], vec![0], vec![1], vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1], vec![1, 0, 1], vec![0, 0, 0, 0, 0]] {
                for e in 0..5 {
                    al.push(Probe { f: F::Mem(o, b.clone(), e), data: d.clone() });
                }
            }
        }
    }
    ctx.enumerate("filter-small", "one filter against one content; non-trivial when it matches or its window leaves the content", &al, 1, run_match);
    let n = if ctx.thorough { 200_000 } else { 20_000 };
    ctx.histories(
        "filter-random",
        "filters cut out of random contents (half of them altered in one byte, offset or size) in all three encodings; non-trivial when it matches or its window leaves the content",
        n,
        |r, _| {
            let n = r.us(90);
            let data = r.bytes(n);
            let o = r.us(n + 1);
            let l = r.us(n - o + 1);
            let mut b = data[o..o + l].to_vec();
            let mut off = o as u64;
            match r.below(6) {
                0 if !b.is_empty() => {
                    let i = r.us(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                1 => off = off.wrapping_add(r.below(3)).wrapping_sub(1),
                2 => b.push(r.next() as u8),
                3 if r.chance(1, 4) => off = u64::MAX - r.below(100),
                _ => {}
            }
            let mut v = vec![Probe { f: F::Mem(off, b, r.below(3) as u8), data: data.clone() }];
            v.push(Probe { f: F::Size(n as u64 + r.below(3)), data });
            v
        },
        run_match,
    );
}

#[derive(Clone, Debug)]
pub struct Filt {
    accounts: Vec<u8>,
    program: Option<u8>,
    filters: Option<Vec<F>>,
}
impl Filt {
    pub fn real(&self) -> AccountFilter {
        AccountFilter {
            accounts: self.accounts.iter().map(|a| key(*a)).collect(),
            program_id: self.program.map(prog),
            filters: self.filters.as_ref().map(|v| v.iter().map(|f| f.real()).collect()),
        }
    }
    fn lists(&self, a: u8) -> bool {
        self.accounts.contains(&a)
    }
    fn covers(&self, p: u8, d: &[u8]) -> bool {
        self.program == Some(p) && self.filters.as_ref().map(|v| v.iter().all(|f| f.matches(d))).unwrap_or(true)
    }
    /// at least as restrictive as `o` on the program part
    fn within(&self, o: &Filt) -> bool {
        self.program == o.program
            && match (&self.filters, &o.filters) {
                (_, None) => true,
                (None, Some(_)) => false,
                (Some(a), Some(b)) => b.iter().all(|f| a.iter().any(|g| g.same(f))),
            }
    }
}
fn key(n: u8) -> Pubkey {
    pkp(9, n)
}
fn prog(n: u8) -> Pubkey {
    pkp(200, n)
}
#[derive(Clone, Debug)]
pub enum Op {
    Add(Filt),
    Ask(Filt),
}
fn gen_filt(r: &mut Rng) -> Filt {
    let accounts = (0..r.us(3)).map(|_| r.below(4) as u8).collect();
    let program = if r.chance(3, 4) { Some(r.below(2) as u8) } else { None };
    let filters = if r.chance(3, 4) { Some((0..r.us(4)).map(|_| gen_f(r, false)).collect()) } else { None };
    Filt { accounts, program, filters }
}

fn acc(a: u8, p: u8, d: &[u8], m: CompressionMethod) -> AccountData {
    account_c(key(a), prog(p), 5, d, 1, 1, m)
}

fn run_store(ops: &[Op]) -> Result<bool, String> {
    let ds = datas();
    let mut simple = SimpleFilterStore::default();
    let mut except = ExceptFilterStore::default();
    let mutable = MutableFilterStore::default();
    let mut added: Vec<Filt> = vec![];
    let mut nt = false;
    let mut asks: Vec<Filt> = vec![];
    for op in ops {
        match op {
            Op::Add(f) => {
                let r = f.real();
                if added.len() % 2 == 0 {
                    simple.add_account_filter(&r);
                } else {
                    simple.add_account_filters(&vec![r.clone()]);
                }
                except.add_account_filters(&vec![r.clone()]);
                mutable.add_account_filters(&vec![r]);
                added.push(f.clone());
                asks.push(f.clone());
            }
            Op::Ask(f) => asks.push(f.clone()),
        }
    }
    let by_key = |a: u8| added.iter().any(|f| f.lists(a));
    let by_prog = |p: u8, d: &[u8]| added.iter().any(|f| f.covers(p, d));
    for (i, d) in ds.iter().enumerate() {
        for p in 0..3u8 {
            for a in [0u8, 1, 2, 3] {
                if (i + a as usize) % 3 != 0 && by_key(a) {
                    continue;
                }
                let m = match i % 16 {
                    3 => CompressionMethod::Lz4(1),
                    7 => CompressionMethod::Zstd(1),
                    _ => CompressionMethod::None,
                };
                let x = acc(a, p, d, m);
                let exp = by_key(a) || by_prog(p, d);
                check!(simple.satisfies(&x) == exp, "store of {:?}: account {} of program {} with content {:?} is {}", added, a, p, d, if exp { "refused although a filter describes it" } else { "accepted although no filter describes it" });
                check!(mutable.satisfies(&x) == exp && mutable.satisfies_filter(&x) == exp, "mutable store of {:?}: account {} of program {} with content {:?}: expected {}", added, a, p, d, exp);
                check!(except.satisfies(&x) == !exp, "except store of {:?}: account {} of program {} with content {:?}: expected {}", added, a, p, d, !exp);
                nt |= exp;
            }
        }
    }
    for a in 0..5u8 {
        check!(simple.contains_account(key(a)) == by_key(a), "contains_account({}) of {:?}", a, added);
        check!(mutable.contains_account(key(a)) == by_key(a), "mutable contains_account({}) of {:?}", a, added);
    }
    for q in &asks {
        let r = q.real();
        let c = simple.contains_filter(&r);
        check!(mutable.contains_filter(&r) == c, "mutable and simple store disagree on {:?} after {:?}", q, added);
        // every account that the contained filter describes is accepted
        if c {
            for a in &q.accounts {
                check!(by_key(*a), "store of {:?} claims to contain {:?} but account {} is not watched", added, q, a);
            }
            if let Some(p) = q.program {
                for d in &ds {
                    check!(!q.covers(p, d) || by_prog(p, d), "store of {:?} claims to contain {:?} but an account of program {} with content {:?} is not accepted", added, q, p, d);
                }
            }
            nt = true;
        } else {
            let accounts = q.accounts.iter().all(|a| by_key(*a));
            let program = q.program.is_none() || added.iter().any(|f| f.program.is_some() && q.within(f));
            check!(!(accounts && program), "store of {:?} claims not to contain {:?} although a filter at most as restrictive was added for every part of it", added, q);
        }
        let e = except.contains_filter(&r);
        if e {
            for a in &q.accounts {
                check!(!by_key(*a), "except store of {:?} claims to contain {:?} but account {} is excluded", added, q, a);
            }
            if let Some(p) = q.program {
                for d in &ds {
                    check!(!(q.covers(p, d) && by_prog(p, d)), "except store of {:?} claims to contain {:?} but an account of program {} with content {:?} is excluded", added, q, p, d);
                }
            }
        } else {
            let touched = q.accounts.iter().any(|a| by_key(*a)) || q.program.map(|p| added.iter().any(|f| f.program == Some(p))).unwrap_or(false);
            check!(touched, "except store of {:?} claims not to contain {:?} although nothing of it is excluded", added, q);
        }
    }
    Ok(nt)
}

pub fn suites_store(ctx: &mut Ctx) {
    let n = if ctx.thorough { 60_000 } else { 5_000 };
    ctx.histories(
        "filter-store",
        "0-5 added filters and 1-4 asked filters (a third of them derived from an added one by adding, reordering or re-encoding conditions) over 4 accounts, 3 programs and every content of up to 4 bits-as-bytes; checked on the simple, mutable and except stores; non-trivial when something is accepted or contained",
        n,
        |r, _| {
            let mut v: Vec<Op> = vec![];
            let na = r.us(6);
            for _ in 0..na {
                v.push(Op::Add(gen_filt(r)));
            }
            for _ in 0..1 + r.us(4) {
                let f = if !v.is_empty() && r.chance(2, 3) {
                    let mut f = match r.pick(&v) {
                        Op::Add(f) | Op::Ask(f) => f.clone(),
                    };
                    if let Some(fs) = f.filters.as_mut() {
                        for x in fs.iter_mut() {
                            if let F::Mem(_, _, e) = x {
                                *e = r.below(3) as u8;
                            }
                        }
                        match r.below(4) {
                            0 if !fs.is_empty() => {
                                fs.remove(0);
                            }
                            1 => fs.reverse(),
                            _ => fs.insert(r.us(fs.len() + 1), gen_f(r, false)),
                        }
                    }
                    if r.chance(1, 3) {
                        f.accounts.push(r.below(4) as u8);
                    }
                    f
                } else {
                    gen_filt(r)
                };
                v.push(Op::Ask(f));
            }
            v
        },
        run_store,
    );
}
