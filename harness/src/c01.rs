// Executable contract of AccountDataByCommitment, run on the real code.
use crate::check;
use crate::common::*;
use crate::fw::*;
use lite_account_manager_common::{account_data::AccountData, commitment::Commitment};
use lite_account_storage::account_data_by_commitment::AccountDataByCommitment;
use std::collections::BTreeMap;

#[derive(Clone)]
pub enum Op {
    Update(u64, u64, Commitment),
    Promote(u64, Commitment),
    Delete,
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Update(s, w, c) => write!(f, "write slot={} version={} as {}", s, w, cname(*c)),
            Op::Promote(s, c) => write!(f, "slot {} becomes {}", s, cname(*c)),
            Op::Delete => write!(f, "delete"),
        }
    }
}

#[derive(Default)]
struct Model {
    processed: BTreeMap<u64, AccountData>,
    confirmed: Option<AccountData>,
    finalized: Option<AccountData>,
}
fn older(a: &AccountData, b: &AccountData) -> bool {
    (a.updated_slot, a.write_version) < (b.updated_slot, b.write_version)
}
fn newest(cur: &mut Option<AccountData>, d: &AccountData) -> Option<Option<AccountData>> {
    let ch = cur.as_ref().map(|c| older(c, d)).unwrap_or(true);
    if ch {
        Some(cur.replace(d.clone()))
    } else {
        None
    }
}

fn mk(slot: u64, wv: u64, n: usize) -> AccountData {
    account(pk(1), pk(2), 1 + n as u64, &[n as u8, slot as u8, wv as u8], slot, wv)
}

pub fn run(ops: &[Op]) -> Result<bool, String> {
    let mut real: Option<AccountDataByCommitment> = None;
    let mut m = Model::default();
    let mut nt = 0;
    for (n, op) in ops.iter().enumerate() {
        match op {
            Op::Update(s, w, c) => {
                let d = mk(*s, *w, n);
                let mut changed = false;
                let first = real.is_none();
                // model
                let rec = m.processed.get(s).map(|p| p.write_version < *w).unwrap_or(true);
                if rec {
                    m.processed.insert(*s, d.clone());
                    changed = true;
                }
                if *c != Commitment::Processed {
                    let ch = newest(&mut m.confirmed, &d).is_some();
                    changed |= ch && *c == Commitment::Confirmed;
                }
                if *c == Commitment::Finalized {
                    changed |= newest(&mut m.finalized, &d).is_some();
                }
                match real.as_mut() {
                    None => {
                        real = Some(if *c == Commitment::Finalized && n % 2 == 1 {
                            AccountDataByCommitment::initialize(d)
                        } else {
                            AccountDataByCommitment::new(d, *c)
                        })
                    }
                    Some(r) => {
                        let got = r.update(d, *c);
                        check!(got == changed, "op {}: {:?} reported {} but the visible state {}", n, op, got, if changed { "changed" } else { "did not change" });
                    }
                }
                if !first && changed {
                    nt += 1;
                }
            }
            Op::Promote(s, c) => {
                let Some(r) = real.as_mut() else { continue };
                let got = r.promote_slot_commitment(*s, *c);
                let mut exp = None;
                if let Some(d) = m.processed.get(s).cloned() {
                    if *c != Commitment::Processed {
                        let a = newest(&mut m.confirmed, &d);
                        let b = if *c == Commitment::Finalized { newest(&mut m.finalized, &d) } else { a };
                        exp = b.map(|prev| (d, prev));
                        nt += 1;
                    }
                }
                if *c == Commitment::Finalized {
                    let last = m.processed.keys().next_back().copied();
                    m.processed.retain(|k, _| *k >= *s || Some(*k) == last);
                }
                let g = got.as_ref().map(|(a, p)| (sig(a), sigo(p)));
                let e = exp.as_ref().map(|(a, p)| (sig(a), sigo(p)));
                check!(g == e, "op {}: {:?} returned {:?}, expected {:?}", n, op, g, e);
            }
            Op::Delete => {
                if let Some(r) = real.as_mut() {
                    r.delete();
                }
                m = Model::default();
            }
        }
        let Some(r) = real.as_ref() else { continue };
        let exp_p = m.processed.values().next_back().cloned().or(m.confirmed.clone());
        for (c, e) in [(Commitment::Processed, &exp_p), (Commitment::Confirmed, &m.confirmed), (Commitment::Finalized, &m.finalized)] {
            let g = r.get_account_data(c);
            check!(sigo(&g) == sigo(e), "after op {} {:?}: read at {} gives {}, expected {}", n, op, cname(c), sigo(&g), sigo(e));
            let gf = r.get_account_data_filtered(c, &vec![]);
            check!(sigo(&gf) == sigo(e), "after op {} {:?}: unfiltered program read at {} gives {}, expected {}", n, op, cname(c), sigo(&gf), sigo(e));
        }
        let (p, c, f) = (r.get_account_data(COMMITMENTS[0]), r.get_account_data(COMMITMENTS[1]), r.get_account_data(COMMITMENTS[2]));
        check!(f.is_none() || c.as_ref().map(|c| !older(c, f.as_ref().unwrap())).unwrap_or(false), "after op {} {:?}: finalized {} is ahead of confirmed {}", n, op, sigo(&f), sigo(&c));
        check!(c.is_none() || p.as_ref().map(|p| !older(p, c.as_ref().unwrap())).unwrap_or(false), "after op {} {:?}: confirmed {} is ahead of processed {}", n, op, sigo(&c), sigo(&p));
        let keys: Vec<u64> = r.processed_accounts.keys().copied().collect();
        let ek: Vec<u64> = m.processed.keys().copied().collect();
        check!(keys == ek, "after op {} {:?}: unfinalized slots kept {:?}, expected {:?}", n, op, keys, ek);
    }
    Ok(nt >= 1)
}

/// What readers of each level see, after every step of the same histories.
pub fn suites_visible(ctx: &mut Ctx) {
    suites_of(ctx, 3, if ctx.thorough { 200_000 } else { 30_000 })
}

pub fn suites(ctx: &mut Ctx) {
    let (len, n) = if ctx.thorough { (5, 400_000) } else { (4, 60_000) };
    suites_of(ctx, len, n)
}

fn suites_of(ctx: &mut Ctx, len: usize, n: u64) {
    let mut al = vec![];
    for s in [5u64, 6] {
        for w in [1u64, 2] {
            for c in COMMITMENTS {
                al.push(Op::Update(s, w, c));
            }
        }
        al.push(Op::Promote(s, Commitment::Confirmed));
        al.push(Op::Promote(s, Commitment::Finalized));
    }
    al.push(Op::Promote(7, Commitment::Finalized));
    ctx.enumerate("commitment-small", "one account, writes of 2 slots x 2 versions x 3 levels and slot promotions; non-trivial when a later write or a promotion had an effect", &al, len, run);
    ctx.histories(
        "commitment-random",
        "one account, 3-30 writes/promotions/deletes over up to 40 slots incl. slot 0 and u64::MAX; non-trivial when a later write or a promotion had an effect",
        n,
        |r, i| {
            let slots: Vec<u64> = match i % 4 {
                0 => vec![0, 1, 2, 3],
                1 => vec![1, 10, 100, u64::MAX, u64::MAX - 1],
                2 => (0..8).collect(),
                _ => (100..140).collect(),
            };
            let len = 3 + r.us(28);
            (0..len)
                .map(|_| match r.below(20) {
                    0..=11 => Op::Update(*r.pick(&slots), if r.chance(1, 12) { u64::MAX } else { r.below(4) }, COMMITMENTS[if r.chance(3, 5) { 0 } else { r.us(3) }]),
                    12..=18 => Op::Promote(*r.pick(&slots), COMMITMENTS[1 + r.us(2)]),
                    _ => if r.chance(1, 6) { Op::Delete } else { Op::Promote(*r.pick(&slots), COMMITMENTS[0]) },
                })
                .collect()
        },
        run,
    );
}
