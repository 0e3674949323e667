// Executable contracts of the filter conversions: JSON and the filters of the RPC library.
use crate::check;
use crate::common::*;
use crate::filters::{gen_f, F};
use crate::fw::*;
use base64::Engine;
use lite_account_manager_common::account_filter::{AccountFilter, AccountFilterType, AccountFilters};
use serde_json::{json, Value};
use solana_rpc_client_api::filter::{Memcmp, MemcmpEncodedBytes, RpcFilterType};
use solana_sdk::pubkey::Pubkey;

#[derive(Clone, Debug)]
pub struct Ask {
    accounts: Vec<u8>,
    program: Option<u8>,
    filters: Option<Vec<F>>,
}
fn key(n: u8) -> Pubkey {
    match n {
        0 => Pubkey::new_from_array([0; 32]),
        1 => Pubkey::new_from_array([255; 32]),
        n => pk(n),
    }
}
impl Ask {
    fn real(&self) -> AccountFilter {
        AccountFilter {
            accounts: self.accounts.iter().map(|n| key(*n)).collect(),
            program_id: self.program.map(key),
            filters: self.filters.as_ref().map(|v| v.iter().map(|f| f.real()).collect()),
        }
    }
    fn json(&self) -> Value {
        let mut m = serde_json::Map::new();
        if !self.accounts.is_empty() {
            m.insert("accounts".into(), json!(self.accounts.iter().map(|n| bs58::encode(key(*n).to_bytes()).into_string()).collect::<Vec<_>>()));
        }
        if let Some(p) = self.program {
            m.insert("programId".into(), json!(bs58::encode(key(p).to_bytes()).into_string()));
        }
        if let Some(v) = &self.filters {
            m.insert("filters".into(), Value::Array(v.iter().map(json_of).collect()));
        }
        Value::Object(m)
    }
}
fn json_of(f: &F) -> Value {
    match f {
        F::Size(n) => json!({ "datasize": n }),
        F::Mem(o, b, e) => json!({"memcmp": {"offset": o, "data": match e {
            0 => json!({ "bytes": b }),
            1 => json!({ "base58": bs58::encode(b).into_string() }),
            3 => json!({ "base58": format!("0{}", bs58::encode(b).into_string()) }),
            4 => json!({ "base64": format!("!{}", bs58::encode(b).into_string()) }),
            _ => json!({ "base64": base64::engine::general_purpose::STANDARD.encode(b) }),
        }}}),
    }
}
fn gen_ask(r: &mut Rng) -> Ask {
    Ask {
        accounts: (0..r.us(4)).map(|_| r.below(6) as u8).collect(),
        program: r.chance(2, 3).then(|| r.below(6) as u8),
        filters: r.chance(2, 3).then(|| (0..r.us(4)).map(|_| gen_f(r, true)).collect()),
    }
}
fn run_json(asks: &[Ask]) -> Result<bool, String> {
    let real: AccountFilters = asks.iter().map(|a| a.real()).collect();
    let text = serde_json::to_string(&real).map_err(|e| format!("cannot be written: {}", e))?;
    let back: AccountFilters = serde_json::from_str(&text).map_err(|e| format!("{} cannot be read back: {}", text, e))?;
    check!(back == real, "{} reads back as {:?}", text, back);
    let pretty: AccountFilters = serde_json::from_str(&serde_json::to_string_pretty(&real).unwrap()).map_err(|e| e.to_string())?;
    check!(pretty == real, "{} reads back as {:?}", text, pretty);
    let plain = Value::Array(asks.iter().map(|a| a.json()).collect());
    let read: AccountFilters = serde_json::from_value(plain.clone()).map_err(|e| format!("{} cannot be read: {}", plain, e))?;
    check!(read == real, "{} is read as {:?}", plain, read);
    Ok(asks.iter().any(|a| a.filters.as_ref().map_or(false, |f| !f.is_empty())))
}

// ---- what cannot be read is refused --------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Bad {
    ask: Ask,
    how: u8,
    at: usize,
}
fn run_bad(ops: &[Bad]) -> Result<bool, String> {
    let mut nt = false;
    for b in ops {
        let mut v = b.ask.json();
        let o = v.as_object_mut().unwrap();
        let badkey = match b.how % 5 {
            0 => json!("not a key"),
            1 => json!("4MangoMjqJ2firMokCjjGgoK8d4MXcrgL7XJaL3w6fV0"),
            2 => json!(7),
            3 => json!(""),
            _ => json!("11111111111111111111111111111111111111111111111111111111111111111111"),
        };
        let badfilter = match b.how % 9 {
            0 => json!({"datasize": "5"}),
            1 => json!({"datasize": -1}),
            2 => json!({"memcmp": {"data": {"bytes": [1]}}}),
            3 => json!({"memcmp": {"offset": 1}}),
            4 => json!({"memcmp": {"offset": -1, "data": {"bytes": [1]}}}),
            5 => json!({"memcmp": {"offset": 1, "data": {"bytes": [256]}}}),
            6 => json!({"memcmp": {"offset": 1, "data": {"hex": "00"}}}),
            7 => json!({"something": 1}),
            _ => json!("datasize"),
        };
        match b.how % 3 {
            0 => {
                let mut a = o.get("accounts").and_then(|a| a.as_array().cloned()).unwrap_or_default();
                a.insert(b.at % (a.len() + 1), badkey);
                o.insert("accounts".into(), Value::Array(a));
            }
            1 => {
                o.insert("programId".into(), badkey);
            }
            _ => {
                let mut a = o.get("filters").and_then(|a| a.as_array().cloned()).unwrap_or_default();
                a.insert(b.at % (a.len() + 1), badfilter);
                o.insert("filters".into(), Value::Array(a));
            }
        }
        let text = v.to_string();
        let r: Result<AccountFilter, _> = serde_json::from_str(&text);
        check!(r.is_err(), "{} is read as {:?}", text, r.unwrap());
        let r: Result<AccountFilters, _> = serde_json::from_value(json!([b.ask.json(), v]));
        check!(r.is_err(), "{} in a list is read as {:?}", text, r.unwrap());
        nt = true;
    }
    Ok(nt)
}

// ---- filters of the RPC library ------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Seen {
    filters: Vec<F>,
    data: Vec<u8>,
    deprecated: bool,
}
fn rpc_of(f: &F, deprecated: bool) -> RpcFilterType {
    match f {
        F::Size(n) => RpcFilterType::DataSize(*n),
        F::Mem(o, b, e) => {
            let b58 = |s: String| {
                #[allow(deprecated)]
                if deprecated {
                    MemcmpEncodedBytes::Binary(s)
                } else {
                    MemcmpEncodedBytes::Base58(s)
                }
            };
            RpcFilterType::Memcmp(Memcmp::new(
                *o as usize,
                match e {
                    0 => MemcmpEncodedBytes::Bytes(b.clone()),
                    1 => b58(bs58::encode(b).into_string()),
                    3 => b58(format!("0{}", bs58::encode(b).into_string())),
                    4 => MemcmpEncodedBytes::Base64(format!("!{}", bs58::encode(b).into_string())),
                    _ => MemcmpEncodedBytes::Base64(base64::engine::general_purpose::STANDARD.encode(b)),
                },
            ))
        }
    }
}
fn run_rpc(ops: &[Seen]) -> Result<bool, String> {
    let mut nt = false;
    for s in ops {
        let af = AccountFilter { accounts: vec![], program_id: None, filters: Some(s.filters.iter().map(|f| f.real()).collect()) };
        let rpc = af.get_rpc_filter().ok_or("a filter with conditions gives no RPC filter")?;
        check!(rpc.len() == s.filters.len(), "{} conditions became {}", s.filters.len(), rpc.len());
        let acc = |m| account_c(pk(3), pk(4), 1, &s.data, 1, 1, m);
        use lite_account_manager_common::account_data::CompressionMethod as C;
        for (i, f) in s.filters.iter().enumerate() {
            let exp = f.matches(&s.data);
            for (name, r) in [("converted", rpc[i].clone()), ("original", rpc_of(f, s.deprecated))] {
                let got = match &r {
                    RpcFilterType::DataSize(n) => *n == s.data.len() as u64,
                    RpcFilterType::Memcmp(m) => m.bytes_match(&s.data),
                    _ => return Err("unexpected RPC filter".into()),
                };
                check!(got == exp, "the {} RPC filter of {:?} says {} on {:?}", name, f, got, s.data);
                let back = AccountFilterType::from(&r);
                check!(back.allows(&s.data) == exp, "taken from the {} RPC filter, {:?} became {:?}, which says {} on {:?}", name, f, back, !exp, s.data);
                for m in [C::None, C::Lz4(1), C::Zstd(1)] {
                    let a = acc(m);
                    check!(a.allows(&r) == exp, "the account {} is {}admitted by {:?}", sig(&a), if exp { "not " } else { "" }, f);
                }
            }
            nt |= exp;
        }
    }
    let none = AccountFilter { accounts: vec![pk(1)], program_id: None, filters: None };
    check!(none.get_rpc_filter().is_none(), "no conditions gave an RPC filter");
    Ok(nt)
}

pub fn suites(ctx: &mut Ctx) {
    let t = if ctx.thorough { 20 } else { 1 };
    ctx.histories(
        "filters-json",
        "lists of filters (any accounts, program, conditions in all encodings, extreme sizes and offsets) written as JSON and read back, and read from the documented form; non-trivial with conditions",
        6_000 * t,
        |r, _| (0..r.us(4)).map(|_| gen_ask(r)).collect(),
        run_json,
    );
    ctx.histories(
        "filters-malformed",
        "a good filter with one key or condition that cannot be read put in at a random place: reading fails with an error; all non-trivial",
        4_000 * t,
        |r, _| vec![Bad { ask: gen_ask(r), how: r.next() as u8, at: r.us(4) }],
        run_bad,
    );
    let mut al = vec![];
    for f in [F::Size(0), F::Size(2), F::Size(u64::MAX)] {
        al.push(f);
    }
    for o in [0u64, 1, 2, 3, u64::MAX, 1 << 32] {
        for b in [vec![], vec![0], vec![1], vec![1, 0]] {
            for e in 0..5 {
                al.push(F::Mem(o, b.clone(), e));
            }
        }
    }
    let mut seen = vec![];
    for f in &al {
        for d in [vec![], vec![0], vec![1], vec![1, 0], vec![0, 1], vec![1, 1, 0]] {
            for deprecated in [false, true] {
                seen.push(Seen { filters: vec![f.clone()], data: d.clone(), deprecated });
            }
        }
    }
    ctx.enumerate("filters-rpc-small", "one condition against one content, converted to and from the RPC filter; non-trivial when it matches", &seen, 1, run_rpc);
    ctx.histories(
        "filters-rpc",
        "lists of conditions cut out of a random content or random, converted to and from RPC filters; non-trivial when one matches",
        6_000 * t,
        |r, _| {
            let n = r.us(40);
            let data = r.bytes(n);
            let filters = (0..1 + r.us(4))
                .map(|_| {
                    if n > 0 && r.chance(1, 2) {
                        let o = r.us(n);
                        let l = r.us(n - o + 1);
                        F::Mem(o as u64, data[o..o + l].to_vec(), r.below(3) as u8)
                    } else {
                        gen_f(r, true)
                    }
                })
                .collect();
            vec![Seen { filters, data, deprecated: r.chance(1, 2) }]
        },
        run_rpc,
    );
}
