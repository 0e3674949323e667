// Executable contracts of the account contents: compression and conversion.
use crate::check;
use crate::fw::*;
use lite_account_manager_common::account_data::{Account, CompressionMethod, Data};
use solana_sdk::{account::Account as SolanaAccount, pubkey::Pubkey};

#[derive(Clone, Copy, Debug)]
pub enum M {
    Plain,
    Lz4(i32),
    Zstd(i32),
}
impl M {
    fn real(self) -> CompressionMethod {
        match self {
            M::Plain => CompressionMethod::None,
            M::Lz4(l) => CompressionMethod::Lz4(l),
            M::Zstd(l) => CompressionMethod::Zstd(l),
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Kind {
    Zeros,
    Ones,
    Cycle(u8),
    Random,
    Sparse,
    Header,
}
#[derive(Clone, Debug)]
pub struct Content {
    kind: Kind,
    len: usize,
    seed: u64,
}
impl Content {
    fn bytes(&self) -> Vec<u8> {
        let mut r = Rng::new(self.seed);
        match self.kind {
            Kind::Zeros => vec![0; self.len],
            Kind::Ones => vec![255; self.len],
            Kind::Cycle(n) => (0..self.len).map(|i| (i % (n as usize + 1)) as u8).collect(),
            Kind::Random => r.bytes(self.len),
            Kind::Sparse => {
                let mut v = vec![0; self.len];
                for _ in 0..self.len / 64 + 1 {
                    if self.len > 0 {
                        let i = r.us(self.len);
                        v[i] = r.next() as u8;
                    }
                }
                v
            }
            // what looks like something already compressed
            Kind::Header => {
                let c = r.bytes(self.len / 2 + 1);
                let mut v = match r.below(2) {
                    0 => lz4::block::compress(&c, None, true).unwrap(),
                    _ => (self.len as u32).to_le_bytes().to_vec(),
                };
                v.resize(self.len, 7);
                v
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct Case {
    content: Content,
    method: M,
    meta: u64,
}
fn run(cases: &[Case]) -> Result<bool, String> {
    let mut nt = false;
    for c in cases {
        let b = c.content.bytes();
        let d = Data::new(&b, c.method.real());
        check!(d.len() == b.len(), "len is {} for {} bytes", d.len(), b.len());
        check!(d.is_empty() == b.is_empty(), "is_empty is {} for {} bytes", d.is_empty(), b.len());
        let back = d.data();
        check!(back == b, "{} bytes read back as {} bytes{}", b.len(), back.len(), if back.len() == b.len() { ", altered" } else { "" });
        check!(d.data() == b, "the second read differs from the first");
        let enc = bincode::serialize(&d).map_err(|e| e.to_string())?;
        let dec: Data = bincode::deserialize(&enc).map_err(|e| e.to_string())?;
        check!(dec == d && dec.data() == b && dec.len() == b.len(), "serialized and deserialized, the content differs");
        if b.len() < 1 << 20 {
            let mut r = Rng::new(c.meta);
            let s = SolanaAccount {
                lamports: *r.pick(&[0, 1, u64::MAX, 890_880]),
                data: b.clone(),
                owner: Pubkey::new_from_array([r.below(3) as u8; 32]),
                executable: r.chance(1, 2),
                rent_epoch: *r.pick(&[0, 1, u64::MAX, 17]),
            };
            let a = Account::from_solana_account(s.clone(), c.method.real());
            check!(
                a.lamports == s.lamports && a.owner == s.owner && a.executable == s.executable && a.rent_epoch == s.rent_epoch && a.data.data() == b,
                "taken from {:?}, the account is {:?}",
                s,
                a
            );
            let t = a.to_solana_account();
            check!(t == s, "converted and converted back, {:?} became {:?}", s, t);
            let lit = Account { lamports: s.lamports, data: d, owner: s.owner, executable: s.executable, rent_epoch: s.rent_epoch };
            check!(lit.to_solana_account() == s, "{:?} reads as {:?}", s, lit.to_solana_account());
        }
        nt |= !b.is_empty() && !matches!(c.method, M::Plain);
    }
    Ok(nt)
}
const LEVELS: [i32; 14] = [0, 1, -1, 2, 3, 8, 12, 19, 22, 100, -7, -100, i32::MAX, i32::MIN];
fn methods() -> Vec<M> {
    let mut v = vec![M::Plain];
    for l in LEVELS {
        v.push(M::Lz4(l));
        v.push(M::Zstd(l));
    }
    v
}
pub fn suites(ctx: &mut Ctx) {
    let mut al = vec![];
    for m in methods() {
        for len in [0usize, 1, 2, 3, 12, 13, 64, 65, 165, 355, 4096, 65535, 65536, 65537] {
            for kind in [Kind::Zeros, Kind::Ones, Kind::Cycle(9), Kind::Random, Kind::Sparse, Kind::Header] {
                if len <= 4096 || matches!((m, kind), (M::Plain | M::Lz4(1..=8) | M::Zstd(1..=3), Kind::Zeros | Kind::Random)) {
                    al.push(Case { content: Content { kind, len, seed: len as u64 + 3 }, method: m, meta: al.len() as u64 });
                }
            }
        }
    }
    ctx.enumerate("contents-small", "a content of a chosen length and kind, compressed with every method and a range of levels; non-trivial when compressed and not empty", &al, 1, run);
    // the largest accounts of the chain, and what the storage accepts at most
    let mut al = vec![];
    for len in [10 * 1024 * 1024usize, 10 * 1024 * 1024 + 10240, 64 * 1024 * 1024] {
        for kind in [Kind::Zeros, Kind::Random, Kind::Sparse] {
            for m in [M::Plain, M::Lz4(8), M::Zstd(3)] {
                if len < 1 << 25 || (ctx.thorough || matches!((kind, m), (Kind::Zeros, M::Zstd(_)))) {
                    al.push(Case { content: Content { kind, len, seed: 1 }, method: m, meta: 1 });
                }
            }
        }
    }
    ctx.enumerate("contents-large", "contents of the largest account size and of 64 MiB; non-trivial when compressed", &al, 1, run);
    let n = if ctx.thorough { 60_000 } else { 3_000 };
    ctx.histories(
        "contents-random",
        "random contents of any kind up to 20000 bytes, any method, any level; non-trivial when compressed and not empty",
        n,
        |r, _| {
            let kind = match r.below(6) {
                0 => Kind::Zeros,
                1 => Kind::Ones,
                2 => Kind::Cycle(r.next() as u8),
                3 => Kind::Random,
                4 => Kind::Sparse,
                _ => Kind::Header,
            };
            let len = match r.below(4) {
                0 => r.us(8),
                1 => r.us(400),
                2 => r.us(4000),
                _ => r.us(20_000),
            };
            let l = if r.chance(1, 2) { *r.pick(&LEVELS) } else { r.below(40) as i32 - 15 };
            let l = if len > 4000 { l.clamp(-100, 9) } else { l };
            let method = match r.below(5) {
                0 => M::Plain,
                1 | 2 => M::Lz4(l),
                _ => M::Zstd(l),
            };
            vec![Case { content: Content { kind, len, seed: r.next() }, method, meta: r.next() }]
        },
        run,
    );
}
