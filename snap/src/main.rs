// The snapshot reader of the repository, compiled from its sources, run on account files,
// directories and archives written here.
mod fw;
#[path = "/repo/simulate_from_snapshot/src/snapshot_utils/mod.rs"]
#[allow(warnings)]
mod snapshot_utils;
use fw::*;
use snapshot_utils::append_vec::AppendVec;
use snapshot_utils::archived::ArchiveSnapshotExtractor;
use snapshot_utils::parallel::{par_iter_append_vecs, AppendVecConsumer};
use snapshot_utils::unpacked::UnpackedSnapshotExtractor;
use snapshot_utils::{append_vec_iter, ReadProgressTracking, SnapshotExtractor, SnapshotResult};
use solana_sdk::account::ReadableAccount;
use solana_sdk::pubkey::Pubkey;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

fn main() {
    drive(|prop, ctx| {
        if prop != "C20" {
            return false;
        }
        suites(ctx);
        true
    })
}

// ---- what is stored ----
#[derive(Clone, Debug, PartialEq)]
struct Stored {
    lamports: u64,
    rent: u64,
    exec: bool,
    len: u64,
    // what the record says its data length is, when not its length
    says: Option<u64>,
    seed: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Read1 {
    pubkey: [u8; 32],
    lamports: u64,
    rent: u64,
    owner: [u8; 32],
    exec: bool,
    data: Vec<u8>,
}
fn gen_stored(r: &mut Rng) -> Stored {
    let lens = [0, 1, 7, 8, 9, 15, 16, 24, 63, 64, 65, 82, 165, 200, 1000, 5000];
    let len = *r.pick(&lens);
    let says = if r.chance(1, 14) {
        let far = [u64::MAX, u64::MAX - 7, u64::MAX - 8, u64::MAX - 135, u64::MAX - 136, u64::MAX - 143, u64::MAX / 2, 1 << 32, (1 << 32) + len, 1 << 63];
        Some(if r.chance(1, 2) { *r.pick(&far) } else { len.saturating_add(r.below(300)).saturating_sub(r.below(200)) })
    } else {
        None
    };
    Stored { lamports: r.next() >> r.below(64), rent: r.next() >> r.below(64), exec: r.chance(1, 2), len, says, seed: r.below(1000) }
}
/// The bytes of a file: each record 8-aligned, as the validator writes them.
fn bytes_of(v: &[Stored]) -> Vec<u8> {
    let mut b = vec![];
    for s in v {
        while b.len() % 8 != 0 {
            b.push(0xAA);
        }
        let mut r = Rng::new(s.seed + 77);
        b.extend(r.next().to_le_bytes());
        b.extend(s.says.unwrap_or(s.len).to_le_bytes());
        b.extend(r.bytes(32));
        b.extend(s.lamports.to_le_bytes());
        b.extend(s.rent.to_le_bytes());
        b.extend(r.bytes(32));
        b.extend([s.exec as u8, 0, 0, 0, 0, 0, 0, 0]);
        b.extend(r.bytes(32));
        b.extend(r.bytes(s.len as usize));
    }
    b
}
/// What a file holds, by the layout alone. None: the bytes at a flag are neither 0 nor 1, which
/// no program may look at.
fn expected(b: &[u8], n: usize) -> Option<Vec<Read1>> {
    let u = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    let k = |o: usize| -> [u8; 32] { b[o..o + 32].try_into().unwrap() };
    let mut o = 0usize;
    let mut v = vec![];
    while o as u128 + 136 <= n as u128 {
        let end = o as u128 + 136 + u(o + 8) as u128;
        if end > n as u128 {
            break;
        }
        if b[o + 96] > 1 {
            return None;
        }
        v.push(Read1 { pubkey: k(o + 16), lamports: u(o + 48), rent: u(o + 56), owner: k(o + 64), exec: b[o + 96] == 1, data: b[o + 136..end as usize].to_vec() });
        o = (end as usize + 7) / 8 * 8;
    }
    Some(v)
}
fn read_all(v: &AppendVec) -> Result<Vec<Read1>, String> {
    let mut out = vec![];
    for h in append_vec_iter(v) {
        check!(out.len() < 100_000, "reading does not end");
        let a = h.access().ok_or_else(|| format!("account {} was given, but cannot be read", out.len()))?;
        let c = a.clone_account();
        check!(c.data() == a.data && c.lamports() == a.account_meta.lamports && *c.owner() == a.account_meta.owner, "account {}: its copy differs from it", out.len());
        check!(c.executable() == a.account_meta.executable && c.rent_epoch() == a.account_meta.rent_epoch, "account {}: its copy differs from it", out.len());
        out.push(Read1 {
            pubkey: a.meta.pubkey.to_bytes(),
            lamports: c.lamports(),
            rent: c.rent_epoch(),
            owner: c.owner().to_bytes(),
            exec: c.executable(),
            data: c.data().to_vec(),
        });
    }
    Ok(out)
}
fn same(what: &str, got: &[Read1], want: &[Read1]) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) => check!(g == w, "{}: account {} was read as {:?}, stored as {:?}", what, i, brief(g), brief(w)),
            (Some(g), None) => return Err(format!("{}: {} accounts are stored, but also {:?} was read", what, want.len(), brief(g))),
            (None, Some(w)) => return Err(format!("{}: only {} accounts were read; missing {:?}", what, got.len(), brief(w))),
            _ => {}
        }
    }
    Ok(())
}
fn brief(r: &Read1) -> String {
    let mut d = format!("{:?}", r.data);
    d.truncate(60);
    format!("{} lamports {} owner {} rent {} executable {} data[{}] {}", Pubkey::from(r.pubkey), r.lamports, Pubkey::from(r.owner), r.rent, r.exec, r.data.len(), d)
}

// ---- scratch files ----
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("lam-snap-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn write(&self, name: &str, b: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, b).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}
/// A reader that gives its bytes in pieces.
struct Pieces<'a> {
    b: &'a [u8],
    step: usize,
}
impl<'a> Read for Pieces<'a> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.b.len().min(out.len()).min(self.step);
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

// ---- one account file ----
#[derive(Clone, Debug)]
enum FileOp {
    Put(Stored),
    Junk(u64, u64),
    // the recorded length, from the end of the bytes
    Len(i64),
    Step(usize),
}
fn gen_file(r: &mut Rng, i: u64) -> Vec<FileOp> {
    let mut v: Vec<FileOp> = (0..r.us(5)).map(|_| FileOp::Put(gen_stored(r))).collect();
    if i % 4 == 1 {
        v.push(FileOp::Junk(r.below(300), r.next()));
    }
    if r.chance(1, 2) {
        v.push(FileOp::Len(r.below(400) as i64 - 350));
    }
    v.push(FileOp::Step(1 + r.us(400)));
    v
}
fn run_file(ops: &[FileOp]) -> Result<bool, String> {
    let stored: Vec<Stored> = ops.iter().filter_map(|o| if let FileOp::Put(s) = o { Some(s.clone()) } else { None }).collect();
    let mut b = bytes_of(&stored);
    let (mut len, mut step) = (None, 1 << 20);
    for o in ops {
        match o {
            FileOp::Junk(n, s) => b.extend(Rng::new(*s).bytes(*n as usize)),
            FileOp::Len(d) => len = Some(*d),
            FileOp::Step(n) => step = *n,
            _ => {}
        }
    }
    let n = (b.len() as i64 + len.unwrap_or(0)).max(0) as usize;
    try_file(&b, n, step)
}
fn try_file(b: &[u8], n: usize, step: usize) -> Result<bool, String> {
    let s = Scratch::new();
    let p = s.write("1.2", b);
    let want = if n <= b.len() {
        match expected(b, n) {
            Some(w) => Some(w),
            None => return Ok(false),
        }
    } else {
        None
    };
    let from_file = AppendVec::new_from_file(&p, n, 7);
    let from_reader = AppendVec::new_from_reader(&mut Pieces { b, step }, n, 7);
    for (how, r) in [("from the file", from_file), ("from the stream", from_reader)] {
        match (&want, r) {
            (None, Ok(v)) => return Err(format!("{}: {} bytes are recorded and {} are there; the file was taken, with {} accounts", how, n, b.len(), read_all(&v)?.len())),
            (None, Err(_)) => {}
            (Some(w), Ok(v)) => {
                check!(v.len() == n && v.slot() == 7, "{}: length {} and slot {} instead of {} and 7", how, v.len(), v.slot(), n);
                same(how, &read_all(&v)?, w)?;
            }
            // an empty file holds nothing, and may be refused
            (Some(w), Err(e)) => check!(w.is_empty(), "{}: refused, although all of its {} bytes are there: {}", how, n, e),
        }
    }
    Ok(want.map(|w| !w.is_empty()).unwrap_or(true))
}

// ---- whole snapshots ----
#[derive(Clone, Debug)]
struct Kept {
    slot: u64,
    id: u64,
    accounts: Vec<Stored>,
    extra: u64,
    // Some(d): recorded in the manifest with its length, and d more
    listed: Option<i64>,
}
#[derive(Clone, Debug)]
enum SnapOp {
    File(Kept),
    Other(String),
    // in the manifest, but no file
    Lost(u64, u64),
    First(u64),
    Threads(usize),
}
fn gen_snap(r: &mut Rng, _i: u64) -> Vec<SnapOp> {
    let mut v = vec![];
    for _ in 0..1 + r.us(5) {
        let mut accounts: Vec<Stored> = (0..r.us(4)).map(|_| Stored { says: None, ..gen_stored(r) }).collect();
        if accounts.is_empty() && r.chance(2, 3) {
            accounts.push(Stored { says: None, ..gen_stored(r) });
        }
        let listed = if r.chance(1, 8) {
            None
        } else if r.chance(1, 6) {
            Some(1 + r.below(200) as i64)
        } else if r.chance(1, 6) {
            Some(-(r.below(200) as i64))
        } else {
            Some(0)
        };
        let slots = [0, 1, 2, 300, 1 << 33];
        v.push(SnapOp::File(Kept { slot: *r.pick(&slots), id: r.below(4) + if r.chance(1, 5) { 1 << 32 } else { 0 }, accounts, extra: if r.chance(1, 3) { r.below(40) } else { 0 }, listed }));
        if r.chance(1, 8) {
            v.push(SnapOp::Other(r.pick(&["version", "1", "x.1", "1.x", "1.2.3", ".1", "1."]).to_string()));
        }
        if r.chance(1, 10) {
            v.push(SnapOp::Lost(r.below(3), 9 + r.below(2)));
        }
    }
    if r.chance(1, 9) {
        v.push(SnapOp::First(r.below(2)));
    }
    v.push(SnapOp::Threads(1 + r.us(4)));
    v
}
struct Snap {
    files: Vec<(u64, u64, Vec<u8>, Option<usize>)>,
    others: Vec<String>,
    manifest: Vec<u8>,
    slot: u64,
    status: Option<u64>,
    threads: usize,
}
fn put(b: &mut Vec<u8>, x: u64) {
    b.extend(x.to_le_bytes());
}
// a bank all of whose fields are zero or empty
fn bank_len() -> usize {
    thread_local! { static N: usize = {
        struct Zeros(usize);
        impl Read for Zeros {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                b.fill(0);
                self.0 += b.len();
                Ok(b.len())
            }
        }
        let mut z = Zeros(0);
        let r: Result<snapshot_utils::solana::DeserializableVersionedBank, _> = snapshot_utils::solana::deserialize_from(&mut z);
        r.map(|_| z.0).unwrap_or(0)
    } }
    N.with(|n| *n)
}
fn build(ops: &[SnapOp]) -> Snap {
    let mut s = Snap { files: vec![], others: vec![], manifest: vec![0; bank_len()], slot: 300, status: None, threads: 2 };
    let mut lost = vec![];
    for o in ops {
        match o {
            SnapOp::File(k) => {
                if s.files.iter().any(|f| (f.0, f.1) == (k.slot, k.id)) {
                    continue;
                }
                let mut b = bytes_of(&k.accounts);
                let n = b.len();
                b.extend(vec![0x11; k.extra as usize]);
                let rec = k.listed.map(|d| if d > 0 { b.len() + d as usize } else { (n as i64 + d).max(0) as usize });
                s.files.push((k.slot, k.id, b, rec));
            }
            SnapOp::Other(n) => s.others.push(n.clone()),
            SnapOp::Lost(a, b) => lost.push((*a, *b, 500)),
            SnapOp::First(x) => s.status = Some(*x),
            SnapOp::Threads(n) => s.threads = *n,
        }
    }
    s.others.sort();
    s.others.dedup();
    // the manifest
    let mut by: std::collections::BTreeMap<u64, Vec<(u64, usize)>> = Default::default();
    for (slot, id, _, rec) in &s.files {
        if let Some(n) = rec {
            by.entry(*slot).or_default().push((*id, *n));
        }
    }
    for (a, b, n) in lost {
        by.entry(a).or_default().push((b, n));
    }
    let m = &mut s.manifest;
    put(m, by.len() as u64);
    for (slot, v) in &by {
        put(m, *slot);
        put(m, v.len() as u64);
        for (id, n) in v {
            put(m, *id);
            put(m, *n as u64);
        }
    }
    put(m, 3);
    put(m, s.slot);
    m.extend([5; 72]);
    s
}
fn wanted(s: &Snap) -> (Vec<(u64, usize, Vec<Read1>)>, usize) {
    let mut refused = 0;
    let mut v = vec![];
    for (slot, _, b, rec) in &s.files {
        match rec {
            Some(n) if *n <= b.len() => v.push((*slot, *n, expected(b, *n).unwrap())),
            _ => refused += 1,
        }
    }
    (v, refused)
}
/// The files that were given, in any order, against the ones that the manifest lists.
fn judge(how: &str, s: &Snap, got: Vec<SnapshotResult<AppendVec>>, ordered: bool) -> Result<bool, String> {
    let (mut want, refused) = wanted(s);
    let mut bad = 0;
    let mut have: Vec<(u64, usize, Vec<Read1>)> = vec![];
    for g in got {
        match g {
            Ok(v) => have.push((v.slot(), v.len(), read_all(&v)?)),
            Err(_) => bad += 1,
        }
    }
    // what holds nothing may be refused
    let n = want.len();
    want.retain(|w| w.1 > 0);
    have.retain(|h| h.1 > 0);
    let dropped = n - want.len();
    if !ordered {
        let key = |x: &(u64, usize, Vec<Read1>)| (x.0, x.1, format!("{:?}", x.2));
        have.sort_by_key(key);
        want.sort_by_key(key);
    }
    check!(have.len() <= want.len(), "{}: {} files were given that the manifest does not list or that are shorter than recorded (slots {:?} given, {:?} to be given)", how, have.len() - want.len(), have.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>());
    check!(have.len() == want.len(), "{}: {} of the {} files were given, {} refused", how, have.len(), want.len(), bad);
    check!(bad >= refused && bad <= refused + dropped, "{}: {} files were refused instead of {}", how, bad, refused);
    for (h, w) in have.iter().zip(&want) {
        check!(h.0 == w.0 && h.1 == w.1, "{}: a file was given with slot {} and length {} instead of {} and {}", how, h.0, h.1, w.0, w.1);
        same(&format!("{}, file of slot {}", how, h.0), &h.2, &w.2)?;
    }
    Ok(!want.is_empty())
}
struct NoTracking;
impl ReadProgressTracking for NoTracking {
    fn new_read_progress_tracker(&self, _: &Path, rd: Box<dyn Read>, _: u64) -> SnapshotResult<Box<dyn Read>> {
        Ok(rd)
    }
}
fn write_dir(s: &Snap) -> Scratch {
    let d = Scratch::new();
    d.write(&format!("snapshots/{}/{}", s.slot, s.slot), &s.manifest);
    d.write("snapshots/status_cache", b"x");
    std::fs::create_dir_all(d.0.join("accounts")).unwrap();
    for (slot, id, b, _) in &s.files {
        d.write(&format!("accounts/{}.{}", slot, id), b);
    }
    for o in &s.others {
        d.write(&format!("accounts/{}", o), b"other");
    }
    d
}
fn run_dir(ops: &[SnapOp]) -> Result<bool, String> {
    let s = build(ops);
    let d = write_dir(&s);
    let mut x = UnpackedSnapshotExtractor::open(&d.0, Box::new(NoTracking)).map_err(|e| format!("the directory does not open: {}", e))?;
    let got: Vec<_> = x.iter().collect();
    judge("from the directory", &s, got, false)
}
fn entry(out: &mut Vec<u8>, name: &str, b: &[u8]) {
    let mut h = [0u8; 512];
    h[..name.len()].copy_from_slice(name.as_bytes());
    h[100..108].copy_from_slice(b"0000644\0");
    h[124..136].copy_from_slice(format!("{:011o}\0", b.len()).as_bytes());
    h[156] = b'0';
    h[257..263].copy_from_slice(b"ustar\0");
    h[263..265].copy_from_slice(b"00");
    h[148..156].fill(b' ');
    let sum: u32 = h.iter().map(|x| *x as u32).sum();
    h[148..156].copy_from_slice(format!("{:06o}\0 ", sum).as_bytes());
    out.extend(h);
    out.extend(b);
    out.extend(vec![0; (512 - b.len() % 512) % 512]);
}
fn run_archive(ops: &[SnapOp]) -> Result<bool, String> {
    let s = build(ops);
    let mut t = vec![];
    entry(&mut t, "version", b"1.2.0");
    // directories
    entry(&mut t, "snapshots/", b"");
    entry(&mut t, &format!("snapshots/{}/", s.slot), b"");
    entry(&mut t, "accounts/", b"");
    let mut before = 0;
    match s.status {
        Some(0) => {
            entry(&mut t, "snapshots/status_cache", b"0123456789");
            // not the manifest
            entry(&mut t, "snapshots/300/301", b"0123456789");
            entry(&mut t, "snapshots/x/x", b"0123456789");
            entry(&mut t, "accounts/x", b"0123456789");
            entry(&mut t, "accounts/1.2/3", b"0123456789");
            entry(&mut t, "other/1.2", b"0123456789");
        }
        Some(_) if !s.files.is_empty() => {
            let (slot, id, b, _) = &s.files[0];
            entry(&mut t, &format!("accounts/{}.{}", slot, id), b);
            before = 1;
        }
        _ => {}
    }
    entry(&mut t, &format!("snapshots/{}/{}", s.slot, s.slot), &s.manifest);
    entry(&mut t, "snapshots/status_cache2", b"0123456789");
    for (slot, id, b, _) in s.files.iter().skip(before) {
        entry(&mut t, &format!("accounts/{}.{}", slot, id), b);
    }
    for o in &s.others {
        entry(&mut t, &format!("accounts/{}", o), b"other");
    }
    t.extend([0; 1024]);
    let z = zstd::stream::encode_all(&t[..], 1).map_err(|e| e.to_string())?;
    let opened = ArchiveSnapshotExtractor::from_reader(std::io::Cursor::new(z));
    let mut x = match (opened, before) {
        // a file that comes before the manifest cannot be given: the archive is refused
        (Ok(_), 1) => return Err("an archive with an account file ahead of the manifest was opened: the file would be left out".into()),
        (Err(_), 1) => return Ok(true),
        (r, _) => r.map_err(|e| format!("the archive does not open: {}", e))?,
    };
    let got: Vec<_> = x.iter().collect();
    let r = judge("from the archive", &s, got, true);
    drop(x);
    r
}

// ---- files shared out over consumers ----
struct Taker {
    seen: Arc<Mutex<Vec<(u64, usize)>>>,
    busy: bool,
}
#[async_trait::async_trait]
impl AppendVecConsumer for Taker {
    async fn on_append_vec(&mut self, v: AppendVec) -> anyhow::Result<()> {
        anyhow::ensure!(!self.busy, "a consumer got a file before it was done with the last");
        self.busy = true;
        self.seen.lock().unwrap().push((v.slot(), v.len()));
        for _ in 0..v.len() % 5 {
            tokio::task::yield_now().await;
        }
        self.busy = false;
        Ok(())
    }
}
fn run_shared(ops: &[SnapOp]) -> Result<bool, String> {
    let s = build(ops);
    let d = write_dir(&s);
    let mut x = UnpackedSnapshotExtractor::open(&d.0, Box::new(NoTracking)).map_err(|e| format!("the directory does not open: {}", e))?;
    let seen = Arc::new(Mutex::new(vec![]));
    let made = std::cell::Cell::new(0usize);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).build().unwrap();
    let r = rt.block_on(async {
        let it = x.iter();
        par_iter_append_vecs(
            it,
            || {
                made.set(made.get() + 1);
                Taker { seen: seen.clone(), busy: false }
            },
            s.threads,
        )
        .await
    });
    drop(rt);
    let (mut want, refused) = {
        let (w, n) = wanted(&s);
        (w.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), n)
    };
    let empty = want.iter().filter(|w| w.1 == 0).count();
    if refused > 0 {
        check!(r.is_err(), "a file was refused, but all was reported as read");
        return Ok(true);
    }
    if let Err(e) = r {
        check!(empty > 0, "all files can be read, but an error was reported: {}", e);
        return Ok(false);
    }
    check!(made.get() <= s.threads, "{} consumers for {} threads", made.get(), s.threads);
    let mut have = seen.lock().unwrap().clone();
    have.sort();
    want.sort();
    check!(have == want, "the consumers were given the files (slot, length) {:?} instead of {:?}", have, want);
    Ok(!want.is_empty())
}

fn suites(ctx: &mut Ctx) {
    let k = if ctx.thorough { 40 } else { 4 };
    ctx.histories("account-file", "an account file of 0-4 accounts (data lengths around multiples of 8, some records claiming lengths up to the largest number, some random bytes), a recorded length at, below or above the bytes there are; from a file and from a stream in pieces", 4000 * k, gen_file, run_file);
    // every recorded length of a file
    {
        let a = |len: u64, seed: u64| Stored { lamports: seed * 1000, rent: 3, exec: seed % 2 == 0, len, says: None, seed };
        let files = [vec![a(0, 1)], vec![a(1, 1), a(9, 2)], vec![a(8, 4), a(0, 2), a(7, 3)], vec![]];
        ctx.rules.push("account-file-lengths: every recorded length from 0 to 40 bytes beyond the end, of four files".into());
        for f in &files {
            let b = bytes_of(f);
            for n in 0..b.len() + 40 {
                if ctx.stop() {
                    return;
                }
                let c = format!("{:?} recorded as {} of {} bytes", f, n, b.len());
                match watched("account-file-lengths", c.clone(), || try_file(&b, n, 100)) {
                    Ok(nt) => ctx.note("account-file-lengths", &c, nt),
                    Err(why) => ctx.fail("account-file-lengths", c, why),
                }
            }
        }
        ctx.exhaustive.push("account-file-lengths: every recorded length of four files".into());
    }
    if bank_len() == 0 {
        ctx.rules.push("snapshots: not run, the bank of the manifest cannot be written".into());
        return;
    }
    ctx.histories("snapshot-directory", "a snapshot directory of 1-5 account files: listed, not listed, listed with a longer or shorter length, beside other files; manifest entries without file", 600 * k, gen_snap, run_dir);
    ctx.histories("snapshot-archive", "the same as a compressed archive, with other entries, and files ahead of the manifest", 600 * k, gen_snap, run_archive);
    ctx.histories("snapshot-shared", "the same shared out over 1-4 consumers on a runtime of 3 threads", 300 * k, gen_snap, run_shared);
}
