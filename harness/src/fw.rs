// Small deterministic case runner: generate, run, shrink, report.
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn us(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub rules: Vec<String>,
    pub exhaustive: Vec<String>,
    pub failure: Option<Failure>,
    pub known: Vec<(String, String)>,
    pub deadline: Instant,
}
pub struct Failure {
    pub suite: String,
    pub case: String,
    pub why: String,
}

thread_local! { static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        LAST.with(|l| *l.borrow_mut() = format!("panic: {}", i));
    }));
}
thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// Runs `f`, turning a panic of the code under test into a failure.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(LAST.with(|l| l.borrow().clone())),
    }
}

// the case that is running, for the watchdog
pub static RUNNING: std::sync::Mutex<Option<(Instant, String, String)>> = std::sync::Mutex::new(None);
pub fn watched<T>(suite: &str, case: String, f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    *RUNNING.lock().unwrap() = Some((Instant::now(), suite.to_string(), case));
    let r = guarded(f);
    *RUNNING.lock().unwrap() = None;
    r
}

impl Ctx {
    pub fn stop(&self) -> bool {
        self.failure.is_some() || Instant::now() > self.deadline
    }
    pub fn note(&mut self, suite: &str, case: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            suite.hash(&mut h);
            case.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        if nontrivial && (self.samples.len() < 2 || (self.samples.len() < 6 && self.evaluations % 1777 == 0)) {
            let mut c = case.to_string();
            c.truncate(700);
            self.samples.push(format!("{}: {}", suite, c));
        }
    }
    pub fn fail(&mut self, suite: &str, case: String, why: String) {
        if self.failure.is_none() {
            self.failure = Some(Failure { suite: suite.into(), case, why });
        }
    }
    /// Random histories of operations; run returns Ok(nontrivial) or the reason of the failure.
    pub fn histories<Op: Clone + Debug>(
        &mut self,
        suite: &str,
        rule: &str,
        n: u64,
        gen: impl Fn(&mut Rng, u64) -> Vec<Op>,
        run: impl Fn(&[Op]) -> Result<bool, String>,
    ) {
        self.rules.push(format!("{}: {}", suite, rule));
        for i in 0..n {
            if self.stop() {
                return;
            }
            let mut rng = Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_add(h(suite)));
            let ops = gen(&mut rng, i);
            let c = format!("{:?}", ops);
            match watched(suite, c.clone(), || run(&ops)) {
                Ok(nt) => self.note(suite, &c, nt),
                Err(why) => {
                    let (ops, why) = shrink(suite, ops, why, &run);
                    let c = ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join("\n");
                    self.evaluations += 1;
                    self.fail(suite, c, why);
                    return;
                }
            }
        }
    }
    /// All histories over an alphabet up to a length.
    pub fn enumerate<Op: Clone + Debug>(
        &mut self,
        suite: &str,
        rule: &str,
        alphabet: &[Op],
        len: usize,
        run: impl Fn(&[Op]) -> Result<bool, String>,
    ) {
        self.rules.push(format!("{}: {} (all {} operations, every history up to length {})", suite, rule, alphabet.len(), len));
        for l in 0..=len {
            let mut idx = vec![0usize; l];
            loop {
                if self.stop() {
                    return;
                }
                let ops: Vec<Op> = idx.iter().map(|i| alphabet[*i].clone()).collect();
                let c = format!("{:?}", ops);
                match watched(suite, c.clone(), || run(&ops)) {
                    Ok(nt) => self.note(suite, &c, nt),
                    Err(why) => {
                        let (ops, why) = shrink(suite, ops, why, &run);
                        let c = ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join("\n");
                        self.evaluations += 1;
                        self.fail(suite, c, why);
                        return;
                    }
                }
                let mut k = l;
                loop {
                    if k == 0 {
                        break;
                    }
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < alphabet.len() {
                        break;
                    }
                    idx[k] = 0;
                    if k == 0 {
                        k = usize::MAX;
                        break;
                    }
                }
                if k == usize::MAX || l == 0 {
                    break;
                }
            }
        }
        self.exhaustive.push(format!("{}: every history over {} operations up to length {}", suite, alphabet.len(), len));
    }
}

pub fn h(s: &str) -> u64 {
    let mut x: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    x >> 20
}

/// A failure that depends on the schedule need not come back; the first reason is then kept.
fn shrink<Op: Clone + Debug>(suite: &str, mut ops: Vec<Op>, mut why: String, run: &impl Fn(&[Op]) -> Result<bool, String>) -> (Vec<Op>, String) {
    let start = Instant::now();
    let mut chunk = ops.len().max(1);
    while chunk >= 1 && start.elapsed().as_secs() < 20 {
        let mut i = 0;
        let mut changed = false;
        while i < ops.len() {
            let mut t = ops.clone();
            t.drain(i..(i + chunk).min(t.len()));
            match watched(suite, format!("{:?}", t), || run(&t)) {
                Err(e) => {
                    ops = t;
                    why = e;
                    changed = true;
                }
                Ok(_) => i += chunk,
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        if chunk > 1 {
            chunk /= 2;
        } else if !changed {
            break;
        }
    }
    (ops, why)
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// Runs the suites of a property and prints what they found.
pub fn drive(suites: impl FnOnce(&str, &mut Ctx) -> bool) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str, d: &str| -> String { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.into()) };
    let prop = arg("--prop", "");
    let seed: u64 = arg("--seed", "1").parse().unwrap_or(1);
    let tier = arg("--tier", "quick");
    let budget: u64 = arg("--budget", if tier == "thorough" { "600" } else { "60" }).parse().unwrap();
    let mut ctx = Ctx {
        seed,
        thorough: tier == "thorough",
        evaluations: 0,
        distinct: Default::default(),
        samples: vec![],
        rules: vec![],
        exhaustive: vec![],
        failure: None,
        known: vec![],
        deadline: Instant::now() + Duration::from_secs(budget),
    };
    install_hook();
    // the code under test prints to the standard output; keep it for the report
    let stdout_fd = unsafe { dup(1) };
    {
        use std::os::fd::AsRawFd;
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        unsafe { dup2(null.as_raw_fd(), 1) };
    }
    // a case that does not return is reported as such
    {
        let prop = prop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let r = RUNNING.lock().unwrap().clone();
            if let Some((since, suite, case)) = r {
                if since.elapsed().as_secs() > 60 {
                    let out = serde_json::json!({"prop": prop, "evaluations": 1, "distinct_nontrivial": 0, "samples": [], "rules": [], "exhaustive": [], "complete": false, "known": [],
                        "wall_s": since.elapsed().as_secs_f64(), "failure": {"suite": suite, "case": case, "why": "the code under test does not return (60 s)"}});
                    use std::io::Write;
                    unsafe { dup2(stdout_fd, 1) };
                    println!("{}", out);
                    std::io::stdout().flush().ok();
                    std::process::exit(1);
                }
            }
        });
    }
    let t = Instant::now();
    if !suites(&prop, &mut ctx) {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    }
    let out = serde_json::json!({
        "prop": prop,
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": ctx.distinct.len(),
        "samples": ctx.samples,
        "rules": ctx.rules,
        "exhaustive": ctx.exhaustive,
        "complete": Instant::now() <= ctx.deadline,
        "known": ctx.known,
        "wall_s": t.elapsed().as_secs_f64(),
        "failure": ctx.failure.as_ref().map(|f| serde_json::json!({"suite": f.suite, "case": f.case, "why": f.why})),
    });
    {
        use std::io::Write;
        std::io::stdout().flush().ok();
        unsafe { dup2(stdout_fd, 1) };
    }
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
    std::process::exit(if ctx.failure.is_some() { 1 } else { 0 });
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
