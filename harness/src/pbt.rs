//! Choice-tape property testing: generation, classification, shrinking, replay, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG / tape

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x1234_5678_9ABC_DEF0u64;
    for &p in parts {
        s ^= p;
        let v = splitmix(&mut s);
        s = s.rotate_left(17) ^ v;
    }
    splitmix(&mut s)
}
pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Source of choices. Either records fresh random choices, or replays a given tape (0 after its end).
pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    /// coverage-guided search: choices are cut from these bytes (0 after their end) and recorded on the tape
    bytes: Option<(Vec<u8>, usize)>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(seed), bytes: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None, bytes: None }
    }
    pub fn bytes(b: Vec<u8>) -> Self {
        Src { tape: vec![], pos: 0, rng: None, bytes: Some((b, 0)) }
    }
    pub fn draw(&mut self) -> u64 {
        if self.pos < self.tape.len() {
            self.pos += 1;
            return self.tape[self.pos - 1];
        }
        if self.bytes.is_some() {
            return self.below(u64::MAX);
        }
        self.pos += 1;
        match &mut self.rng {
            Some(s) => {
                let v = splitmix(s);
                self.tape.push(v);
                v
            }
            None => 0,
        }
    }
    /// Records an already-reduced value in place of the raw draw, so that tapes stay small and shrink well.
    fn reduce(&mut self, v: u64) -> u64 {
        if self.rng.is_some() {
            let p = self.pos - 1;
            self.tape[p] = v;
        }
        v
    }
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if let Some((b, at)) = &mut self.bytes {
            let w = match n {
                0..=1 => 0,
                2..=0x100 => 1,
                0x101..=0x1_0000 => 2,
                0x1_0001..=0x1_0000_0000 => 4,
                _ => 8,
            };
            let mut v = 0u64;
            for i in *at..*at + w {
                v = v << 8 | b.get(i).copied().unwrap_or(0) as u64;
            }
            *at += w;
            self.pos += 1;
            self.tape.push(v % n);
            return v % n;
        }
        let v = self.draw() % n;
        self.reduce(v)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn u16(&mut self) -> u16 {
        self.below(1 << 16) as u16
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; the shrunk value is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u64 = ws.iter().map(|&w| w as u64).sum();
        let mut v = self.below(tot);
        for (i, &w) in ws.iter().enumerate() {
            if v < w as u64 {
                return i;
            }
            v -= w as u64;
        }
        ws.len() - 1
    }
    /// A 16-bit value biased to boundaries.
    pub fn word(&mut self) -> u16 {
        match self.weighted(&[6, 3, 3, 3]) {
            0 => self.u16(),
            1 => *self.pick(&[0u16, 1, 2, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0xFFFE, 0x00FF, 0x0100]),
            2 => self.range(-32, 32) as i16 as u16,
            _ => {
                let b = *self.pick(&[0x0000u16, 0x0100, 0x0200, 0x3000, 0xFDFF, 0xFE00, 0xFFFF, 0x2FFF, 0x8000]);
                b.wrapping_add(self.range(-4, 4) as u16)
            }
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.usize(i + 1);
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- case context

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// Stable signature of the failure (what kind of thing failed), used for known findings.
    pub sig: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), sig: sig.to_string() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !$c { return $crate::pbt::fail($sig, format!($($arg)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::pbt::fail($sig, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
    }};
}

#[derive(Default)]
pub struct Ctx {
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub key: Option<u64>,
    pub desc: Option<String>,
    pub want_desc: bool,
    pub evals: u64,
}
impl Ctx {
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, c: bool, name: &'static str) {
        if c {
            self.class(name);
        }
    }
    pub fn class_n(&mut self, n: u64, name: &'static str) {
        if n > 0 {
            *self.classes.entry(name).or_insert(0) += n;
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    /// Declare the identity of the case (for counting distinct cases).
    pub fn key(&mut self, v: &impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.hash(&mut h);
        self.key = Some(h.finish());
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}
/// Calls into the code under test, turning a panic into a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Panicked { msg, loc })
        }
    }
}
/// `guard`, where a panic is a failure of the case.
pub fn nopanic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).map_err(|p| Fail { msg: format!("{what} panicked: {} (at {})", p.msg, p.loc), sig: format!("panic:{what}") })
}

// ---------------------------------------------------------------- suites

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;
pub struct Suite {
    pub name: &'static str,
    /// number of cases in (quick, thorough); for exhaustive suites: number of indices in both.
    pub quick: u64,
    pub thorough: u64,
    /// tape is `[index]` and every index is run
    pub exhaustive: bool,
    /// run on one thread (timing-sensitive or itself multithreaded)
    pub serial: bool,
    pub f: CaseFn,
}
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}
pub fn suite(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Suite {
    Suite { name, quick, thorough, exhaustive: false, serial: false, f }
}
pub fn exhaustive(name: &'static str, n: u64, f: CaseFn) -> Suite {
    Suite { name, quick: n, thorough: n, exhaustive: true, serial: false, f }
}

enum Outcome {
    Ok,
    Fail(Fail),
}
fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match guard(|| f(src, ctx)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(p) => {
            // A panic located in the harness's own sources is a call the check relies on that failed (an `expect` on its
            // result), anything else is a panic of the crate.
            if p.loc.starts_with("src/") {
                Outcome::Fail(Fail { msg: format!("a call this check relies on failed: {} (at {})", p.msg, p.loc), sig: "setup".into() })
            } else {
                Outcome::Fail(Fail { msg: format!("code under test panicked: {} (at {})", p.msg, p.loc), sig: "panic".into() })
            }
        }
    }
}

fn shrink(f: CaseFn, tape: Vec<u64>, sig: &str, exhaustive: bool, budget: Duration) -> Vec<u64> {
    if exhaustive {
        return tape;
    }
    let start = Instant::now();
    let mut best = tape;
    let still = |t: &Vec<u64>| -> bool {
        if let Some(p) = &mut *PENDING.lock().unwrap() {
            p.0 = Instant::now();
        }
        let mut s = Src::replay(t.clone());
        let mut c = Ctx::default();
        matches!(run_case(f, &mut s, &mut c), Outcome::Fail(e) if e.sig == sig)
    };
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        // drop trailing / chunks
        let mut size = best.len().max(1).next_power_of_two();
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if start.elapsed() > budget {
                    return best;
                }
                let end = (i + size).min(best.len());
                let mut t = best.clone();
                t.drain(i..end);
                if still(&t) {
                    best = t;
                    improved = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 16usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if start.elapsed() > budget {
                    return best;
                }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&v| v != 0) {
                    let mut t = best.clone();
                    t[i..end].fill(0);
                    if still(&t) {
                        best = t;
                        improved = true;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // minimise single values
        for i in 0..best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi {
                if start.elapsed() > budget {
                    return best;
                }
                let m = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = m;
                if still(&t) {
                    best = t;
                    hi = m;
                    improved = true;
                } else {
                    lo = m + 1;
                }
            }
        }
    }
    while best.last() == Some(&0) {
        let mut t = best.clone();
        t.pop();
        if still(&t) {
            best = t;
        } else {
            break;
        }
    }
    best
}

// ---------------------------------------------------------------- JSON helpers

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- runner

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
pub fn load_known(path: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let mut out = vec![];
    for l in s.lines() {
        // known: property=<id> sig=<signature> <what fails>
        if let Some(rest) = l.strip_prefix("known: property=") {
            let mut it = rest.splitn(3, ' ');
            let property = it.next().unwrap_or("").to_string();
            let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
            out.push(Known { property, sig, text: it.next().unwrap_or("").to_string() });
        }
    }
    out
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub root: String,
    pub scale: f64,
    pub only_suite: Option<String>,
    pub evidence: bool,
}

/// Per thread: start of the running case (ms since start, 0 = none) and its index.
static CASE_WATCH: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static CASE_INDEX: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static CUR_SUITE: Mutex<&str> = Mutex::new("");
/// A violation found, while a smaller input for it is searched (touched by every candidate).
static PENDING: Mutex<Option<(Instant, String)>> = Mutex::new(None);
/// A case that normally takes milliseconds and has not come back after this long hangs in the code under test.
const HANG_S: u64 = 100;
/// Written before each chunk of cases: what each thread is working on, in case the process dies.
pub struct Inflight(Option<std::fs::File>);
impl Inflight {
    fn open() -> Inflight {
        Inflight(std::env::var("VERIF_INFLIGHT").ok().and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).ok()))
    }
    fn note(&self, t: usize, suite: usize, k: u64, n: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&(suite as u64 + 1).to_le_bytes());
            b[8..16].copy_from_slice(&k.to_le_bytes());
            b[16..].copy_from_slice(&n.to_le_bytes());
            let _ = f.write_at(&b, t as u64 * 24);
        }
    }
}
fn case_src(o: &Opts, id: &str, s: &Suite, k: u64) -> Src {
    let sid = fnv(s.name) ^ fnv(id).rotate_left(7);
    if s.exhaustive { Src::replay(vec![k]) } else { Src::random(mix(&[o.seed, sid, k])) }
}
/// A permutation of 0..n that spreads a prefix over the whole range.
fn scatter(k: u64, n: u64) -> u64 {
    fn gcd(a: u64, b: u64) -> u64 {
        if b == 0 { a } else { gcd(b, a % b) }
    }
    let mut m = (n as f64 * 0.618) as u64 | 1;
    while gcd(m, n) != 1 {
        m += 2;
    }
    ((k as u128 * m as u128) % n as u128) as u64
}
/// Replay file of a case that cannot be shrunk (it does not come back).
fn write_case(o: &Opts, id: &str, suite: &str, k: u64, sig: &str, msg: &str) -> String {
    let dir = format!("{}/replays", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{suite}-{sig}-{k}.json");
    let _ = std::fs::write(&path, format!("{{\"property\":{},\"suite\":{},\"seed\":{},\"case\":{k},\"sig\":{},\"failure\":{}}}\n", jstr(id), jstr(suite), o.seed, jstr(sig), jstr(msg)));
    path
}
fn write_tape(o: &Opts, id: &str, suite: &str, k: u64, f: &Fail, tape: &[u64], desc: &str) -> String {
    let dir = format!("{}/replays", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{suite}-{:016x}.json", mix(tape));
    let body = format!(
        "{{\"property\":{},\"suite\":{},\"seed\":{},\"case\":{k},\"sig\":{},\"failure\":{},\"input\":{},\"tape\":{:?}}}\n",
        jstr(id), jstr(suite), o.seed, jstr(&f.sig), jstr(&f.msg), jstr(desc), tape
    );
    let _ = std::fs::write(&path, body);
    path
}
/// Runs one case by number (in a child process, to find out whether it is the one that kills the process).
pub fn run_one(p: &Property, o: &Opts, suite: usize, k: u64) -> i32 {
    let s = &p.suites[suite];
    let mut src = case_src(o, p.id, s, k);
    match run_case(s.f, &mut src, &mut Ctx::default()) {
        Outcome::Fail(_) => 1,
        _ => 0,
    }
}
/// Runs the property in a child process; if that dies (stack overflow, abort, memory), finds the case that kills it.
pub fn supervise(p: &Property, o: &Opts, mode: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let Ok(exe) = std::env::current_exe() else { return run_property(p, o) };
    let file = std::env::temp_dir().join(format!("lc3-verif-inflight-{}", std::process::id()));
    let r = std::process::Command::new(&exe).args([p.id, &format!("{mode}-inner")]).env("VERIF_INFLIGHT", &file).status();
    let st = match r {
        Ok(st) => st,
        Err(_) => return run_property(p, o),
    };
    let data = std::fs::read(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let vf = file.with_file_name(format!("{}.violation", file.file_name().unwrap_or_default().to_string_lossy()));
    let found = std::fs::read_to_string(&vf).ok();
    let _ = std::fs::remove_file(&vf);
    if let Some(c) = st.code() {
        return c;
    }
    if let Some(v) = found {
        println!("{v}");
        return 1;
    }
    eprintln!("the check was ended by {st}; looking for the case");
    for rec in data.chunks_exact(24) {
        let f = |i: usize| u64::from_le_bytes(rec[i * 8..i * 8 + 8].try_into().unwrap());
        let (su, k0, n) = (f(0), f(1), f(2));
        if su == 0 || su as usize > p.suites.len() {
            continue;
        }
        for k in k0..k0 + n {
            let r = std::process::Command::new("/bin/bash").arg("-c").arg("ulimit -v 12000000; exec \"$0\" \"$@\"").arg(&exe).args([p.id, "one", &(su - 1).to_string(), &k.to_string()]).status();
            if let Ok(st) = r {
                if let Some(sig) = st.signal() {
                    let s = &p.suites[su as usize - 1];
                    let msg = format!("case {k} ends the process with signal {sig}");
                    let path = write_case(o, p.id, s.name, k, "crash", &msg);
                    println!("suite {} case {k}: [crash] {msg}", s.name);
                    println!("VIOLATION property={} replay={path}", p.id);
                    return 1;
                }
            }
        }
    }
    eprintln!("ERROR: no single case reproduces it; no verdict");
    6
}

pub fn run_property(p: &Property, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let known: Vec<Known> = load_known(&format!("{}/KNOWN_FINDINGS.txt", o.root)).into_iter().filter(|k| k.property == p.id).collect();
    let nthreads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 32);

    // watchdog: a case that runs for far too long is an error of the check, never a violation
    let stop_watch = AtomicBool::new(false);
    let mut total_evals = 0u64;
    let mut total_nontrivial = 0u64;
    let mut total_cases = 0u64;
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut per_suite: Vec<String> = vec![];
    let mut exit = 0;
    let mut violations = 0;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let epoch = Instant::now();
    // development only: stop each suite early
    let env_s = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<f64>().ok()).map(Duration::from_secs_f64);
    let budget = env_s("VERIF_BUDGET_S");
    let shrink_budget = env_s("VERIF_SHRINK_S").unwrap_or(Duration::from_secs(if o.thorough { 120 } else { 25 }));

    std::thread::scope(|sc| {
        sc.spawn(|| {
            while !stop_watch.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = epoch.elapsed().as_millis() as u64;
                if let Some((at, text)) = &*PENDING.lock().unwrap() {
                    if at.elapsed() > Duration::from_secs(30) {
                        println!("{text}");
                        std::process::exit(1);
                    }
                }
                for (t, w) in CASE_WATCH.iter().enumerate() {
                    let v = w.load(Ordering::Relaxed);
                    if v != 0 && now > v + HANG_S * 1000 {
                        let suite = *CUR_SUITE.lock().unwrap();
                        let k = CASE_INDEX[t].load(Ordering::Relaxed);
                        let msg = format!("case {k} has not come back after {HANG_S} s");
                        let path = write_case(o, p.id, suite, k, "hang", &msg);
                        println!("suite {suite} case {k}: [hang] {msg}");
                        println!("VIOLATION property={} replay={path}", p.id);
                        std::process::exit(1);
                    }
                }
            }
        });
        let inflight = Inflight::open();
        for (si, s) in p.suites.iter().enumerate() {
            if o.only_suite.as_deref().is_some_and(|n| n != s.name) {
                continue;
            }
            *CUR_SUITE.lock().unwrap() = s.name;
            let st = Instant::now();
            let n = if s.exhaustive {
                s.quick
            } else {
                (((if o.thorough { s.thorough } else { s.quick }) as f64) * o.scale).ceil() as u64
            };
            let next = AtomicU64::new(0);
            let min_fail = AtomicU64::new(u64::MAX);
            let fails: Mutex<BTreeMap<u64, (Vec<u64>, Fail)>> = Mutex::new(BTreeMap::new());
            struct Acc {
                classes: BTreeMap<&'static str, u64>,
                nontriv: HashSet<u64>,
                evals: u64,
                samples: BTreeMap<u64, String>,
                known: BTreeMap<String, u64>,
            }
            let accs: Mutex<Vec<Acc>> = Mutex::new(vec![]);
            let inflight = &inflight;
            let threads = if s.serial { 1 } else { nthreads };
            std::thread::scope(|sc2| {
                for t in 0..threads {
                    let (next, min_fail, fails, accs, known) = (&next, &min_fail, &fails, &accs, &known);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc2, move || {
                        let mut acc = Acc { classes: BTreeMap::new(), nontriv: HashSet::new(), evals: 0, samples: BTreeMap::new(), known: BTreeMap::new() };
                        let chunk = if n > 20000 { 64 } else { 1 };
                        'outer: loop {
                            let k0 = next.fetch_add(chunk, Ordering::Relaxed);
                            if k0 >= n {
                                break;
                            }
                            inflight.note(t, si, k0, chunk.min(n - k0));
                            for k in k0..(k0 + chunk).min(n) {
                                if k > min_fail.load(Ordering::Relaxed) || budget.is_some_and(|b| st.elapsed() > b) {
                                    break 'outer;
                                }
                                let k = if budget.is_some() && s.exhaustive { scatter(k, n) } else { k };
                                let mut src = case_src(o, p.id, s, k);
                                CASE_INDEX[t].store(k, Ordering::Relaxed);
                                let mut ctx = Ctx { want_desc: k < 3 || k == n / 2, ..Default::default() };
                                CASE_WATCH[t].store((epoch.elapsed().as_millis() as u64).max(1), Ordering::Relaxed);
                                let out = run_case(s.f, &mut src, &mut ctx);
                                CASE_WATCH[t].store(0, Ordering::Relaxed);
                                acc.evals += ctx.evals.max(1);
                                for (c, v) in &ctx.classes {
                                    *acc.classes.entry(c).or_insert(0) += v;
                                }
                                if ctx.nontrivial {
                                    let key = ctx.key.unwrap_or_else(|| mix(&src.tape));
                                    acc.nontriv.insert(key);
                                }
                                if let Some(d) = ctx.desc.take() {
                                    acc.samples.insert(k, d);
                                }
                                match out {
                                    Outcome::Ok => {}
                                    Outcome::Fail(f) => {
                                        if let Some(kf) = known.iter().find(|kf| kf.sig == f.sig) {
                                            *acc.known.entry(kf.sig.clone()).or_insert(0) += 1;
                                            continue;
                                        }
                                        min_fail.fetch_min(k, Ordering::Relaxed);
                                        fails.lock().unwrap().insert(k, (src.tape, f));
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        accs.lock().unwrap().push(acc);
                    }).expect("spawn");
                }
            });
            let mut nontriv: HashSet<u64> = HashSet::new();
            let mut evals = 0;
            let mut smp: BTreeMap<u64, String> = BTreeMap::new();
            for a in accs.into_inner().unwrap() {
                for (c, v) in a.classes {
                    *classes.entry(c).or_insert(0) += v;
                }
                for (c, v) in a.known {
                    *known_hits.entry(c).or_insert(0) += v;
                }
                nontriv.extend(a.nontriv);
                evals += a.evals;
                smp.extend(a.samples);
            }
            total_evals += evals;
            total_cases += n;
            total_nontrivial += nontriv.len() as u64;
            for (k, d) in smp.into_iter().take(3) {
                samples.push(format!("[{} #{k}] {}", s.name, d.chars().take(1500).collect::<String>()));
            }
            per_suite.push(format!(
                "{{\"suite\":{},\"cases\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"wall_s\":{:.2}}}",
                jstr(s.name), n, evals, nontriv.len(), s.exhaustive, st.elapsed().as_secs_f64()
            ));
            let fails = fails.into_inner().unwrap();
            if let Some((k, (tape, f))) = fails.into_iter().next() {
                // in case a smaller input hangs or kills the process
                let first = write_tape(o, p.id, s.name, k, &f, &tape, "");
                let pending = format!("suite {} case {k}: [{}] {}\nVIOLATION property={} replay={first}", s.name, f.sig, f.msg, p.id);
                if let Ok(v) = std::env::var("VERIF_INFLIGHT") {
                    let _ = std::fs::write(format!("{v}.violation"), &pending);
                }
                *PENDING.lock().unwrap() = Some((Instant::now(), pending));
                let small = shrink(s.f, tape.clone(), &f.sig, s.exhaustive, shrink_budget);
                let mut src = Src::replay(small.clone());
                let mut ctx = Ctx { want_desc: true, ..Default::default() };
                let (tape, f) = match run_case(s.f, &mut src, &mut ctx) {
                    Outcome::Fail(f2) => (small, f2),
                    // does not reproduce from the shrunk tape: keep the original case
                    _ => (tape, f),
                };
                *PENDING.lock().unwrap() = None;
                let path = write_tape(o, p.id, s.name, k, &f, &tape, ctx.desc.as_deref().unwrap_or(""));
                if path != first {
                    let _ = std::fs::remove_file(&first);
                }
                println!("suite {} case {k}: [{}] {}", s.name, f.sig, f.msg);
                if let Some(d) = &ctx.desc {
                    println!("minimal input:\n{d}");
                }
                println!("VIOLATION property={} replay={}", p.id, path);
                violations += 1;
                exit = 1;
                break;
            }
        }
        stop_watch.store(true, Ordering::Relaxed);
    });

    for k in &known {
        println!("KNOWN-FINDING: property={} {} (hits this run: {})", p.id, k.text, known_hits.get(&k.sig).copied().unwrap_or(0));
    }
    // what the coverage-guided search before this run did (fuzz.sh)
    if let Some(x) = std::env::var("VERIF_FUZZ_INFO").ok().filter(|x| !x.is_empty()) {
        per_suite.push(x);
    }
    if o.evidence {
        let cls: Vec<String> = classes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let smp: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
        let asm: Vec<String> = p.assumptions.iter().map(|s| jstr(s)).collect();
        let all_ex = p.suites.iter().all(|s| s.exhaustive);
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"cases\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":{},\"suites\":[{}],\"classes\":{{{}}},\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
            jstr(p.id), if o.thorough { "\"thorough\"" } else { "\"quick\"" }, o.seed, total_evals, total_cases, total_nontrivial,
            jstr(p.rule), all_ex, per_suite.join(","), cls.join(","), smp.join(","), asm.join(","), t0.elapsed().as_secs_f64(), violations
        );
        let dir = format!("{}/evidence", o.root);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), ev) {
            eprintln!("ERROR: cannot write evidence: {e}");
            return 5;
        }
    }
    if exit == 0 {
        println!("OK property={} cases={} evaluations={} distinct_nontrivial={} wall={:.1}s", p.id, total_cases, total_evals, total_nontrivial, t0.elapsed().as_secs_f64());
        if std::env::var("VERIF_CLASSES").is_ok() {
            for s in &per_suite {
                println!("  {s}");
            }
            for (k, v) in &classes {
                println!("  {k}: {v}");
            }
        }
    }
    exit
}

/// One case whose choices come from raw bytes (for the coverage-guided search): the failure, if any.
pub fn fuzz_case(s: &Suite, data: &[u8]) -> Option<(Vec<u64>, Fail)> {
    let mut src = Src::bytes(data.to_vec());
    match run_case(s.f, &mut src, &mut Ctx::default()) {
        Outcome::Fail(f) => Some((src.tape, f)),
        _ => None,
    }
}
/// Runs the case found by the coverage-guided search; a failure is shrunk and reported as a violation.
pub fn run_bytes(p: &Property, o: &Opts, suite: &str, file: &str) -> i32 {
    let (Some(s), Ok(data)) = (p.suites.iter().find(|x| x.name == suite), std::fs::read(file)) else {
        eprintln!("ERROR: no suite {suite} or file {file}");
        return 2;
    };
    let known: Vec<Known> = load_known(&format!("{}/KNOWN_FINDINGS.txt", o.root)).into_iter().filter(|k| k.property == p.id).collect();
    let Some((tape, f)) = fuzz_case(s, &data) else { return 0 };
    if known.iter().any(|k| k.sig == f.sig) {
        return 0;
    }
    let small = shrink(s.f, tape.clone(), &f.sig, false, Duration::from_secs(60));
    let mut src = Src::replay(small.clone());
    let mut ctx = Ctx { want_desc: true, ..Default::default() };
    let (tape, f) = match run_case(s.f, &mut src, &mut ctx) {
        Outcome::Fail(f2) => (small, f2),
        _ => (tape, f),
    };
    let path = write_tape(o, p.id, s.name, 0, &f, &tape, ctx.desc.as_deref().unwrap_or(""));
    println!("suite {} (coverage-guided): [{}] {}", s.name, f.sig, f.msg);
    if let Some(d) = &ctx.desc {
        println!("minimal input:\n{d}");
    }
    println!("VIOLATION property={} replay={path}", p.id);
    1
}
pub fn replay(p: &Property, o: &Opts, file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR: {file}: {e}");
            return 2;
        }
    };
    let get = |k: &str| -> Option<&str> {
        let i = s.find(&format!("\"{k}\":"))? + k.len() + 3;
        Some(s[i..].trim_start())
    };
    let suite_name = get("suite").and_then(|v| v.strip_prefix('"')).and_then(|v| v.split('"').next()).unwrap_or("");
    let ti = s.rfind("\"tape\":[").map(|i| i + 8);
    let Some(su) = p.suites.iter().find(|x| x.name == suite_name) else {
        eprintln!("ERROR: unknown suite {suite_name}");
        return 2;
    };
    let mut src = match ti {
        Some(ti) => {
            let te = s[ti..].find(']').map(|j| ti + j).unwrap_or(s.len());
            Src::replay(s[ti..te].split(',').filter_map(|x| x.trim().parse().ok()).collect())
        }
        None => {
            // a case that did not come back: by number
            let num = |k: &str| get(k).and_then(|v| v.split(|c: char| !c.is_ascii_digit()).next()).and_then(|v| v.parse::<u64>().ok());
            let (Some(seed), Some(k)) = (num("seed"), num("case")) else {
                eprintln!("ERROR: no tape and no case number in {file}");
                return 2;
            };
            case_src(&Opts { seed, root: o.root.clone(), only_suite: None, ..*o }, p.id, su, k)
        }
    };
    let mut ctx = Ctx { want_desc: true, ..Default::default() };
    let out = run_case(su.f, &mut src, &mut ctx);
    println!("input:\n{}", ctx.desc.unwrap_or_default());
    match out {
        Outcome::Ok => {
            println!("no violation on replay");
            0
        }
        Outcome::Fail(f) => {
            println!("[{}] {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}
