//! Choice-sequence property engine: every random choice of a case comes from one recorded sequence,
//! so any failing case can be shrunk and replayed without knowing how it was generated.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    Bytes(Vec<u8>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
    trace: Option<File>,
}

impl Src {
    /// Writes every choice to a file as it is made, for cases that end the process.
    pub fn traced(mut self, f: File) -> Src {
        self.trace = Some(f);
        self
    }
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, rec: Vec::new(), trace: None }
    }
    pub fn replay(c: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(c), pos: 0, rec: Vec::new(), trace: None }
    }
    pub fn bytes(b: &[u8]) -> Src {
        Src { mode: Mode::Bytes(b.to_vec()), pos: 0, rec: Vec::new(), trace: None }
    }
    /// A number below n; 0 is the simplest choice, and what an exhausted sequence yields.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.mode {
            Mode::Random(ref mut r) => ((r.next() >> 11) as u128 * n as u128 >> 53) as u64,
            Mode::Replay(ref c) => {
                let v = c.get(self.pos).cloned().unwrap_or(0);
                if v >= n { n - 1 } else { v }
            }
            Mode::Bytes(ref b) => {
                let width = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 4 };
                let mut v = 0u64;
                for i in 0..width {
                    v = v << 8 | b.get(self.pos + i).cloned().unwrap_or(0) as u64;
                }
                self.pos += width - 1;
                v % n
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(ref mut f) = self.trace {
            let _ = write!(f, "{} ", v);
        }
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// true with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// Number of repetitions, geometric-ish with the given mean and a hard cap.
    pub fn count(&mut self, mean: u64, cap: usize) -> usize {
        let mut n = 0;
        while n < cap && self.chance(mean, mean + 1) {
            n += 1;
        }
        n
    }
    pub fn exhausted(&self) -> bool {
        match self.mode {
            Mode::Bytes(ref b) => self.pos >= b.len(),
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- cases

/// Where a case run in a process of its own leaves its input.
pub static INPUT_FILE: OnceLock<PathBuf> = OnceLock::new();

#[derive(Default)]
pub struct Case {
    pub input: String,
    pub classes: Vec<String>,
    pub nontrivial: bool,
    pub failure: Option<String>,
    pub known: Option<String>,
    pub subcases: u64,
}

impl Case {
    /// Names the input; where the case may end the process, also in a file.
    pub fn set_input<S: Into<String>>(&mut self, s: S) {
        self.input = s.into();
        if let Some(p) = INPUT_FILE.get() {
            let _ = std::fs::write(p, &self.input);
        }
    }
    pub fn class<S: Into<String>>(&mut self, s: S) {
        self.classes.push(s.into());
    }
    pub fn fail<S: Into<String>>(&mut self, s: S) {
        if self.failure.is_none() {
            self.failure = Some(s.into());
        }
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
    pub fn check<S: Into<String>, F: FnOnce() -> S>(&mut self, ok: bool, msg: F) -> bool {
        if !ok {
            self.fail(msg());
        }
        ok
    }
}

pub type PropFn = fn(&mut Src, &mut Case);

pub struct Sub {
    pub name: &'static str,
    pub prop: PropFn,
    /// number of cases, or the size of the enumerated space if `exhaustive`
    pub quick: u64,
    pub thorough: u64,
    pub exhaustive: bool,
    /// computes the size of an enumerated space only when the check runs
    pub size: Option<fn() -> u64>,
}

pub fn sub(name: &'static str, prop: PropFn, quick: u64, thorough: u64) -> Sub {
    Sub { name, prop, quick, thorough, exhaustive: false, size: None }
}
/// The first choice of the case enumerates 0..n.
pub fn enumerate(name: &'static str, prop: PropFn, n: u64) -> Sub {
    Sub { name, prop, quick: n, thorough: n, exhaustive: true, size: None }
}

pub fn enumerate_all(name: &'static str, prop: PropFn, size: fn() -> u64) -> Sub {
    Sub { name, prop, quick: 0, thorough: 0, exhaustive: true, size: Some(size) }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs f, returning the panic message and place if it panicked.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_path(&loc) && !msg.starts_with(NO_PROGRESS) {
                // a bug of the harness, not of the code under test
                eprintln!("harness panic at {}: {}", loc, msg);
                std::process::exit(3);
            }
            Err(format!("panicked at {}: {}", loc, msg))
        }
    }
}

/// Message of the deliberate panic by which an input iterator stops a reader that never ends.
pub const NO_PROGRESS: &str = "reader does not stop at the end of the input";

fn is_harness_path(loc: &str) -> bool {
    // panics of the harness are reported relative to the harness crate
    loc.starts_with("src/") && !loc.contains("/repo/") || loc.contains("/harness/src/")
}

static KNOWN: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Signatures of the recorded findings of the property being checked.
pub fn set_known(k: Vec<String>) {
    *KNOWN.lock().unwrap() = k;
}
pub fn is_known(sig: &str) -> bool {
    KNOWN.lock().unwrap().iter().any(|k| k == sig)
}

pub fn run_case(prop: PropFn, src: &mut Src) -> Case {
    let mut case = Case::default();
    if let Err(msg) = catch(|| prop(src, &mut case)) {
        case.fail(msg);
    }
    case
}

// ---------------------------------------------------------------- cases that never return

/// What each worker is doing: visible to the watchdog and, through a file, to the supervising
/// process after this one has died.
pub struct Slot {
    since: AtomicU64,
    what: Mutex<(u64, u64, u64)>,
}
pub const SLOTS: usize = 32;
static SLOT: [Slot; SLOTS] = [const { Slot { since: AtomicU64::new(0), what: Mutex::new((0, 0, 0)) } }; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static SLOT_FILE: OnceLock<(File, PathBuf)> = OnceLock::new();
static START: OnceLock<Instant> = OnceLock::new();
/// sub index of a slot whose worker is shrinking
pub const SHRINKING: u64 = 1 << 40;

fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
pub fn set_slot_file(p: PathBuf) {
    if let Ok(f) = File::create(&p) {
        let _ = SLOT_FILE.set((f, p));
    }
}
fn new_slot() -> usize {
    NEXT_SLOT.fetch_add(1, Ordering::SeqCst) % SLOTS
}
fn put_slot(slot: usize, active: u64, sub: u64, i: u64, evals: u64) {
    *SLOT[slot].what.lock().unwrap() = (sub, i, evals);
    SLOT[slot].since.store(if active == 1 { now_ms() } else { 0 }, Ordering::SeqCst);
    if let Some((f, _)) = SLOT_FILE.get() {
        let mut b = [0u8; 32];
        for (k, v) in [active, sub, i, evals].iter().enumerate() {
            b[k * 8..k * 8 + 8].copy_from_slice(&v.to_le_bytes());
        }
        let _ = f.write_at(&b, slot as u64 * 32);
    }
}
/// (active, sub, index, evaluations) of every slot
pub fn read_slots(bytes: &[u8]) -> Vec<(u64, u64, u64, u64)> {
    bytes
        .chunks(32)
        .filter(|c| c.len() == 32)
        .map(|c| {
            let g = |k: usize| u64::from_le_bytes(c[k * 8..k * 8 + 8].try_into().unwrap());
            (g(0), g(1), g(2), g(3))
        })
        .collect()
}
fn put_best(sub: &str, best: &(Vec<u64>, String, String)) {
    if let Some((_, p)) = SLOT_FILE.get() {
        let v = serde_json::to_string(&(sub, &best.0, &best.1, &best.2)).unwrap();
        let _ = std::fs::write(p.with_extension("best"), v);
    }
}
/// Exits with STUCK when some case runs for longer than `secs` or memory grows beyond `mb`.
pub const STUCK: i32 = 77;
pub fn watch(secs: u64, mb: u64) {
    now_ms();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let t = now_ms();
        for s in SLOT.iter() {
            let since = s.since.load(Ordering::SeqCst);
            if since != 0 && since + secs * 1000 < t {
                std::process::exit(STUCK);
            }
        }
        if rss_mb() > mb {
            std::process::exit(STUCK);
        }
    });
}
pub fn rss_mb() -> u64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}

// ---------------------------------------------------------------- running

pub struct Failure {
    pub sub: usize,
    pub choices: Vec<u64>,
    pub input: String,
    pub message: String,
}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub classes: BTreeMap<String, u64>,
    pub per_sub: Vec<(String, u64, u64)>,
    pub samples: Vec<(String, String)>,
    pub failure: Option<Failure>,
    pub known: BTreeMap<String, u64>,
    pub exhaustive: bool,
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn case_seed(seed: u64, id: &str, sub: &str, i: u64) -> u64 {
    let mut s = seed ^ hash_str(id) ^ hash_str(sub).rotate_left(17);
    let a = splitmix(&mut s);
    let mut t = a ^ i.wrapping_mul(0x2545f4914f6cdd1d);
    splitmix(&mut t)
}
fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn first_src(check: &Check, sub: &Sub, seed: u64, i: u64) -> Src {
    if sub.exhaustive {
        Src::replay(vec![i])
    } else {
        Src::random(case_seed(seed, check.id, sub.name, i))
    }
}

const STACK: usize = 512 << 20;

pub fn run_check(check: &Check, seed: u64, thorough: bool, scale: f64) -> Outcome {
    let mut out = Outcome {
        evaluations: 0,
        distinct: 0,
        classes: BTreeMap::new(),
        per_sub: vec![],
        samples: vec![],
        failure: None,
        known: BTreeMap::new(),
        exhaustive: check.subs.iter().all(|s| s.exhaustive),
    };
    let mut seen: HashSet<u64> = HashSet::new();
    for (si, sub) in check.subs.iter().enumerate() {
        let mut n = if thorough { sub.thorough } else { sub.quick };
        if let Some(size) = sub.size {
            n = size();
        }
        if !sub.exhaustive {
            n = ((n as f64 * scale) as u64).max(1);
        }
        let next = AtomicU64::new(0);
        let first_fail = AtomicU64::new(u64::MAX);
        let merged: Mutex<(HashSet<u64>, BTreeMap<String, u64>, BTreeMap<String, u64>, u64, Vec<(u64, String)>, BTreeMap<u64, (Vec<u64>, String, String)>)> =
            Mutex::new((HashSet::new(), BTreeMap::new(), BTreeMap::new(), 0, vec![], BTreeMap::new()));
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        std::thread::scope(|scope| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(scope, || {
                        let slot = new_slot();
                        let mut seen = HashSet::new();
                        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
                        let mut known: BTreeMap<String, u64> = BTreeMap::new();
                        let mut evals = 0u64;
                        let mut samples = vec![];
                        let mut fails = BTreeMap::new();
                        'outer: loop {
                            let base = next.fetch_add(64, Ordering::SeqCst);
                            if base >= n {
                                break;
                            }
                            for i in base..(base + 64).min(n) {
                                if i > first_fail.load(Ordering::SeqCst) {
                                    break 'outer;
                                }
                                put_slot(slot, 1, si as u64, i, evals);
                                let mut src = first_src(check, sub, seed, i);
                                let case = run_case(sub.prop, &mut src);
                                evals += 1 + case.subcases;
                                for c in case.classes.iter() {
                                    *classes.entry(c.clone()).or_insert(0) += 1;
                                }
                                if let Some(ref k) = case.known {
                                    *known.entry(k.clone()).or_insert(0) += 1;
                                }
                                if case.nontrivial && seen.insert(hash64(&case.input)) && (i < 64 || i % 4096 == 7) && samples.len() < 8 {
                                    samples.push((i, case.input.clone()));
                                }
                                if let Some(msg) = case.failure {
                                    first_fail.fetch_min(i, Ordering::SeqCst);
                                    fails.insert(i, (src.rec.clone(), case.input, msg));
                                }
                            }
                        }
                        put_slot(slot, 0, si as u64, 0, evals);
                        let mut m = merged.lock().unwrap();
                        m.0.extend(seen);
                        for (k, v) in classes {
                            *m.1.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in known {
                            *m.2.entry(k).or_insert(0) += v;
                        }
                        m.3 += evals;
                        m.4.extend(samples);
                        m.5.extend(fails);
                    })
                    .expect("spawn");
            }
        });
        let (s, c, k, e, mut smp, fails) = merged.into_inner().unwrap();
        let d = s.len() as u64;
        let before = seen.len() as u64;
        seen.extend(s);
        out.evaluations += e;
        out.distinct += seen.len() as u64 - before;
        for (key, v) in c {
            *out.classes.entry(format!("{}: {}", sub.name, key)).or_insert(0) += v;
        }
        for (key, v) in k {
            *out.known.entry(key).or_insert(0) += v;
        }
        out.per_sub.push((sub.name.to_string(), e, d));
        smp.sort();
        for (_, s) in smp.into_iter().take(3) {
            out.samples.push((sub.name.to_string(), s));
        }
        if let Some((_, (choices, input, message))) = fails.into_iter().next() {
            let (choices, input, message) = shrink_in_thread(sub, si, (choices, input, message));
            out.failure = Some(Failure { sub: si, choices, input, message });
            return out;
        }
    }
    out
}

fn shrink_in_thread(sub: &Sub, si: usize, first: (Vec<u64>, String, String)) -> (Vec<u64>, String, String) {
    let (prop, name) = (sub.prop, sub.name);
    let work = move || {
        let slot = new_slot();
        put_best(name, &first);
        let mut run = |cand: Vec<u64>| {
            put_slot(slot, 1, SHRINKING | si as u64, 0, 0);
            let mut src = Src::replay(cand);
            let case = run_case(prop, &mut src);
            case.failure.map(|msg| (src.rec, case.input, msg))
        };
        let best = shrink(&mut run, first, &|b| put_best(name, b), 40);
        put_slot(slot, 0, 0, 0, 0);
        best
    };
    std::thread::Builder::new().stack_size(STACK).spawn(work).unwrap().join().unwrap()
}

/// Runs one case on a stack like that of the workers.
pub fn case_in_thread(prop: PropFn, mut src: Src) -> (Case, Vec<u64>) {
    let work = move || {
        let slot = new_slot();
        put_slot(slot, 1, 0, 0, 0);
        let case = run_case(prop, &mut src);
        put_slot(slot, 0, 0, 0, 0);
        (case, src.rec)
    };
    std::thread::Builder::new().stack_size(STACK).spawn(work).unwrap().join().unwrap()
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub type Failing = (Vec<u64>, String, String);

/// Shrinks a failing choice sequence; `run` returns what a candidate made of itself if it fails too.
pub fn shrink(run: &mut dyn FnMut(Vec<u64>) -> Option<Failing>, first: Failing, better: &dyn Fn(&Failing), secs: u64) -> Failing {
    let mut best = first;
    let start = Instant::now();
    let mut budget = 20000u32;
    // returns true if the candidate fails and is simpler
    let mut attempt = |cand: Vec<u64>, best: &mut Failing| -> bool {
        if budget == 0 || start.elapsed().as_secs() > secs {
            return false;
        }
        budget -= 1;
        if let Some(f) = run(cand) {
            if simpler(&f.0, &best.0) {
                *best = f;
                better(best);
                return true;
            }
        }
        false
    };
    loop {
        let before = best.0.clone();
        // delete chunks
        let mut size = 64;
        while size > 0 {
            let mut i = best.0.len().saturating_sub(size);
            loop {
                if i + size <= best.0.len() {
                    let mut c = best.0.clone();
                    c.drain(i..i + size);
                    attempt(c, &mut best);
                }
                if i == 0 {
                    break;
                }
                i -= 1;
            }
            size /= 2;
        }
        // zero chunks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.0.len() {
                if best.0[i..i + size].iter().any(|&v| v != 0) {
                    let mut c = best.0.clone();
                    for v in &mut c[i..i + size] {
                        *v = 0;
                    }
                    attempt(c, &mut best);
                }
                i += 1;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.0.len() {
            let (mut lo, hi) = (0u64, best.0[i]);
            if hi > 0 {
                let mut hi = hi;
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.0.clone();
                    c[i] = mid;
                    if attempt(c, &mut best) && i < best.0.len() {
                        hi = best.0[i].min(mid);
                    } else {
                        lo = mid + 1;
                    }
                    if i >= best.0.len() {
                        break;
                    }
                }
                for step in 1..4u64 {
                    if i < best.0.len() && best.0[i] >= step {
                        let mut c = best.0.clone();
                        c[i] -= step;
                        attempt(c, &mut best);
                    }
                }
            }
            i += 1;
        }
        // lower one value while deleting the next few (removes an element and its length)
        let mut i = 0;
        while i < best.0.len() {
            if best.0[i] > 0 {
                for del in 1..6usize {
                    if i + 1 + del <= best.0.len() && best.0[i] > 0 {
                        let mut c = best.0.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + del);
                        attempt(c, &mut best);
                    }
                }
            }
            i += 1;
        }
        if best.0 == before {
            return best;
        }
    }
}
