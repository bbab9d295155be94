//! Small property-testing runner on top of proptest's strategies and value trees.
//!
//! Every case is a pure function of (VERIF_SEED, property, sub-check, case index): the
//! strategy draws from a ChaCha stream seeded with those four values, so a replay file only
//! needs to name them.  Failures are shrunk with the strategy's own value tree.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub use proptest;

// ---------------------------------------------------------------- results of one case
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail {
            sig: None,
            msg: msg.to_string(),
        }
    }
}
pub fn fail_sig(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
    Fail {
        sig: Some(sig.into()),
        msg: msg.into(),
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::Fail::from(format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if !(*l == *r) {
            return Err($crate::Fail::from(format!("{}: got {:?} want {:?}", format!($($a)*), l, r)));
        }
    }};
}

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    classes: Vec<&'static str>,
}
impl Obs {
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn class(&mut self, name: &'static str) {
        if !self.classes.contains(&name) {
            self.classes.push(name)
        }
    }
    pub fn class_if(&mut self, b: bool, name: &'static str) {
        if b {
            self.class(name)
        }
    }
}

// ---------------------------------------------------------------- panics
thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = i
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
        } else {
            default(i)
        }
    }));
}
/// Run a closure, turning a panic into Err(message).
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| {
        PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

// ---------------------------------------------------------------- allocation limit per case
/// Counting allocator: a single case that grows the heap by more than LIMIT bytes is reported
/// as a violation (runaway memory growth), because unwinding out of an allocator is not possible.
pub struct LimitAlloc;
const LIMIT: i64 = 3 << 30;
thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static ALIGN: Cell<i64> = const { Cell::new(0) };
}
/// What this thread took from the heap less what it gave back: bytes, and the sum of alignments.
/// Memory given back with another layout than it was taken with (or not at all) leaves it changed.
pub fn heap() -> (i64, i64) {
    (NET.with(|c| c.get()), ALIGN.with(|c| c.get()))
}
#[inline]
fn align(n: i64) {
    let _ = ALIGN.try_with(|c| c.set(c.get() + n));
}
static ON_LIMIT: Mutex<Option<fn()>> = Mutex::new(None);
#[inline]
fn grow(n: i64) {
    let _ = NET.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if v > LIMIT && ARMED.with(|a| a.replace(false)) {
            runaway("case grew the heap by more than 3 GiB");
        }
    });
}
unsafe impl GlobalAlloc for LimitAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        align(l.align() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = NET.try_with(|c| c.set(c.get() - l.size() as i64));
        align(-(l.align() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        align(l.align() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- worker slots / watchdog
struct Slot {
    clock: libc::clockid_t,
    start_ns: AtomicI64, // -1 = idle
    cur: Mutex<Option<Current>>,
}
#[derive(Clone)]
struct Current {
    prop: &'static str,
    sub: String,
    seed: u64,
    case: u64,
    input: Arc<String>,
    cpu_limit: u64,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
thread_local! { static MY_SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) }; }

fn clock_ns(c: libc::clockid_t) -> i64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(c, &mut ts) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}
fn register_slot() -> Arc<Slot> {
    crash_stack();
    let mut clock: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
    let s = Arc::new(Slot {
        clock,
        start_ns: AtomicI64::new(-1),
        cur: Mutex::new(None),
    });
    SLOTS.lock().unwrap().push(s.clone());
    MY_SLOT.with(|m| *m.borrow_mut() = Some(s.clone()));
    s
}
fn unregister_slot(s: &Arc<Slot>) {
    SLOTS.lock().unwrap().retain(|x| !Arc::ptr_eq(x, s));
}
fn violation_exit(cur: &Current, why: &str) -> ! {
    let path = write_replay(
        cur.prop, &cur.sub, cur.seed, cur.case, &cur.input, &cur.input, why,
    );
    println!("{} sub={} case={}: {}", cur.prop, cur.sub, cur.case, why);
    println!("VIOLATION property={} replay={}", cur.prop, path);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}
#[cold]
fn runaway(why: &str) {
    let _ = ON_LIMIT;
    let cur = MY_SLOT.with(|m| {
        m.borrow()
            .as_ref()
            .and_then(|s| s.cur.lock().ok().and_then(|c| c.clone()))
    });
    if let Some(c) = cur {
        violation_exit(&c, why)
    }
}
/// A case that takes the whole process down (abort, stack overflow, wild pointer) is a violation.
extern "C" fn on_crash(sig: libc::c_int) {
    unsafe {
        // should the report itself hang
        libc::signal(libc::SIGALRM, libc::SIG_DFL);
        libc::alarm(20);
        for s in CRASHES {
            libc::signal(s, libc::SIG_DFL);
        }
    }
    let why = format!("the process dies of signal {sig}");
    runaway(&why);
    // a thread of the code under test
    let slots: Vec<_> = SLOTS.lock().map(|s| s.clone()).unwrap_or_default();
    for s in slots {
        let cur = s.cur.lock().ok().and_then(|c| c.clone());
        if let (Some(c), true) = (cur, s.start_ns.load(Ordering::SeqCst) >= 0) {
            violation_exit(&c, &why)
        }
    }
    unsafe {
        libc::raise(sig);
    }
}
const CRASHES: [libc::c_int; 5] = [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE];
fn catch_crashes() {
    unsafe {
        for s in CRASHES {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}
/// room for the report of a stack overflow
fn crash_stack() {
    const ROOM: usize = 1 << 20;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), ROOM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if p != libc::MAP_FAILED {
            let st = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: ROOM };
            libc::sigaltstack(&st, std::ptr::null_mut());
        }
    }
}
fn start_watchdog(total_s: u64) {
    catch_crashes();
    let begin = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(1000));
        if begin.elapsed().as_secs() > total_s {
            println!("ERROR: check ran out of its own time budget ({total_s} s); inconclusive");
            unsafe { libc::_exit(3) }
        }
        let slots: Vec<_> = SLOTS.lock().unwrap().clone();
        for s in slots {
            let st = s.start_ns.load(Ordering::SeqCst);
            if st < 0 {
                continue;
            }
            let cur = s.cur.lock().unwrap().clone();
            if let Some(c) = cur {
                let used = clock_ns(s.clock) - st;
                if s.start_ns.load(Ordering::SeqCst) == st
                    && used > c.cpu_limit as i64 * 1_000_000_000
                {
                    violation_exit(
                        &c,
                        &format!("does not terminate: one case used more than {} s of CPU time", c.cpu_limit),
                    );
                }
            }
        }
    });
}

// ---------------------------------------------------------------- json helpers
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn write_replay(
    prop: &str,
    sub: &str,
    seed: u64,
    case: u64,
    minimal: &str,
    original: &str,
    reason: &str,
) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{sub}-{seed}-{case}.json");
    let body = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"seed\": {},\n \"case\": {},\n \"reason\": {},\n \"minimal_input\": {},\n \"original_input\": {},\n \"replay_cmd\": {}\n}}\n",
        js(prop), js(sub), seed, case, js(reason), js(minimal), js(original),
        js(&format!("cd /verif && ./run.sh {prop} --replay {sub}:{seed}:{case}"))
    );
    let _ = std::fs::write(&path, body);
    path
}

// ---------------------------------------------------------------- sub checks
#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}
#[derive(Clone)]
struct Failure {
    case: u64,
    minimal: String,
    original: String,
    reason: String,
    shrinks: u64,
}
type RunFn = dyn Fn(&RunArgs) -> (Tally, Option<Failure>) + Send + Sync;
struct RunArgs {
    prop: &'static str,
    name: String,
    seed: u64,
    cases: u64,
    only: Option<u64>,
    known: Arc<HashSet<String>>,
    cpu_limit: u64,
    threads: usize,
}
pub struct Sub {
    pub name: String,
    pub quick: u64,
    pub thorough: u64,
    pub cpu_limit: u64,
    pub threads: usize,
    run: Box<RunFn>,
}
impl Sub {
    pub fn cpu_limit(mut self, s: u64) -> Self {
        self.cpu_limit = s;
        self
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

fn h64(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn fnv(s: &[u8], mut h: u64) -> u64 {
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let base = fnv(sub.as_bytes(), fnv(prop.as_bytes(), 0xcbf29ce484222325));
    for (i, c) in out.chunks_mut(8).enumerate() {
        let mut z = base
            ^ seed.wrapping_mul(0x9E3779B97F4A7C15)
            ^ idx.wrapping_mul(0xBF58476D1CE4E5B9)
            ^ ((i as u64 + 1).wrapping_mul(0x94D049BB133111EB));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}
fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1
    }
    format!("{}… ({} chars)", &s[..e], s.len())
}

pub fn sub<S, F>(
    name: &str,
    quick: u64,
    thorough: u64,
    strat: impl Fn() -> S + Send + Sync + 'static,
    test: F,
) -> Sub
where
    S: Strategy + 'static,
    S::Value: Debug,
    F: Fn(&S::Value, &mut Obs) -> Res + Send + Sync + 'static,
{
    let run = move |a: &RunArgs| -> (Tally, Option<Failure>) {
        let next = AtomicU64::new(0);
        let failed_at = AtomicU64::new(u64::MAX);
        let tally = Mutex::new(Tally::default());
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let want_stop = AtomicBool::new(false);
        let worker = || {
            let slot = register_slot();
            let strategy = strat();
            let config = Config {
                failure_persistence: None,
                ..Config::default()
            };
            let mut local = Tally::default();
            let exec = |v: &S::Value, input: Arc<String>, idx: u64, obs: &mut Obs| -> Res {
                *slot.cur.lock().unwrap() = Some(Current {
                    prop: a.prop,
                    sub: a.name.clone(),
                    seed: a.seed,
                    case: idx,
                    input,
                    cpu_limit: a.cpu_limit,
                });
                NET.with(|n| n.set(0));
                ARMED.with(|n| n.set(true));
                slot.start_ns.store(clock_ns(slot.clock), Ordering::SeqCst);
                let r = no_panic(|| test(v, obs));
                slot.start_ns.store(-1, Ordering::SeqCst);
                ARMED.with(|n| n.set(false));
                match r {
                    Ok(r) => r,
                    Err(p) => Err(Fail { sig: None, msg: p }),
                }
            };
            loop {
                if want_stop.load(Ordering::Relaxed) {
                    break;
                }
                let idx = match a.only {
                    Some(i) => {
                        if next.fetch_add(1, Ordering::SeqCst) > 0 {
                            break;
                        }
                        i
                    }
                    None => next.fetch_add(1, Ordering::SeqCst),
                };
                if a.only.is_none() && (idx >= a.cases || idx > failed_at.load(Ordering::SeqCst)) {
                    break;
                }
                let rng = TestRng::from_seed(
                    RngAlgorithm::ChaCha,
                    &case_seed(a.seed, a.prop, &a.name, idx),
                );
                let mut runner = TestRunner::new_with_rng(config.clone(), rng);
                let mut tree = match strategy.new_tree(&mut runner) {
                    Ok(t) => t,
                    Err(e) => {
                        println!("ERROR: generator rejected: {e}");
                        unsafe { libc::_exit(3) }
                    }
                };
                let value = tree.current();
                let input = Arc::new(format!("{value:?}"));
                let mut obs = Obs::default();
                let r = exec(&value, input.clone(), idx, &mut obs);
                local.evaluations += 1;
                for c in &obs.classes {
                    *local.classes.entry(c).or_default() += 1;
                }
                if obs.nontrivial {
                    let new = local.nontrivial.insert(h64(&*input));
                    if new && local.samples.len() < 2 && idx % 7 == 3 {
                        local.samples.push(clip(&input, 400));
                    }
                }
                let is_known = |f: &Fail| f.sig.as_ref().map_or(false, |s| a.known.contains(s));
                if let Err(f) = r {
                    if is_known(&f) {
                        *local.known.entry(f.sig.clone().unwrap()).or_default() += 1;
                        continue;
                    }
                    failed_at.fetch_min(idx, Ordering::SeqCst);
                    let mut best = (input.clone(), f);
                    let begin = Instant::now();
                    let mut iters = 0u64;
                    let mut shrinks = 0u64;
                    let budget_s = 40;
                    if tree.simplify() {
                        loop {
                            iters += 1;
                            if iters > 20_000 || begin.elapsed().as_secs() > budget_s {
                                break;
                            }
                            let v = tree.current();
                            let inp = Arc::new(format!("{v:?}"));
                            let mut o = Obs::default();
                            match exec(&v, inp.clone(), idx, &mut o) {
                                Err(f) if !is_known(&f) => {
                                    shrinks += 1;
                                    best = (inp, f);
                                    if !tree.simplify() {
                                        break;
                                    }
                                }
                                _ => {
                                    if !tree.complicate() {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    let fl = Failure {
                        case: idx,
                        minimal: best.0.to_string(),
                        original: input.to_string(),
                        reason: best.1.msg.clone()
                            + &best
                                .1
                                .sig
                                .as_ref()
                                .map(|s| format!(" [sig {s}]"))
                                .unwrap_or_default(),
                        shrinks,
                    };
                    let mut g = failure.lock().unwrap();
                    if g.as_ref().map_or(true, |o| o.case > fl.case) {
                        *g = Some(fl);
                    }
                    break;
                }
            }
            unregister_slot(&slot);
            let mut t = tally.lock().unwrap();
            t.evaluations += local.evaluations;
            t.nontrivial.extend(local.nontrivial);
            for (k, v) in local.classes {
                *t.classes.entry(k).or_default() += v;
            }
            for (k, v) in local.known {
                *t.known.entry(k).or_default() += v;
            }
            t.samples.extend(local.samples);
        };
        let threads = if a.only.is_some() { 1 } else { a.threads };
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(s, worker)
                        .unwrap()
                })
                .collect();
            for h in hs {
                if h.join().is_err() {
                    println!("ERROR: harness worker died");
                    unsafe { libc::_exit(3) }
                }
            }
        });
        want_stop.store(true, Ordering::Relaxed);
        (
            tally.into_inner().unwrap(),
            failure.into_inner().unwrap(),
        )
    };
    Sub {
        name: name.to_string(),
        quick,
        thorough,
        cpu_limit: 60,
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()).min(8),
        run: Box::new(run),
    }
}

/// A deterministic, exhaustively enumerated (or fixed) list of cases as a sub check.
pub fn fixed<T, F>(name: &str, cases: Vec<T>, test: F) -> Sub
where
    T: Debug + Clone + Send + Sync + 'static,
    F: Fn(&T, &mut Obs) -> Res + Send + Sync + 'static,
{
    let n = cases.len() as u64;
    let cases = Arc::new(cases);
    let ctr = Arc::new(Mutex::new(()));
    let _ = ctr;
    let strat_cases = cases.clone();
    // the index comes from the case number, not from randomness
    let idx = Arc::new(AtomicU64::new(0));
    let _ = idx;
    let run = move |a: &RunArgs| -> (Tally, Option<Failure>) {
        let mut t = Tally::default();
        let slot = register_slot();
        let mut failure = None;
        for (i, v) in strat_cases.iter().enumerate() {
            if a.only.map_or(false, |o| o != i as u64) {
                continue;
            }
            let input = Arc::new(format!("{v:?}"));
            let mut obs = Obs::default();
            *slot.cur.lock().unwrap() = Some(Current {
                prop: a.prop,
                sub: a.name.clone(),
                seed: a.seed,
                case: i as u64,
                input: input.clone(),
                cpu_limit: a.cpu_limit,
            });
            NET.with(|n| n.set(0));
            ARMED.with(|n| n.set(true));
            slot.start_ns.store(clock_ns(slot.clock), Ordering::SeqCst);
            let r = no_panic(|| test(v, &mut obs));
            slot.start_ns.store(-1, Ordering::SeqCst);
            ARMED.with(|n| n.set(false));
            t.evaluations += 1;
            for c in &obs.classes {
                *t.classes.entry(c).or_default() += 1;
            }
            if obs.nontrivial {
                t.nontrivial.insert(h64((&*input, "fixed")));
                if t.samples.len() < 1 {
                    t.samples.push(clip(&input, 400));
                }
            }
            let r = match r {
                Ok(r) => r,
                Err(p) => Err(Fail { sig: None, msg: p }),
            };
            if let Err(f) = r {
                if f.sig.as_ref().map_or(false, |s| a.known.contains(s)) {
                    *t.known.entry(f.sig.unwrap()).or_default() += 1;
                    continue;
                }
                failure = Some(Failure {
                    case: i as u64,
                    minimal: input.to_string(),
                    original: input.to_string(),
                    reason: f.msg + &f.sig.map(|s| format!(" [sig {s}]")).unwrap_or_default(),
                    shrinks: 0,
                });
                break;
            }
        }
        unregister_slot(&slot);
        (t, failure)
    };
    Sub {
        name: name.to_string(),
        quick: n,
        thorough: n,
        cpu_limit: 60,
        threads: 1,
        run: Box::new(run),
    }
}

// ---------------------------------------------------------------- main
struct Finding {
    sig: String,
    text: String,
}
fn findings(prop: &str) -> Vec<Finding> {
    let p = format!("{}/KNOWN_FINDINGS.txt", verif_dir());
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, rest) = l.split_once(' ')?;
            if id != prop {
                return None;
            }
            let rest = rest.strip_prefix("sig=")?;
            let (sig, text) = rest.split_once(' ')?;
            Some(Finding {
                sig: sig.into(),
                text: text.into(),
            })
        })
        .collect()
}

pub fn main(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    if id == "--list" {
        for p in &props {
            println!("{}", p.id);
        }
        std::process::exit(0)
    }
    let Some(p) = props.iter().find(|p| p.id == id) else {
        println!("ERROR: no such property {id}");
        std::process::exit(3)
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i128>().ok())
        .unwrap_or(1) as u64;
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    install_hook();
    start_watchdog(if tier == "quick" { 840 } else { 6 * 3600 });
    let begin = Instant::now();
    let fnd = findings(p.id);
    let known: Arc<HashSet<String>> = Arc::new(fnd.iter().map(|f| f.sig.clone()).collect());

    // replay = sub:seed:case or a path to a replay file
    let mut only: Option<(String, u64, u64)> = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let spec = args.get(i + 1).cloned().unwrap_or_default();
        let spec = if std::path::Path::new(&spec).exists() {
            let t = std::fs::read_to_string(&spec).unwrap();
            let pos = t.find("--replay ").expect("replay file") + 9;
            t[pos..].split('"').next().unwrap().to_string()
        } else {
            spec
        };
        let mut it = spec.rsplitn(3, ':');
        let case: u64 = it.next().and_then(|v| v.parse().ok()).expect("case");
        let sd: u64 = it.next().and_then(|v| v.parse().ok()).expect("seed");
        let sb = it.next().expect("sub").to_string();
        only = Some((sb, sd, case));
    }
    let sub_filter = args
        .iter()
        .position(|a| a == "--sub")
        .and_then(|i| args.get(i + 1).cloned());

    let mut total = Tally::default();
    let mut per_sub = vec![];
    let mut violations = vec![];
    for s in &p.subs {
        if let Some((sb, _, _)) = &only {
            if sb != &s.name {
                continue;
            }
        }
        if sub_filter.as_ref().map_or(false, |f| !s.name.contains(f.as_str())) {
            continue;
        }
        let t0 = Instant::now();
        let base = if tier == "quick" { s.quick } else { s.thorough };
        let a = RunArgs {
            prop: p.id,
            name: s.name.clone(),
            seed: only.as_ref().map_or(seed, |o| o.1),
            cases: ((base as f64 * scale).ceil() as u64).max(1),
            only: only.as_ref().map(|o| o.2),
            known: known.clone(),
            cpu_limit: s.cpu_limit,
            threads: s.threads,
        };
        let (t, f) = (s.run)(&a);
        println!(
            "{} {:<28} cases={} distinct_nontrivial={} {:.1}s classes={:?}",
            p.id,
            s.name,
            t.evaluations,
            t.nontrivial.len(),
            t0.elapsed().as_secs_f64(),
            t.classes
        );
        let cls: Vec<String> = t
            .classes
            .iter()
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .collect();
        per_sub.push(format!(
            "{}: {{\"cases\": {}, \"distinct_nontrivial\": {}, \"seconds\": {:.2}, \"classes\": {{{}}}}}",
            js(&s.name),
            t.evaluations,
            t.nontrivial.len(),
            t0.elapsed().as_secs_f64(),
            cls.join(", ")
        ));
        total.evaluations += t.evaluations;
        total
            .nontrivial
            .extend(t.nontrivial.iter().map(|h| h64((h, &s.name))));
        for x in t.samples.iter().take(2) {
            total.samples.push(format!("{}: {}", s.name, x));
        }
        for (k, v) in t.known {
            *total.known.entry(k).or_default() += v;
        }
        if let Some(f) = f {
            let path = write_replay(
                p.id,
                &s.name,
                a.seed,
                f.case,
                &clip(&f.minimal, 20000),
                &clip(&f.original, 20000),
                &f.reason,
            );
            println!(
                "{} {} FAILED case {} after {} shrinks\n  input:  {}\n  reason: {}",
                p.id,
                s.name,
                f.case,
                f.shrinks,
                clip(&f.minimal, 2000),
                clip(&f.reason, 2000)
            );
            violations.push(path);
            if std::env::var("VERIF_KEEP").is_err() {
                break;
            }
        }
    }
    for f in &fnd {
        if let Some(n) = total.known.get(&f.sig) {
            println!("KNOWN-FINDING: property={} {} (sig {}, {} cases)", p.id, f.text, f.sig, n);
        }
    }
    if only.is_none() && sub_filter.is_none() {
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let samples: Vec<String> = total.samples.iter().map(|s| js(s)).collect();
        let assum: Vec<String> = p.assumptions.iter().map(|s| js(s)).collect();
        let known: Vec<String> = total
            .known
            .iter()
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .collect();
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"sub_checks\": {{{}}},\n  \"known_finding_hits\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            js(p.id), js(tier), seed as i64, total.evaluations, total.nontrivial.len(), js(p.rule),
            samples.join(",\n   "), per_sub.join(",\n   "), known.join(", "), assum.join(", "),
            begin.elapsed().as_secs_f64(), violations.len()
        );
        std::fs::write(format!("{dir}/{}.json", p.id), body).expect("write evidence");
    }
    println!(
        "{} total cases={} distinct_nontrivial={} wall={:.1}s",
        p.id,
        total.evaluations,
        total.nontrivial.len(),
        begin.elapsed().as_secs_f64()
    );
    if violations.is_empty() {
        std::process::exit(0)
    }
    for v in &violations {
        println!("VIOLATION property={} replay={}", p.id, v);
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}
