//! I01..I04: the process bus.  Everything runs with TMPDIR pointing at a scratch folder (see
//! main.rs); other processes are children of this program that obey line commands.
use fw::*;
use ipcbus::ProcBus;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

static NEXT: AtomicU64 = AtomicU64::new(1);
fn uniq() -> u64 {
    NEXT.fetch_add(1, Ordering::SeqCst)
}
/// an id no other case or run uses, nor any id that differs from another in a few bits
fn fresh_id() -> u64 {
    use std::hash::{BuildHasher, Hasher};
    let mut h = std::collections::hash_map::RandomState::new().build_hasher();
    h.write_u64(uniq());
    h.finish()
}
fn scratch() -> PathBuf {
    std::env::temp_dir()
}
/// a fresh folder with an id file
fn bus_dir(id: u64) -> PathBuf {
    let d = scratch().join(format!("bus-{}-{}", std::process::id(), uniq()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), id.to_be_bytes()).unwrap();
    d
}
// ------------------------------------------------------------------ child side
fn asleep(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit_once(") ").map_or(false, |(_, r)| r.starts_with('S'))
}
/// CPU time of a thread in microseconds
fn cpu_us(tid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).unwrap_or_default();
    s.split(' ').next().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) / 1000
}
/// wait until all threads are waiting for the bus: they sleep (there is nothing else to sleep
/// on), or spin (event-listener 3.1 polls when there is a deadline) for much longer than it
/// takes to start waiting
fn settle(tids: &[i32]) -> bool {
    let end = Instant::now() + Duration::from_secs(30);
    let start: Vec<u64> = tids.iter().map(|t| cpu_us(*t)).collect();
    let mut seen = 0;
    while Instant::now() < end {
        if tids.iter().zip(&start).all(|(t, s)| asleep(*t) || cpu_us(*t) > s + 4_000) {
            seen += 1;
            if seen >= 4 {
                return true;
            }
        } else {
            seen = 0
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    false
}
/// wait until every other thread of this process sleeps
fn quiet() {
    let end = Instant::now() + Duration::from_secs(10);
    let me = gettid();
    let mut seen = 0;
    while seen < 3 && Instant::now() < end {
        let tids = std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten().filter_map(|e| e.file_name().to_str()?.parse::<i32>().ok());
        seen = if tids.filter(|t| *t != me).all(asleep) { seen + 1 } else { 0 };
        std::thread::sleep(Duration::from_micros(200));
    }
}
fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}
fn port_word(id: u64) -> String {
    match no_panic(|| ipcbus::get_port(id)) {
        Ok(Ok(p)) => p.to_string(),
        Ok(Err(_)) => "e".into(),
        Err(_) => "x".into(),
    }
}
pub fn child() -> ! {
    unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN) };
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let mut buses: BTreeMap<String, Arc<ProcBus>> = BTreeMap::new();
    let mut waits: BTreeMap<String, std::thread::JoinHandle<Option<u64>>> = BTreeMap::new();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let w: Vec<&str> = line.split(' ').collect();
        let reply = match w[0] {
            "open" => match no_panic(|| ProcBus::new(Path::new(w[2]))) {
                Ok(Ok(b)) => {
                    b.init();
                    buses.insert(w[1].into(), Arc::new(b));
                    "ok".into()
                }
                Ok(Err(_)) => "err".into(),
                Err(_) => "panic".into(),
            },
            "init" => {
                buses[w[1]].init();
                "ok".into()
            }
            "emit" => {
                let b = buses[w[1]].clone();
                let mut out = vec![];
                for v in w[2].split(',') {
                    out.push(b.emit(v.parse().unwrap()).to_string())
                }
                out.join(",")
            }
            "val" => buses[w[1]].val().to_string(),
            "wait" => {
                let b = buses[w[1]].clone();
                let ms = w[2].parse().unwrap();
                // a thread that has set the value may still have to tell the waiters
                quiet();
                let (tx, rx) = std::sync::mpsc::channel();
                let h = std::thread::spawn(move || {
                    tx.send(gettid()).unwrap();
                    b.next_deadline(Some(Instant::now() + Duration::from_millis(ms)))
                });
                let tid = rx.recv().unwrap();
                let ok = settle(&[tid]);
                waits.insert(w[1].into(), h);
                if ok { "waiting".into() } else { "awake".into() }
            }
            "waited" => match waits.remove(w[1]).unwrap().join() {
                Ok(Some(v)) => v.to_string(),
                Ok(None) => "none".into(),
                Err(_) => "panic".into(),
            },
            "port" => port_word(w[1].parse().unwrap()),
            "ports" => {
                let lists: Vec<Vec<u64>> = w[1].split(';').map(|l| l.split(',').map(|v| v.parse().unwrap()).collect()).collect();
                let bar = Arc::new(Barrier::new(lists.len()));
                let hs: Vec<_> = lists
                    .into_iter()
                    .map(|l| {
                        let bar = bar.clone();
                        std::thread::spawn(move || {
                            bar.wait();
                            l.into_iter().map(port_word).collect::<Vec<_>>().join(",")
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or("x".into())).collect::<Vec<_>>().join(";")
            }
            "hammer" => {
                let mut id: u64 = w[1].parse().unwrap();
                loop {
                    println!("{id} {}", port_word(id));
                    id = id.wrapping_add(1);
                }
            }
            "fsize" => {
                let n: i64 = w[1].parse().unwrap();
                let lim = libc::rlimit { rlim_cur: if n < 0 { libc::RLIM_INFINITY } else { n as u64 }, rlim_max: libc::RLIM_INFINITY };
                unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &lim) };
                "ok".into()
            }
            _ => "?".into(),
        };
        println!("{reply}");
    }
    std::process::exit(0)
}
// ------------------------------------------------------------------ parent side
struct Child {
    proc: std::process::Child,
    rx: Receiver<String>,
}
impl Child {
    fn new(tmp: &Path) -> Child {
        let mut proc = Command::new("/proc/self/exe")
            .arg("--ipc-child")
            .env("TMPDIR", tmp)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a child");
        let out = proc.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Child { proc, rx }
    }
    fn pid(&self) -> u32 {
        self.proc.id()
    }
    fn send(&mut self, s: &str) -> Result<(), Fail> {
        writeln!(self.proc.stdin.as_mut().unwrap(), "{s}").map_err(|e| Fail::from(format!("a process died before {s:?}: {e}")))
    }
    fn recv(&mut self) -> Result<String, Fail> {
        match self.rx.recv_timeout(Duration::from_secs(100)) {
            Ok(l) => Ok(l),
            Err(RecvTimeoutError::Timeout) => Err("a process hung".into()),
            Err(_) => Err("a process died".into()),
        }
    }
    fn ask(&mut self, s: &str) -> Result<String, Fail> {
        self.send(s)?;
        self.recv()
    }
}
impl Drop for Child {
    fn drop(&mut self) {
        let _ = self.proc.kill();
        let _ = self.proc.wait();
    }
}
struct Pool {
    uses: usize,
    kids: Vec<Child>,
    tmps: Vec<PathBuf>,
}
thread_local! { static POOL: RefCell<Option<Pool>> = const { RefCell::new(None) }; }
/// four children: 0,1,2 share one TMPDIR, 3 lives in another one
fn with_pool(f: impl FnOnce(&mut Pool) -> Res) -> Res {
    let mut p = POOL.with(|p| p.borrow_mut().take()).filter(|p| p.uses < 12).unwrap_or_else(|| {
        let tmps: Vec<_> = (0..2)
            .map(|_| {
                let d = scratch().join(format!("t{}", uniq()));
                std::fs::create_dir_all(&d).unwrap();
                d
            })
            .collect();
        let kids = (0..4).map(|i| Child::new(&tmps[(i == 3) as usize])).collect();
        Pool { uses: 0, kids, tmps }
    });
    p.uses += 1;
    let r = f(&mut p);
    if r.is_ok() {
        POOL.with(|c| *c.borrow_mut() = Some(p));
    }
    r
}
// ------------------------------------------------------------------ I01
fn value() -> BoxedStrategy<u64> {
    prop_oneof![4 => 0u64..12, 2 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(u64::MAX - 1), 1 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(1))].boxed()
}
#[derive(Debug, Clone)]
enum BOp {
    Emit(u64),
    Quiet(u64),
    Wait,
    Again,
    Drop(u8),
    Timed(u8),
}
struct Flag(AtomicBool);
impl std::task::Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
fn sequence(ops: &Vec<BOp>, o: &mut Obs) -> Res {
    let bus = local_bus()?;
    let mut model = 0u64;
    type Fut<'a> = std::pin::Pin<Box<dyn Future<Output = u64> + 'a>>;
    struct W<'a> {
        f: Fut<'a>,
        flag: Arc<Flag>,
        /// largest accepted value and whether anything at all was emitted since
        accepted: Option<u64>,
        any: bool,
    }
    let mut ws: Vec<W> = vec![];
    ensure_eq!(bus.val(), 0, "value of a new bus");
    for op in ops {
        match op {
            BOp::Emit(v) | BOp::Quiet(v) => {
                let accepted = *v >= model;
                model = model.max(*v);
                let got = if matches!(op, BOp::Emit(_)) { bus.emit(*v) } else { bus._emit::<true>(*v) };
                ensure_eq!(got, model, "emit({v}) reports");
                for w in &mut ws {
                    w.any = true;
                    if accepted {
                        w.accepted = Some(*v)
                    }
                }
                o.class_if(accepted && !ws.is_empty(), "waiters woken");
                o.class_if(!accepted, "stale emit");
            }
            BOp::Again => {
                model = model.max(bus.val());
                ensure_eq!(bus.emit(model), model, "emitting the value in force");
                for w in &mut ws {
                    w.any = true;
                    w.accepted = Some(model);
                }
            }
            BOp::Wait => {
                let flag = Arc::new(Flag(AtomicBool::new(false)));
                let mut f: Fut = Box::pin(bus.next_async());
                let waker = flag.clone().into();
                let r = f.as_mut().poll(&mut std::task::Context::from_waker(&waker));
                ensure!(r.is_pending(), "a waiter returned {r:?} although nothing was emitted while it waited");
                ws.push(W { f, flag, accepted: None, any: false });
            }
            BOp::Drop(i) => {
                if !ws.is_empty() {
                    ws.remove(*i as usize % ws.len());
                }
            }
            BOp::Timed(ms) => {
                let begin = Instant::now();
                let d = Duration::from_millis(*ms as u64);
                let r = bus.next_deadline(Some(begin + d));
                ensure_eq!(r, None, "waiting without an emit");
                ensure!(begin.elapsed() >= d, "wait of {ms} ms ended after {:?}", begin.elapsed());
                o.class("timeout");
            }
        }
        ensure_eq!(bus.val(), model, "value after {op:?}");
        let mut keep = vec![];
        for mut w in ws {
            if let Some(v) = w.accepted {
                ensure!(w.flag.0.load(Ordering::SeqCst), "a waiter was not woken by emit({v})");
            }
            let waker = w.flag.clone().into();
            match w.f.as_mut().poll(&mut std::task::Context::from_waker(&waker)) {
                std::task::Poll::Ready(v) => {
                    ensure!(w.any, "a waiter returned {v} although nothing was emitted while it waited");
                    ensure_eq!(v, model, "value seen by a waiter after {op:?}");
                    o.nontrivial(true);
                }
                std::task::Poll::Pending => {
                    ensure!(w.accepted.is_none(), "a waiter still waits after emit({:?})", w.accepted);
                    keep.push(w)
                }
            }
        }
        ws = keep;
    }
    Ok(())
}
fn local_bus() -> Result<ProcBus, Fail> {
    thread_local! { static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }
    let d = DIR.with(|d| d.borrow_mut().get_or_insert_with(|| bus_dir(fresh_id())).clone());
    ProcBus::new(&d).map_err(|e| Fail::from(format!("cannot open a bus: {e}")))
}
/// several threads emit at once; `pattern` decides the values
fn threads((lists, rounds): &(Vec<Vec<u64>>, u8), o: &mut Obs) -> Res {
    for _ in 0..=*rounds % 8 {
        let bus = Arc::new(local_bus()?);
        let max = lists.iter().flatten().copied().max().unwrap_or(0);
        let all: BTreeSet<u64> = lists.iter().flatten().copied().chain([0]).collect();
        let bar = Arc::new(Barrier::new(lists.len() + 1));
        let stop = Arc::new(AtomicBool::new(false));
        let hs: Vec<_> = lists
            .iter()
            .cloned()
            .map(|l| {
                let (bus, bar) = (bus.clone(), bar.clone());
                std::thread::spawn(move || -> Result<u64, String> {
                    bar.wait();
                    let mut low = 0;
                    for (i, v) in l.into_iter().enumerate() {
                        let before = bus.val();
                        if before < low {
                            return Err(format!("value went from {low} to {before}"));
                        }
                        let r = if i % 16 == 15 { bus.emit(v) } else { bus._emit::<true>(v) };
                        let after = bus.val();
                        if r < v || r < before {
                            return Err(format!("emit({v}) at {before} reports {r}"));
                        }
                        if after < r {
                            return Err(format!("value {after} after emit({v}) reported {r}"));
                        }
                        low = after;
                    }
                    Ok(low)
                })
            })
            .collect();
        let watcher = {
            let (bus, stop) = (bus.clone(), stop.clone());
            std::thread::spawn(move || -> Result<u64, String> {
                let mut low = 0;
                let mut steps = 0;
                while !stop.load(Ordering::Relaxed) {
                    let v = bus.val();
                    if v < low {
                        return Err(format!("value went from {low} to {v}"));
                    }
                    if v > low {
                        steps += 1
                    }
                    low = v;
                }
                Ok(steps)
            })
        };
        bar.wait();
        let rs: Vec<_> = hs.into_iter().map(|h| h.join().map_err(|_| "an emitting thread panicked".to_string()).and_then(|r| r)).collect();
        stop.store(true, Ordering::Relaxed);
        let w = watcher.join().map_err(|_| "panic".to_string())?;
        for r in rs {
            let v = r?;
            ensure!(all.contains(&v), "value {v} was never emitted");
        }
        w?;
        ensure_eq!(bus.val(), max, "value after all emits");
    }
    o.nontrivial(lists.len() > 1);
    Ok(())
}
fn racing() -> BoxedStrategy<(Vec<Vec<u64>>, u8)> {
    let list = (any::<u8>(), any::<u64>(), 20usize..400).prop_map(|(k, s, n)| {
        (0..n as u64)
            .map(|i| match k % 4 {
                0 => i,
                1 => i * 3 + s % 3,
                2 => s.wrapping_mul(i * 2 + 1).rotate_left(17) % 100_000,
                _ => n as u64 - i + s % 5,
            })
            .collect::<Vec<u64>>()
    });
    (vec(list, 2..=4), any::<u8>()).boxed()
}
/// blocked threads are woken by a single emit
fn wake((n, first, v, quiet): &(usize, u64, u64, bool), o: &mut Obs) -> Res {
    let v = (*v).max(*first);
    let mut last = None;
    for _attempt in 0..3 {
        let bus = Arc::new(local_bus()?);
        bus.emit(*first);
        let (tx, rx) = std::sync::mpsc::channel();
        let hs: Vec<_> = (0..*n)
            .map(|i| {
                let (bus, tx) = (bus.clone(), tx.clone());
                std::thread::spawn(move || {
                    tx.send(gettid()).unwrap();
                    let d = (i % 3 != 0).then(|| Instant::now() + Duration::from_secs(20));
                    if d.is_none() {
                        // without a deadline, but so that the test ends
                        let r = bus.next_deadline(None);
                        return r;
                    }
                    bus.next_deadline(d)
                })
            })
            .collect();
        let tids: Vec<i32> = (0..*n).map(|_| rx.recv().unwrap()).collect();
        if !settle(&tids) {
            last = Some(Fail::from("waiters never went to sleep"));
            let _ = bus.emit(u64::MAX);
            continue;
        }
        if *quiet {
            bus._emit::<true>(v);
        } else {
            bus.emit(v);
        }
        let end = Instant::now() + Duration::from_secs(15);
        while Instant::now() < end && hs.iter().any(|h| !h.is_finished()) {
            std::thread::sleep(Duration::from_millis(1));
        }
        let stuck = hs.iter().filter(|h| !h.is_finished()).count();
        if stuck > 0 {
            last = Some(Fail::from(format!("{stuck} of {n} waiters were not woken by emit({v}) after {first}")));
            for _ in 0..50 {
                bus.emit(u64::MAX);
                std::thread::sleep(Duration::from_millis(2));
            }
            continue;
        }
        for h in hs {
            let r = h.join().map_err(|_| "a waiter panicked".to_string())?;
            ensure_eq!(r, Some(v), "value seen by a waiter");
        }
        o.nontrivial(true);
        o.class_if(v == *first, "same value");
        o.class_if(v > *first, "larger value");
        return Ok(());
    }
    Err(last.unwrap())
}
// ------------------------------------------------------------------ I02
#[derive(Debug, Clone)]
enum POp {
    Open(u8, u8),
    Emit(u8, u8, Vec<u64>),
    Both(u8, Vec<u64>, Vec<u64>),
    Wait(u8, u8, u8, u64),
    Restart(u8),
}
fn pop() -> BoxedStrategy<POp> {
    let vals = || vec(prop_oneof![3 => 0u64..40, 1 => value()], 1..=8);
    prop_oneof![
        4 => (0u8..4, 0u8..3).prop_map(|(p, b)| POp::Open(p, b)),
        5 => (0u8..4, 0u8..3, vals()).prop_map(|(p, b, v)| POp::Emit(p, b, v)),
        2 => (0u8..3, vals(), vals()).prop_map(|(b, v, w)| POp::Both(b, v, w)),
        2 => (0u8..4, 0u8..4, 0u8..3, 1u64..50).prop_map(|(p, q, b, d)| POp::Wait(p, q, b, d)),
        1 => (0u8..4).prop_map(POp::Restart),
    ]
    .boxed()
}
fn csv(v: &[u64]) -> String {
    v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}
/// buses 0..3; processes 0..2 share a TMPDIR, process 3 has its own, so the same ports are
/// used there for other buses
fn delivery((ops, near): &(Vec<POp>, u8), o: &mut Obs) -> Res {
    with_pool(|pool| {
        let base = fresh_id();
        let delta = [1u64, 1 << 8, 1 << 32, 1 << 40, 1 << 56, 1 << 63][*near as usize % 6];
        let ids: Vec<u64> = [0, delta, delta.rotate_left(1)].iter().map(|d| base ^ d).collect();
        let dirs: Vec<PathBuf> = ids.iter().map(|i| bus_dir(*i)).collect();
        let key = format!("k{}", uniq());
        // val[p][b]
        let mut val: Vec<Vec<Option<u64>>> = vec![vec![None; 3]; 4];
        // process 3 opens other buses than the rest: bus b there has another id
        let far: Vec<PathBuf> = (2..5).map(|i| bus_dir(base ^ delta.rotate_left(i))).collect();
        let peers = |p: usize| if p == 3 { 3..4 } else { 0..3 };
        let mut delivered = false;
        macro_rules! open {
            ($p:expr, $b:expr) => {{
                let (p, b) = ($p, $b);
                if val[p][b].is_none() {
                    let d = if p == 3 { &far[b] } else { &dirs[b] };
                    let r = pool.kids[p].ask(&format!("open {key}-{b} {}", d.display()))?;
                    ensure_eq!(r, "ok", "process {p} opens bus {b}");
                    val[p][b] = Some(0);
                }
            }};
        }
        fn apply(val: &mut [Vec<Option<u64>>], p: usize, b: usize, peers: std::ops::Range<usize>, v: u64) -> u64 {
            let old = val[p][b].unwrap();
            if v >= old {
                for q in peers {
                    if let Some(x) = &mut val[q][b] {
                        *x = (*x).max(v)
                    }
                }
            }
            val[p][b].unwrap()
        }
        for op in ops {
            let mut wait: Option<(usize, usize, u64)> = None;
            match op {
                POp::Open(p, b) => open!(*p as usize, *b as usize),
                POp::Emit(p, b, vs) => {
                    let (p, b) = (*p as usize, *b as usize);
                    open!(p, b);
                    let got = pool.kids[p].ask(&format!("emit {key}-{b} {}", csv(vs)))?;
                    let want: Vec<u64> = vs.iter().map(|v| apply(&mut val, p, b, peers(p), *v)).collect();
                    ensure_eq!(got, csv(&want), "emits report");
                }
                POp::Both(b, v0, v1) => {
                    let b = *b as usize;
                    open!(0, b);
                    open!(1, b);
                    pool.kids[0].send(&format!("emit {key}-{b} {}", csv(v0)))?;
                    pool.kids[1].send(&format!("emit {key}-{b} {}", csv(v1)))?;
                    pool.kids[0].recv()?;
                    pool.kids[1].recv()?;
                    let (a0, a1) = (val[0][b].unwrap(), val[1][b].unwrap());
                    if a0 != a1 {
                        // a stale emit of one is not sent, so who ends where depends on timing
                        for k in 0..2 {
                            let mut vs: Vec<u64> = if k == 0 { v0.clone() } else { v1.clone() };
                            vs.retain(|v| *v >= a0.max(a1));
                            for v in vs {
                                apply(&mut val, k, b, peers(k), v);
                            }
                        }
                        let top = val.iter().flat_map(|v| v[b]).max().unwrap_or(0).max(*v0.iter().chain(v1).max().unwrap());
                        // settle it with one value above everything
                        if let Some(top) = top.checked_add(1) {
                            pool.kids[0].ask(&format!("emit {key}-{b} {top}"))?;
                            for q in 0..3 {
                                if let Some(x) = &mut val[q][b] {
                                    *x = top
                                }
                            }
                        } else {
                            return Ok(());
                        }
                    } else {
                        let top = v0.iter().chain(v1).copied().max().unwrap();
                        if top >= a0 {
                            for q in 0..3 {
                                if let Some(x) = &mut val[q][b] {
                                    *x = (*x).max(top)
                                }
                            }
                        }
                    }
                    o.class("two processes emit at once");
                }
                POp::Wait(p, q, b, d) => {
                    let (mut p, mut q, b) = (*p as usize, *q as usize, *b as usize);
                    if p == 3 || q == 3 {
                        p %= 3;
                        q %= 3;
                    }
                    if p == q {
                        q = (p + 1) % 3
                    }
                    open!(p, b);
                    open!(q, b);
                    converge(pool, &key, &val)?;
                    let now = val.iter().take(3).flat_map(|v| v[b]).max().unwrap();
                    let Some(v) = now.checked_add(*d + 1) else { continue };
                    // a message still under way may repeat the current value and would wake the
                    // waiter: one that is lower does not, and of this value there is only one
                    let r = pool.kids[p].ask(&format!("emit {key}-{b} {}", now + 1))?;
                    ensure_eq!(r, (now + 1).to_string(), "emit reports");
                    apply(&mut val, p, b, 0..3, now + 1);
                    converge(pool, &key, &val)?;
                    let r = pool.kids[q].ask(&format!("wait {key}-{b} 60000"))?;
                    ensure_eq!(r, "waiting", "waiter of process {q}");
                    let got = pool.kids[p].ask(&format!("emit {key}-{b} {v}"))?;
                    apply(&mut val, p, b, 0..3, v);
                    ensure_eq!(got, v.to_string(), "emit reports");
                    wait = Some((q, b, v));
                    o.class("waiter in another process");
                }
                POp::Restart(p) => {
                    let p = *p as usize;
                    let t = pool.tmps[(p == 3) as usize].clone();
                    pool.kids[p] = Child::new(&t);
                    val[p] = vec![None; 3];
                    o.class("process restarted");
                }
            }
            converge(pool, &key, &val).map_err(|f| Fail::from(format!("after {op:?}: {}", f.msg)))?;
            if let Some((q, b, v)) = wait {
                let r = pool.kids[q].ask(&format!("waited {key}-{b}"))?;
                ensure_eq!(r, v.to_string(), "process {q} waiting on bus {b}");
            }
            for b in 0..3 {
                delivered |= (0..3).filter(|p| val[*p][b].map_or(false, |v| v > 0)).count() > 1;
            }
        }
        // anything that still travels must not change a value
        std::thread::sleep(Duration::from_millis(3));
        converge(pool, &key, &val)?;
        o.nontrivial(delivered);
        Ok(())
    })
}
fn converge(pool: &mut Pool, key: &str, val: &[Vec<Option<u64>>]) -> Res {
    let end = Instant::now() + Duration::from_secs(15);
    loop {
        let mut bad = None;
        for p in 0..4 {
            for b in 0..3 {
                if let Some(want) = val[p][b] {
                    let got: u64 = pool.kids[p].ask(&format!("val {key}-{b}"))?.parse().map_err(|_| "no value")?;
                    ensure!(got <= want, "process {p} has value {got} on bus {b}, nobody emitted more than {want} there");
                    if got < want {
                        bad = Some((p, b, got, want))
                    }
                }
            }
        }
        let Some((p, b, got, want)) = bad else { return Ok(()) };
        ensure!(Instant::now() < end, "process {p} still has value {got} on bus {b} long after {want} was emitted");
        std::thread::sleep(Duration::from_micros(300));
    }
}
// ------------------------------------------------------------------ I03
#[derive(Debug, Clone)]
enum ROp {
    /// per process, per thread: which ids
    Concurrent(Vec<Vec<Vec<u8>>>),
    One(u8, u8),
    Restart(u8),
    /// the registry cannot grow beyond this many bytes while one id is registered
    Full(u8, u8, u8),
    /// a torn write: this many bytes missing at the end
    Torn(u8),
    /// a process that registers buses is killed after this many microseconds
    Kill(u16),
}
fn rop() -> BoxedStrategy<ROp> {
    let ids = || vec(0u8..24, 1..=5);
    prop_oneof![
        4 => vec(vec(ids(), 1..=3), 3..=3).prop_map(ROp::Concurrent),
        3 => (0u8..3, 0u8..24).prop_map(|(p, i)| ROp::One(p, i)),
        1 => (0u8..3).prop_map(ROp::Restart),
        2 => (0u8..3, 0u8..24, 0u8..40).prop_map(|(p, i, n)| ROp::Full(p, i, n)),
        2 => (0u8..40).prop_map(ROp::Torn),
        1 => (0u16..4000).prop_map(ROp::Kill),
    ]
    .boxed()
}
fn registry((prefill, near, ops, ids): &(Vec<u64>, u16, Vec<ROp>, Vec<u64>), o: &mut Obs) -> Res {
    let tmp = scratch().join(format!("r{}", uniq()));
    std::fs::create_dir_all(&tmp).unwrap();
    let r = registry_in(&tmp, prefill, *near, ops, ids, o);
    let _ = std::fs::remove_dir_all(&tmp);
    r
}
fn registry_in(tmp: &Path, prefill: &[u64], near: u16, ops: &[ROp], ids: &[u64], o: &mut Obs) -> Res {
    let map = tmp.join("procbus.map");
    // what is promised: id -> port
    let mut known: BTreeMap<u64, u16> = BTreeMap::new();
    let mut bytes = vec![];
    let mut port = 10501u16.max(65535 - near);
    for id in prefill {
        if known.contains_key(id) || port == 65535 {
            continue;
        }
        port += 1;
        known.insert(*id, port);
        bytes.extend(id.to_ne_bytes());
        bytes.extend(port.to_ne_bytes());
    }
    if !bytes.is_empty() {
        std::fs::write(&map, &bytes).unwrap();
    }
    let mut exhausted = known.values().any(|p| *p == 65535);
    let mut kids: Vec<Child> = (0..3).map(|_| Child::new(tmp)).collect();
    let id_of = |i: u8| ids[i as usize % ids.len()];
    // one answer
    fn note(known: &mut BTreeMap<u64, u16>, exhausted: &mut bool, id: u64, ans: &str, fault: bool) -> Res {
        match (ans, known.get(&id).copied()) {
            ("x", _) => ensure!(false, "get_port({id}) panicked"),
            ("e", Some(p)) => ensure!(fault, "get_port({id}) failed although it has port {p}"),
            ("e", None) => ensure!(fault || *exhausted || known.values().any(|p| *p == 65535), "get_port({id}) failed although ports are left"),
            (s, old) => {
                let p: u16 = s.parse().map_err(|_| format!("answer {s:?}"))?;
                if let Some(old) = old {
                    ensure_eq!(p, old, "port of bus {id}");
                } else {
                    if let Some((other, _)) = known.iter().find(|(_, q)| **q == p) {
                        ensure!(false, "bus {id} and bus {other} share port {p}");
                    }
                    ensure!(p > 1024, "port {p} of bus {id}");
                    known.insert(id, p);
                }
            }
        }
        *exhausted |= known.values().any(|p| *p == 65535);
        Ok(())
    }
    for op in ops {
        match op {
            ROp::One(p, i) => {
                let a = kids[*p as usize].ask(&format!("port {}", id_of(*i)))?;
                note(&mut known, &mut exhausted, id_of(*i), &a, false)?;
            }
            ROp::Concurrent(ps) => {
                let cmd = |l: &Vec<Vec<u8>>| l.iter().map(|t| csv(&t.iter().map(|i| id_of(*i)).collect::<Vec<_>>())).collect::<Vec<_>>().join(";");
                for (k, l) in kids.iter_mut().zip(ps) {
                    k.send(&format!("ports {}", cmd(l)))?;
                }
                let mut answers = vec![];
                for (k, l) in kids.iter_mut().zip(ps) {
                    let r = k.recv()?;
                    for (t, ids) in r.split(';').zip(l) {
                        for (a, i) in t.split(',').zip(ids) {
                            answers.push((id_of(*i), a.to_string()));
                        }
                    }
                }
                // answers first, so that errors are judged with everything known
                answers.sort_by_key(|a| a.1 == "e");
                for (id, a) in answers {
                    note(&mut known, &mut exhausted, id, &a, false)?;
                }
                o.class("registered at the same time");
                o.nontrivial(known.len() > 1);
            }
            ROp::Restart(p) => kids[*p as usize] = Child::new(tmp),
            ROp::Full(p, i, n) => {
                let len = std::fs::metadata(&map).map_or(0, |m| m.len());
                let k = &mut kids[*p as usize];
                k.ask(&format!("fsize {}", (len + 15).saturating_sub(*n as u64)))?;
                let a = k.ask(&format!("port {}", id_of(*i)))?;
                k.ask("fsize -1")?;
                o.class_if(a == "e" || a == "x", "registry write fails");
                // whether it is reported as an error or a panic does not matter here
                note(&mut known, &mut exhausted, id_of(*i), if a == "x" { "e" } else { &a }, true)?;
                check_all(&mut kids, &mut known, &mut exhausted)?;
            }
            ROp::Torn(n) => {
                // only the tail of the file can be missing, so only the last entries may be lost
                let Ok(b) = std::fs::read(&map) else { continue };
                let keep = b.len().saturating_sub(*n as usize % 10);
                if keep == b.len() {
                    continue;
                }
                std::fs::write(&map, &b[..keep]).unwrap();
                let lost: Vec<u64> = b.chunks_exact(10).skip(keep / 10).map(|c| u64::from_ne_bytes(c[..8].try_into().unwrap())).collect();
                for l in lost {
                    known.remove(&l);
                }
                exhausted = known.values().any(|p| *p == 65535);
                o.class("torn registry");
                check_all(&mut kids, &mut known, &mut exhausted)?;
            }
            ROp::Kill(us) => {
                let mut k = Child::new(tmp);
                let first = ids[0] ^ (uniq() << 20);
                k.send(&format!("hammer {first}"))?;
                let mut got = vec![k.recv()?];
                std::thread::sleep(Duration::from_micros(*us as u64));
                let _ = k.proc.kill();
                let _ = k.proc.wait();
                while let Ok(l) = k.rx.recv_timeout(Duration::from_secs(10)) {
                    got.push(l)
                }
                drop(k);
                for l in got {
                    if let Some((id, a)) = l.split_once(' ') {
                        if let Ok(id) = id.parse() {
                            if !a.is_empty() && (a == "e" || a.len() == 5) {
                                note(&mut known, &mut exhausted, id, a, false)?;
                            }
                        }
                    }
                }
                // the one it was killed in may have been registered
                exhausted |= known.values().any(|p| *p >= 65534);
                o.class("process killed while registering");
                check_all(&mut kids, &mut known, &mut exhausted)?;
            }
        }
    }
    check_all(&mut kids, &mut known, &mut exhausted)?;
    o.class_if(exhausted, "all ports used");
    o.class_if(prefill.len() > 2, "registry with entries");
    Ok(())
}
fn check_all(kids: &mut [Child], known: &mut BTreeMap<u64, u16>, exhausted: &mut bool) -> Res {
    let ids: Vec<u64> = known.keys().copied().collect();
    for (n, chunk) in ids.chunks(200).enumerate() {
        let r = kids[n % 3].ask(&format!("ports {}", csv(chunk)))?;
        for (a, id) in r.split(',').zip(chunk) {
            ensure_eq!(a, known[id].to_string(), "port of bus {id} asked again");
        }
    }
    let _ = exhausted;
    Ok(())
}
// ------------------------------------------------------------------ I04
#[derive(Debug, Clone)]
enum DOp {
    Raw(Vec<u8>),
    Long(u16, u8),
    /// a datagram like a real one, but: cut/extended, other bus, own pid
    Cut(u8, u64),
    Ext(Vec<u8>, u64),
    OtherBus(u8, u64),
    OwnPid(u64),
    Emit(u64),
}
fn dop() -> BoxedStrategy<DOp> {
    let v = || prop_oneof![1 => value(), 2 => 0u64..1000];
    prop_oneof![
        3 => vec(any::<u8>(), 0..=40).prop_map(DOp::Raw),
        1 => vec(any::<u8>(), 20..=20).prop_map(DOp::Raw),
        1 => Just(DOp::Raw(vec![])),
        1 => (0u16..=65000, any::<u8>()).prop_map(|(n, b)| DOp::Long(n, b)),
        2 => (0u8..20, v()).prop_map(|(n, v)| DOp::Cut(n, v)),
        2 => (vec(any::<u8>(), 1..=20), v()).prop_map(|(e, v)| DOp::Ext(e, v)),
        2 => (0u8..64, v()).prop_map(|(b, v)| DOp::OtherBus(b, v)),
        1 => v().prop_map(DOp::OwnPid),
        4 => v().prop_map(DOp::Emit),
    ]
    .boxed()
}
fn datagrams(ops: &Vec<DOp>, o: &mut Obs) -> Res {
    with_pool(|pool| {
        let id = fresh_id();
        let dir = bus_dir(id);
        let key = format!("d{}", uniq());
        for p in 0..2 {
            ensure_eq!(pool.kids[p].ask(&format!("open {key}-0 {}", dir.display()))?, "ok", "opening the bus");
        }
        let port: u16 = pool.kids[0].ask(&format!("port {id}"))?.parse().map_err(|_| "no port")?;
        let sock = ipcbus::UdpIPC::new(port);
        let mut val = vec![vec![None; 3]; 4];
        val[0][0] = Some(0);
        val[1][0] = Some(0);
        let pid = pool.kids[1].pid();
        let me = std::process::id();
        let real = |id: u64, pid: u32, v: u64| [&id.to_ne_bytes()[..], &pid.to_ne_bytes(), &v.to_ne_bytes()].concat();
        let mut pending = 0;
        let mut kinds = 0;
        let mut next = 1u64;
        for op in ops {
            let b = match op {
                DOp::Raw(b) => b.clone(),
                DOp::Long(n, b) => vec![*b; *n as usize],
                DOp::Cut(n, v) => real(id, me, *v)[..*n as usize].to_vec(),
                DOp::Ext(e, v) => [real(id, me, *v), e.clone()].concat(),
                DOp::OtherBus(bit, v) => real(id ^ (1 << bit), me, *v),
                DOp::OwnPid(v) => real(id, pid, *v),
                DOp::Emit(v) => {
                    let v = (*v).max(val[0][0].unwrap());
                    pool.kids[0].ask(&format!("emit {key}-0 {v}"))?;
                    for p in 0..2 {
                        val[p][0] = Some(v);
                    }
                    next = next.max(v.saturating_add(1));
                    converge(pool, &key, &val).map_err(|f| Fail::from(format!("after {op:?}: {}", f.msg)))?;
                    pending = 0;
                    o.nontrivial(kinds > 0);
                    continue;
                }
            };
            if b.len() == 20 && b[..8] == id.to_ne_bytes() && b[8..12] != pid.to_ne_bytes() {
                continue;
            }
            // the first process takes its own messages for foreign ones when they carry another pid
            if let DOp::OwnPid(v) = op {
                if *v > val[0][0].unwrap() {
                    val[0][0] = None;
                }
            }
            let _ = sock.send(&b);
            kinds += 1;
            pending += b.len() + 1000;
            if pending > 60_000 || val[0][0].is_none() {
                // flush: wait until the valid value after it has arrived
                if val[0][0].is_none() {
                    let v = if let DOp::OwnPid(v) = op { *v } else { unreachable!() };
                    let end = Instant::now() + Duration::from_secs(15);
                    while pool.kids[0].ask(&format!("val {key}-0"))? != v.to_string() {
                        ensure!(Instant::now() < end, "a message of another process was not delivered");
                        std::thread::sleep(Duration::from_micros(300));
                    }
                    val[0][0] = Some(v);
                    // process 1 must not have taken it
                    converge(pool, &key, &val).map_err(|f| Fail::from(format!("after {op:?}: {}", f.msg)))?;
                    next = next.max(v);
                }
                if next == u64::MAX {
                    return Ok(());
                }
                let v = next;
                pool.kids[0].ask(&format!("emit {key}-0 {v}"))?;
                for p in 0..2 {
                    val[p][0] = Some(v);
                }
                next += 1;
                converge(pool, &key, &val).map_err(|f| Fail::from(format!("after {op:?}: {}", f.msg)))?;
                pending = 0;
                o.nontrivial(true);
            }
        }
        // still receiving
        if next < u64::MAX {
            pool.kids[0].ask(&format!("emit {key}-0 {next}"))?;
            for p in 0..2 {
                val[p][0] = Some(next);
            }
            converge(pool, &key, &val).map_err(|f| Fail::from(format!("at the end: {}", f.msg)))?;
            o.nontrivial(kinds > 0);
            // and in the other direction
            if next + 1 < u64::MAX {
                pool.kids[1].ask(&format!("emit {key}-0 {}", next + 1))?;
                for p in 0..2 {
                    val[p][0] = Some(next + 1);
                }
                converge(pool, &key, &val).map_err(|f| Fail::from(format!("at the end: {}", f.msg)))?;
            }
        }
        Ok(())
    })
}

pub fn props() -> Vec<Property> {
    let bop = || prop_oneof![4 => value().prop_map(BOp::Emit), 2 => value().prop_map(BOp::Quiet), 4 => Just(BOp::Wait), 1 => Just(BOp::Again), 1 => any::<u8>().prop_map(BOp::Drop)];
    vec![
        Property {
            id: "I01",
            rule: "a waiter was woken; or at least two threads emitted",
            assumptions: &["interleavings of threads are those the scheduler produces, not enumerated"],
            subs: vec![
                sub("sequence", 20_000, 400_000, move || vec(bop(), 1..=25), sequence),
                sub("timeouts", 60, 1_000, || vec(prop_oneof![3 => (0u8..30).prop_map(BOp::Timed), 2 => value().prop_map(BOp::Emit)], 1..=6), sequence),
                sub("threads", 600, 20_000, racing, threads).threads(2),
                sub("wake", 600, 20_000, || (1usize..=6, value(), value(), any::<bool>()), wake).threads(4),
            ],
        },
        Property {
            id: "I02",
            rule: "a value became visible in at least two processes",
            assumptions: &["all processes run on one machine with a working loopback multicast", "a value may take up to 15 s to arrive before it counts as lost", "bursts stay below the socket buffer"],
            subs: vec![sub("delivery", 800, 30_000, || (vec(pop(), 1..=12), any::<u8>()), delivery).threads(4)],
        },
        Property {
            id: "I03",
            rule: "several processes register overlapping sets of buses at the same time",
            assumptions: &["the registry is procbus.map in the temporary folder, 10 bytes per bus", "crash points are those a kill after a random delay and a truncated file produce"],
            subs: vec![sub(
                "registry",
                1_500,
                40_000,
                || {
                    let id = || prop_oneof![2 => any::<u64>(), 2 => 0u64..30, 1 => (0u32..64).prop_map(|s| 1u64 << s), 1 => Just(u64::MAX)];
                    let near = prop_oneof![2 => Just(65535u16), 2 => 0u16..40, 1 => any::<u16>()];
                    (prop_oneof![2 => Just(vec![]), 2 => vec(id(), 1..=20), 1 => vec(any::<u64>(), 100..=400)], near, vec(rop(), 1..=8), vec(id(), 1..=24))
                },
                registry,
            )
            .threads(6)],
        },
        Property {
            id: "I04",
            rule: "a malformed or foreign datagram was sent before a valid emit",
            assumptions: &["datagrams come from this machine"],
            subs: vec![sub("datagrams", 2_000, 60_000, || vec(dop(), 1..=25), datagrams).threads(4)],
        },
    ]
}
