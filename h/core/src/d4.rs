//! The store: what is saved, what is read back, and what queries return. The store runs on the
//! in-memory stand-in of LMDB (shim/lmdb-sys).
use crate::d1::{r_dec, r_inc};
use crate::d2::{ext, field_of, fidx, Mod, Op, St, FIELDS};
use crate::model::{self, Kind, H, M};
use fw::*;
use linkspace_core::env::lmdb::get::ReadTxn;
use linkspace_core::env::lmdb::BTreeEnv;
use linkspace_core::env::misc::SaveState;
use linkspace_core::env::query_mode::{Mode, Order, Table};
use linkspace_core::env::RecvPktPtr;
use linkspace_core::predicate::pkt_predicates::PktPredicates;
use linkspace_core::predicate::*;
use linkspace_core::stamp_range::StampRange;
use linkspace_pkt::{NetPkt, NetPktBox, NetPktExt, NetPktPtr, Stamp, B64};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

// ------------------------------------------------------------------ environments
static UNIQ: AtomicU64 = AtomicU64::new(0);
pub fn fresh_dir(kind: &str) -> PathBuf {
    // TMPDIR is a scratch folder, see main.rs
    std::env::temp_dir().join(format!("{kind}-{}-{}", std::process::id(), UNIQ.fetch_add(1, Ordering::Relaxed)))
}
/// An open environment costs a thread and a socket for good, so each thread keeps two handles (as
/// two processes would have) on one store, emptied for each case.
pub struct Envs {
    pub dir: PathBuf,
    pub e: [BTreeEnv; 2],
}
thread_local! { static ENVS: RefCell<Option<&'static Envs>> = const { RefCell::new(None) }; }
pub fn envs() -> &'static Envs {
    let e = ENVS.with(|c| {
        *c.borrow_mut().get_or_insert_with(|| {
            let dir = fresh_dir("env");
            let open = || BTreeEnv::open(dir.clone(), true).expect("open");
            let e = [open(), open()];
            Box::leak(Box::new(Envs { dir, e }))
        })
    });
    lmdb_sys::fault::puts_before_failure(None);
    lmdb_sys::fault::commits_before_failure(None);
    lmdb_sys::fault::clear(&e.dir);
    e
}

// ------------------------------------------------------------------ packets
/// a packet out of few values, so that packets share branches, hashes and stamps
#[derive(Clone, Debug)]
pub struct P {
    kind: u8,
    group: u8,
    domain: u8,
    space: u8,
    stamp: u8,
    data: u8,
    links: u8,
    head: u8,
}
const GROUPS: [[u8; 32]; 5] = [[0; 32], [1; 32], [2; 32], [255; 32], {
    let mut g = [1; 32];
    g[31] = 2;
    g
}];
const DOMAINS: [[u8; 16]; 5] = [[0; 16], [7; 16], *b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0a", *b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0b", [255; 16]];
pub const STAMPS: [u64; 9] = [0, 1, 2, 3, 1000, 1001, 1 << 40, u64::MAX - 1, u64::MAX];
pub fn spaces() -> &'static Vec<Vec<Vec<u8>>> {
    static S: std::sync::OnceLock<Vec<Vec<Vec<u8>>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let c = |v: &[&[u8]]| v.iter().map(|v| v.to_vec()).collect::<Vec<_>>();
        vec![
            c(&[]),
            c(&[b"a"]),
            c(&[b"b"]),
            c(&[b"ab"]),
            c(&[b"\xff"]),
            c(&[b"\0"]),
            c(&[b"a", b"a"]),
            c(&[b"a", b"b"]),
            c(&[b"b", b"a"]),
            c(&[b"a", b"ab"]),
            c(&[b"ab", b"a"]),
            c(&[b"a", b"a", b"a"]),
            c(&[b"a", b"b", b"a"]),
            c(&[b"b", b"b", b"b"]),
            c(&[b"a", b"a", b"a", b"a"]),
            c(&[b"a", b"a", b"a", b"a", b"a", b"a", b"a"]),
            c(&[b"a", b"a", b"a", b"a", b"a", b"a", b"a", b"a"]),
            c(&[b"\xff", b"\xff", b"\xff", b"\xff", b"\xff", b"\xff", b"\xff", b"\xff"]),
            vec![vec![b'x'; 200], vec![b'y'; 40]],
        ]
    })
}
impl P {
    pub fn m(&self) -> M {
        let kind = match self.kind {
            0 => Kind::Data,
            1 => Kind::Error,
            2..=4 => Kind::Link,
            k => Kind::Key(k % 3),
        };
        let h = self.head as u32;
        model::norm(M {
            kind,
            h: H { prefix: *b"LK1", flags: self.head % 2, hop: h, stamp: h as u64, ubits: [h, 0, 0, h] },
            group: GROUPS[self.group as usize % 5],
            domain: DOMAINS[self.domain as usize % 5],
            stamp: STAMPS[self.stamp as usize % 9],
            comps: spaces()[self.space as usize % spaces().len()].clone(),
            links: (0..self.links).map(|i| ([i; 16], [self.data; 32])).collect(),
            data: vec![self.data; self.data as usize % 19],
        })
    }
}
/// packets of a case: few groups, domains, spaces at a time
pub fn pool(max: usize) -> BoxedStrategy<Vec<P>> {
    let one = |narrow: bool| {
        let (g, d, s, t) = if narrow { (2u8, 2u8, 6u8, 9u8) } else { (5, 5, 19, 9) };
        (0u8..8, 0..g, 0..d, prop_oneof![4 => 0..s, 1 => 0u8..19], 0..t, 0u8..40, 0u8..3, 0u8..3)
            .prop_map(|(kind, group, domain, space, stamp, data, links, head)| P { kind, group, domain, space, stamp, data, links, head })
    };
    // one branch, full of stamps
    let branch = (2u8..8, 0u8..5, 0u8..19).prop_flat_map(move |(k, g, s)| {
        vec((0u8..2, 0u8..9, 0u8..6, 0u8..3, 0u8..3), 2..12).prop_map(move |v| {
            v.into_iter().map(|(domain, stamp, data, links, head)| P { kind: k, group: g, domain, space: s, stamp, data, links, head }).collect::<Vec<_>>()
        })
    });
    prop_oneof![
        3 => vec(one(true), 0..max),
        1 => vec(one(false), 0..max),
        1 => (branch.clone(), vec(one(true), 0..4)).prop_map(|(mut a, b)| { a.extend(b); a }),
        1 => (branch.clone(), branch).prop_map(|(mut a, b)| { a.extend(b); a }),
    ]
    .boxed()
}
/// A packet as the model holds it
pub struct Pk {
    pub m: M,
    pub wire: Vec<u8>,
    pub hash: [u8; 32],
    pub built: NetPktBox,
}
impl Pk {
    pub fn ptr(&self) -> &NetPktPtr {
        &self.built
    }
}
pub fn build(ps: &[P]) -> Vec<Pk> {
    ps.iter()
        .map(|p| {
            let m = p.m();
            let wire = m.wire();
            let built = m.with(|n| n.as_netbox()).expect("a small packet");
            Pk { hash: wire[32..64].try_into().unwrap(), wire, built, m }
        })
        .collect()
}
// ------------------------------------------------------------------ the model of a store
/// (log stamp, packet) in log order
#[derive(Clone, Default)]
pub struct Db {
    pub log: Vec<(u64, usize)>,
    pub by_hash: HashMap<[u8; 32], usize>,
}
impl Db {
    /// a save of packets; returns for each pending one whether it is new
    pub fn save(&mut self, pks: &[Pk], batch: &[(usize, bool)], start: u64) -> Vec<Option<bool>> {
        let mut at = start;
        batch
            .iter()
            .map(|(i, pending)| {
                if !pending {
                    return None;
                }
                let new = !self.by_hash.contains_key(&pks[*i].hash);
                if new {
                    self.by_hash.insert(pks[*i].hash, self.log.len());
                    self.log.push((at, *i));
                    at += 1;
                }
                Some(new)
            })
            .collect()
    }
    pub fn last(&self) -> u64 {
        self.log.last().map_or(0, |l| l.0)
    }
}
/// the packet a reader returned is entry `e` of the log
fn same(what: &str, got: &NetPktPtr, pks: &[Pk], e: (u64, usize)) -> Res {
    let want = &pks[e.1];
    let s = got.byte_segments();
    let b = s.to_bytes();
    ensure!(b[..] == want.wire[..], "{what}: got {}, expected packet {:?}", hex(&b), want.m);
    ensure_eq!(got.hash().0, want.hash, "{what}: hash");
    Ok(())
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
fn same_list<'a>(what: &str, got: impl Iterator<Item = RecvPktPtr<'a>>, pks: &[Pk], want: &[(u64, usize)]) -> Res {
    let got: Vec<RecvPktPtr> = got.take(want.len() + 3).collect();
    let gs: Vec<u64> = got.iter().map(|g| g.recv.get()).collect();
    let ws: Vec<u64> = want.iter().map(|w| w.0).collect();
    ensure_eq!(gs, ws, "{what}: log stamps");
    for (g, w) in got.iter().zip(want) {
        same(what, g.pkt, pks, *w)?;
        ensure_eq!(g.get_recv().get(), w.0, "{what}: recv");
    }
    Ok(())
}
fn ptr_list<'a>(what: &str, got: impl Iterator<Item = &'a NetPktPtr>, pks: &[Pk], want: &[(u64, usize)]) -> Res {
    let got: Vec<&NetPktPtr> = got.take(want.len() + 3).collect();
    ensure_eq!(got.len(), want.len(), "{what}: count");
    for (g, w) in got.iter().zip(want) {
        same(what, g, pks, *w)?;
    }
    Ok(())
}
/// the tree order of linked packets
fn branch(m: &M) -> (Vec<u8>, Vec<u8>, u8, Vec<u8>, Vec<u8>) {
    let k = match m.kind {
        Kind::Key(k) => model::pubkey(k).to_vec(),
        _ => vec![0; 32],
    };
    (m.group.to_vec(), m.domain.to_vec(), m.comps.len() as u8, model::space_bytes(&m.comps), k)
}
/// the whole store: log, hashes, tree
fn check_all(what: &str, t: &ReadTxn, pks: &[Pk], db: &Db) -> Res {
    same_list(&format!("{what}: log"), t.local_pkt_log(Stamp::ZERO), pks, &db.log)?;
    ensure_eq!(t.log_head().get(), db.last(), "{what}: log head");
    for (i, p) in pks.iter().enumerate() {
        let h = B64(p.hash);
        let want = db.by_hash.get(&p.hash).map(|e| db.log[*e]);
        match (t.read(&h), want) {
            (Ok(None), None) => {}
            (Ok(Some(g)), Some(w)) => {
                same(&format!("{what}: read"), g.pkt, pks, w)?;
                ensure_eq!(g.recv.get(), w.0, "{what}: read: recv");
            }
            (g, w) => ensure!(false, "{what}: packet {i} reads {:?}, expected {w:?}", g.map(|g| g.map(|g| g.recv))),
        }
        let ptr = t.read_ptr(&h);
        ensure!(matches!(&ptr, Ok(s) if s.map(|s| s.get()) == want.map(|w| w.0)), "{what}: read_ptr {ptr:?}, expected {want:?}");
    }
    let all = PktPredicates::DEFAULT;
    let mut tree: Vec<(u64, usize)> = db.log.iter().filter(|e| pks[e.1].m.is_linked()).copied().collect();
    tree.sort_by_key(|e| (branch(&pks[e.1].m), pks[e.1].m.stamp, pks[e.1].hash));
    let mut n = 0;
    same_list(&format!("{what}: tree"), t.query(Mode { table: Table::Tree, order: Order::Asc }, &all, &mut n).map_err(|e| fail_sig("query", format!("{what}: {e}")))?, pks, &tree)?;
    let mut hashes = db.log.clone();
    hashes.sort_by_key(|e| pks[e.1].hash);
    let mut n = 0;
    same_list(&format!("{what}: hashes"), t.query(Mode::HASH_ASC, &all, &mut n).map_err(|e| fail_sig("query", format!("{what}: {e}")))?, pks, &hashes)?;
    Ok(())
}
// ------------------------------------------------------------------ save histories
#[derive(Clone, Copy, Debug)]
enum Clock {
    /// as before
    Same,
    On(u32),
    Back(u32),
    /// relative to the end of the log
    Log(i8),
}
fn clock() -> BoxedStrategy<Clock> {
    prop_oneof![
        2 => Just(Clock::Same),
        2 => (0u32..12).prop_map(Clock::On),
        1 => (0u32..3_000_000).prop_map(Clock::On),
        1 => (0u32..900_000).prop_map(Clock::Back),
        4 => (-3i8..4).prop_map(Clock::Log),
    ]
    .boxed()
}
#[derive(Clone, Debug)]
enum Step {
    /// handle, packets with their initial state, form of call, failing put / commit, and the clock
    Save(u8, Vec<(u8, u8)>, u8, Option<(u8, bool)>, Clock),
    Snap(u8),
    Look(u8),
    Refresh(u8),
    Drop(u8),
}
fn state(i: u8) -> SaveState {
    match i {
        0 => SaveState::Exists,
        1 => SaveState::Written,
        2 => SaveState::Error,
        _ => SaveState::Pending,
    }
}
fn steps(faults: bool, max: usize) -> BoxedStrategy<Vec<Step>> {
    let fault = if faults { prop_oneof![1 => Just(None), 2 => (0u8..24, any::<bool>()).prop_map(Some)].boxed() } else { Just(None).boxed() };
    let st = prop_oneof![9 => Just(3u8), 1 => 0u8..3];
    let save = (0u8..2, prop_oneof![5 => vec((any::<u8>(), st.clone()), 0..8), 1 => vec((any::<u8>(), st), 1)], 0u8..6, fault, clock()).prop_map(|(h, b, f, x, c)| Step::Save(h, b, f, x, c));
    vec(
        prop_oneof![
            6 => save,
            2 => (0u8..2).prop_map(Step::Snap),
            2 => any::<u8>().prop_map(Step::Look),
            1 => any::<u8>().prop_map(Step::Refresh),
            1 => any::<u8>().prop_map(Step::Drop),
        ],
        1..max,
    )
    .boxed()
}
type Snap = (ReadTxn<'static>, Db);
fn history((ps, steps): &(Vec<P>, Vec<Step>), o: &mut Obs) -> Res {
    let pks = build(ps);
    let en = envs();
    let mut db = Db::default();
    let mut snaps: Vec<Snap> = vec![];
    let mut failed = false;
    let base = crate::clock::start();
    let mut time = base;
    let mut tight = false;
    for s in steps {
        match s {
            Step::Snap(h) => {
                let t = en.e[*h as usize % 2].new_read_txn().map_err(|e| fail_sig("txn", e.to_string()))?;
                snaps.push((t, db.clone()));
                o.class("snapshot");
            }
            Step::Look(i) if !snaps.is_empty() => {
                let n = snaps.len();
                let (t, d) = &snaps[*i as usize % n];
                check_all("snapshot", t, &pks, d)?;
                o.class_if(d.log.len() < db.log.len(), "a snapshot older than the store");
            }
            Step::Refresh(i) if !snaps.is_empty() => {
                let n = snaps.len();
                let (t, d) = &mut snaps[*i as usize % n];
                t.refresh();
                *d = db.clone();
                check_all("refreshed snapshot", t, &pks, d)?;
            }
            Step::Drop(i) if !snaps.is_empty() => {
                let n = snaps.len();
                snaps.swap_remove(*i as usize % n);
            }
            Step::Save(h, b, form, fault, c) if !pks.is_empty() => {
                let env = &en.e[*h as usize % 2];
                let mut batch: Vec<(usize, u8)> = b.iter().map(|(i, s)| (*i as usize % pks.len(), *s)).collect();
                match form % 6 {
                    2 | 3 => {
                        batch.truncate(1);
                        batch.iter_mut().for_each(|b| b.1 = 3);
                        if batch.is_empty() {
                            continue;
                        }
                    }
                    4 | 5 => batch.iter_mut().for_each(|b| b.1 = 3),
                    _ => {}
                }
                time = match c {
                    Clock::Same => time,
                    Clock::On(n) => time + *n as u64,
                    Clock::Back(n) => base.max(time.saturating_sub(*n as u64)),
                    Clock::Log(n) => base.max(db.last().saturating_add_signed(*n as i64)),
                };
                crate::clock::set(time);
                let bus_before = env.0.log_head.val();
                if let Some((n, commit)) = fault {
                    // the errors LMDB reports when the disk or the map is full
                    if *commit {
                        lmdb_sys::fault::commits_before_failure(Some((0, libc::ENOSPC)));
                    } else {
                        lmdb_sys::fault::puts_before_failure(Some((*n as u32, lmdb_sys::MDB_MAP_FULL)));
                    }
                }
                let run = |batch: &[(usize, u8)]| -> (std::io::Result<std::ops::Range<u64>>, Vec<SaveState>) {
                    match form % 6 {
                        0 => {
                            let mut v: Vec<(&NetPktPtr, SaveState)> = batch.iter().map(|(i, s)| (pks[*i].ptr(), state(*s))).collect();
                            (env.save_ptr(&mut v), v.iter().map(|v| v.1).collect())
                        }
                        1 => {
                            let mut v: Vec<(&dyn NetPkt, SaveState)> = batch.iter().map(|(i, s)| (&pks[*i].built as &dyn NetPkt, state(*s))).collect();
                            (env.save_dyn(&mut v), v.iter().map(|v| v.1).collect())
                        }
                        2 => match env.save_ptr_one(&pks[batch[0].0].built) {
                            Ok(s) => (Ok(0..0), vec![s]),
                            Err(e) => (Err(e), vec![]),
                        },
                        3 => match pks[batch[0].0].m.with(|n| env.save_dyn_one(&n)).expect("fits") {
                            Ok(s) => (Ok(0..0), vec![s]),
                            Err(e) => (Err(e), vec![]),
                        },
                        4 => (env.save_ptr_iter(batch.iter().map(|b| pks[b.0].ptr())), vec![]),
                        _ => (env.save_dyn_iter(batch.iter().map(|b| &pks[b.0].built as &dyn NetPkt)), vec![]),
                    }
                };
                let (r, states) = run(&batch);
                lmdb_sys::fault::puts_before_failure(None);
                lmdb_sys::fault::commits_before_failure(None);
                let t = env.new_read_txn().map_err(|e| fail_sig("txn", e.to_string()))?;
                let pend: Vec<(usize, bool)> = batch.iter().map(|b| (b.0, b.1 == 3)).collect();
                let Ok(range) = r else {
                    ensure!(fault.is_some(), "a save failed: {r:?}");
                    check_all("after a failed save", &t, &pks, &db)?;
                    if !states.is_empty() {
                        for (s, b) in states.iter().zip(&batch) {
                            let stored = db.by_hash.contains_key(&pks[b.0].hash);
                            ensure!(b.1 != 3 || stored || !matches!(s, SaveState::Written | SaveState::Exists), "the failed save reports {s:?} for a packet that is not stored");
                        }
                    }
                    ensure_eq!(env.0.log_head.val(), bus_before, "a failed save announces a log head");
                    failed = true;
                    continue;
                };
                // find where the new entries start
                let old = db.log.len();
                let last = db.last();
                let got: Vec<u64> = t.local_pkt_log(Stamp::new(last.saturating_add(1))).map(|p| p.recv.get()).collect();
                let start = got.first().copied().unwrap_or(0);
                let new = db.save(&pks, &pend, start);
                let n = db.log.len() - old;
                check_all("after a save", &t, &pks, &db)?;
                if n > 0 {
                    ensure_eq!(start, time.max(last + 1), "saved at {time} behind {last}: the first log stamp");
                    tight |= last > 0 && start == last + 1;
                    ensure_eq!(env.0.log_head.val(), start + n as u64 - 1, "the announced log head");
                }
                if !matches!(form % 6, 2 | 3) {
                    ensure_eq!(range.end - range.start, n as u64, "the returned range");
                    if n > 0 {
                        ensure_eq!(range.start, start, "the start of the returned range");
                    }
                }
                for (k, s) in states.iter().enumerate() {
                    let want = match new[k] {
                        None => state(batch[k].1),
                        Some(true) => SaveState::Written,
                        Some(false) => SaveState::Exists,
                    };
                    ensure_eq!(*s, want, "state of packet {k} of the batch");
                    ensure_eq!(s.is_written(), want == SaveState::Written, "is_written");
                }
                o.class_if(n > 1, "several packets in one save");
                o.class_if(new.iter().any(|n| *n == Some(false)), "a packet saved again");
                o.class_if(failed && n > 0, "saved after a failure");
                o.class_if(tight, "no gap between two saves");
                o.class_if(n > 0 && last > time, "the clock is behind the log");
            }
            _ => {}
        }
    }
    for e in &en.e {
        let t = e.new_read_txn().map_err(|e| fail_sig("txn", e.to_string()))?;
        check_all("at the end", &t, &pks, &db)?;
        let i = e.db_info();
        ensure_eq!(i.pktlog.ms_entries, db.log.len(), "log entries");
        ensure_eq!(i.hash.ms_entries, db.log.len(), "hash entries");
        let r = e.linkspace_info();
        ensure!(r.is_ok(), "linkspace_info on a sound store: {r:?}");
    }
    o.nontrivial(db.log.len() > 1 && (failed || !steps.iter().any(|s| matches!(s, Step::Save(_, _, _, Some(_), _)))));
    Ok(())
}
// ------------------------------------------------------------------ queries
/// a statement, resolved against the packets of the store
#[derive(Clone, Debug)]
pub struct Q {
    what: u8,
    op: u8,
    base: u8,
    tweak: u8,
    r: u8,
}
const WHAT: [&str; 24] = [
    "group", "domain", "pubkey", "create", "create", "depth", "recv", "recv", "hash", "data_size", "links_len", "hop", "type", "netflags", "size", "prefix", "prefix", "space", "i", "i_db", "i_branch", "i_branch", "stamp", "i_new",
];
pub fn qs(max: usize) -> BoxedStrategy<Vec<Q>> {
    vec((0u8..24, 0u8..10, any::<u8>(), 0u8..6, any::<u8>()).prop_map(|(what, op, base, tweak, r)| Q { what, op, base, tweak, r }), 0..max).boxed()
}
impl Q {
    pub fn st(&self, pks: &[Pk], db: &Db) -> St {
        let name = WHAT[self.what as usize % 24];
        let eq = Op::T(TestOp::Equal);
        // the value to stay near: mostly of a packet in the store
        let e = (!db.log.is_empty()).then(|| db.log[self.base as usize % db.log.len()]);
        let comps = || match (e, self.tweak) {
            (Some(e), 0..=4) => pks[e.1].m.comps.clone(),
            _ => spaces()[self.r as usize % spaces().len()].clone(),
        };
        match name {
            "prefix" => {
                let c = comps();
                let n = if self.op < 5 { c.len() } else { self.r as usize % (c.len() + 1) };
                return St::Prefix(eq, c[..n].to_vec());
            }
            "space" => return St::Space(eq, comps()),
            _ => {}
        }
        let i = fidx(name);
        let n = FIELDS[i].1;
        let b: Vec<u8> = match name {
            "i" | "i_db" | "i_branch" | "i_new" => vec![0, 0, 0, self.r % 6],
            "recv" => match (e, self.r) {
                (_, 0..=9) | (None, _) => [0, 1, u64::MAX, 1 << 50][self.base as usize % 4].to_be_bytes().to_vec(),
                (Some(e), _) => e.0.to_be_bytes().to_vec(),
            },
            _ => e.and_then(|e| field_of(&pks[e.1].m, &pks[e.1].hash, name)).unwrap_or_else(|| vec![self.r; n]),
        };
        let op = match (name, self.op) {
            ("hash" | "pubkey", 6..) => eq,
            ("recv", o) => [eq, Op::T(TestOp::Less), Op::T(TestOp::Greater), Op::Ge, Op::Le][o as usize % 5],
            (_, 0 | 1) => eq,
            (_, 2 | 3) => Op::T(TestOp::Less),
            (_, 4 | 5) => Op::T(TestOp::Greater),
            (_, 6) => Op::Ge,
            (_, 7) => Op::Le,
            (_, 8) => Op::T(TestOp::Mask0),
            _ => Op::T(TestOp::Mask1),
        };
        let up = r_inc(&b).unwrap_or(b.clone());
        let down = r_dec(&b).unwrap_or(b.clone());
        let v = match (self.tweak, op) {
            (0, _) => up,
            (1, _) => down,
            (_, Op::T(TestOp::Less)) => up,
            (_, Op::T(TestOp::Greater)) => down,
            (2, Op::T(TestOp::Mask0)) => vec![255 - (1 << (self.r % 8)); n],
            (2, Op::T(TestOp::Mask1)) => {
                let mut v = vec![0; n];
                v[n - 1] = 1 << (self.r % 3);
                v
            }
            _ => b,
        };
        St::Num(i, op, v)
    }
}
/// the predicates that are accepted one after the other
pub fn preds(sts: impl Iterator<Item = St>) -> Result<(PktPredicates, Mod), Fail> {
    let mut p = PktPredicates::DEFAULT;
    let mut m = Mod::default();
    for s in sts {
        let mut m2 = m.clone();
        if !m2.add(&s) || !m2.valid() || m2.loose != 0 {
            continue;
        }
        m = m2;
        ensure!(p.add_ext_predicate(ext(&s)).is_ok(), "{s:?} is refused");
    }
    Ok((p, m))
}
fn nth(m: &Mod, f: &str, n: u64) -> bool {
    m.f[fidx(f)].test(&(n as u32).to_be_bytes())
}
fn accept(m: &Mod, pk: &Pk, recv: u64) -> bool {
    m.accepts(&pk.m, &pk.hash) && m.f[fidx("recv")].test(&recv.to_be_bytes())
}
/// accepted by what the index knows about a packet
fn index_accept(m: &Mod, pk: &Pk, recv: u64) -> bool {
    pk.m.is_linked()
        && ["group", "domain", "pubkey", "depth", "create", "hash", "data_size", "links_len"].iter().all(|f| {
            let r = &m.f[fidx(f)];
            r.stmts.is_empty() || r.test(&field_of(&pk.m, &pk.hash, f).unwrap())
        })
        && pk.m.comps.starts_with(&m.pre)
        && m.f[fidx("recv")].test(&recv.to_be_bytes())
}
pub fn modes() -> [Mode; 6] {
    let m = |table, order| Mode { table, order };
    [m(Table::Tree, Order::Desc), m(Table::Tree, Order::Asc), m(Table::Log, Order::Desc), m(Table::Log, Order::Asc), m(Table::Hash, Order::Asc), m(Table::Hash, Order::Desc)]
}
/// What a query returns: in the order of the table, filtered, and counted.
/// The second number is how often `i` was counted.
pub fn answer(m: &Mod, mode: Mode, pks: &[Pk], db: &Db, nth0: u64) -> (Vec<(u64, usize)>, u64) {
    let asc = mode.order == Order::Asc;
    let mut l: Vec<(u64, usize)> = db.log.clone();
    match mode.table {
        Table::Log => {
            if !asc {
                l.reverse()
            }
        }
        Table::Hash => {
            l.sort_by_key(|e| pks[e.1].hash);
            if !asc {
                l.reverse()
            }
        }
        Table::Tree => {
            l.retain(|e| index_accept(m, &pks[e.1], e.0));
            l.sort_by(|a, b| {
                let (x, y) = (&pks[a.1], &pks[b.1]);
                let key = branch(&x.m).cmp(&branch(&y.m));
                let val = (x.m.stamp, x.hash).cmp(&(y.m.stamp, y.hash));
                key.then(if asc { val } else { val.reverse() })
            });
            let mut last = None;
            let mut n = 0;
            l.retain(|e| {
                let b = branch(&pks[e.1].m);
                if last.as_ref() != Some(&b) {
                    last = Some(b);
                    n = 0;
                }
                n += 1;
                nth(m, "i_branch", n - 1)
            });
        }
    }
    l.retain(|e| accept(m, &pks[e.1], e.0));
    let mut n = 0;
    l.retain(|_| {
        n += 1;
        nth(m, "i_db", n - 1)
    });
    let mut n = nth0;
    l.retain(|_| {
        n += 1;
        nth(m, "i", n - 1)
    });
    (l, n)
}
type QCase = (Vec<P>, Vec<u8>, Vec<(Vec<Q>, u8, u8, u8)>);
pub fn fill(ps: &[P], cuts: &[u8]) -> Result<(Vec<Pk>, Db, &'static Envs), Fail> {
    let pks = build(ps);
    let en = envs();
    crate::clock::start();
    let mut db = Db::default();
    let mut at: usize = 0;
    for (i, c) in cuts.iter().map(|c| *c as usize).chain([usize::MAX]).enumerate() {
        let end = at.saturating_add(c).min(pks.len());
        let mut v: Vec<(&NetPktPtr, SaveState)> = (at..end).map(|i| (pks[i].ptr(), SaveState::Pending)).collect();
        let r = en.e[i % 2].save_ptr(&mut v).map_err(|e| fail_sig("save", e.to_string()))?;
        db.save(&pks, &(at..end).map(|i| (i, true)).collect::<Vec<_>>(), r.start);
        at = end;
        crate::clock::set(r.end + i as u64 % 3 * 5);
    }
    Ok((pks, db, en))
}
fn queries(tables: &'static [usize]) -> impl Fn(&QCase, &mut Obs) -> Res {
    move |(ps, cuts, qs): &QCase, o: &mut Obs| {
        let (pks, db, en) = fill(ps, cuts)?;
        let t = en.e[0].new_read_txn().map_err(|e| fail_sig("txn", e.to_string()))?;
        for (q, mode, start, take) in qs {
            let (p, m) = preds(q.iter().map(|q| q.st(&pks, &db)))?;
            let mode = modes()[tables[*mode as usize % tables.len()]];
            let nth0 = if *start < 250 { 0 } else { *start as u64 - 250 };
            let (want, counted) = answer(&m, mode, &pks, &db, nth0);
            let what = format!("{mode} query {:?}", p.to_str(true));
            let mut n = nth0 as u32;
            let it = t.query(mode, &p, &mut n).map_err(|e| fail_sig("query", format!("{what}: {e}")))?;
            if *take < 200 {
                same_list(&what, it, &pks, &want)?;
                // counting goes on exactly until nothing more can match
                let more = (counted.saturating_sub(1)..counted).any(|n| m.f[fidx("i")].least(&(n as u32).to_be_bytes()).is_some());
                if more || counted == nth0 {
                    ensure_eq!(n as u64, counted, "{what}: packets counted from {nth0}");
                } else {
                    ensure!(n as u64 >= nth0 && n as u64 <= counted, "{what}: counted {n} of {counted}");
                }
            } else {
                let k = (*take as usize - 200) % (want.len() + 1);
                same_list(&what, it.take(k), &pks, &want[..k])?;
            }
            o.nontrivial(!want.is_empty() && q.len() > 0);
            o.class_if(want.len() > 1, "more than one result");
            o.class_if(!want.is_empty() && want.len() < db.log.len(), "a proper part of the store");
            o.class_if(want.is_empty() && !db.log.is_empty(), "nothing found");
            let lim = |f| !m.f[fidx(f)].stmts.is_empty();
            o.class_if(lim("i_branch") && !want.is_empty(), "limited per branch");
            o.class_if((lim("i_db") || lim("i")) && !want.is_empty(), "limited");
            o.class_if(lim("create") && !want.is_empty(), "bounded create");
            o.class_if(lim("recv") && !want.is_empty(), "bounded recv");
            o.class_if(!m.pre.is_empty() && !want.is_empty(), "below a prefix");
        }
        Ok(())
    }
}
fn qcase(max: usize, q: usize) -> BoxedStrategy<QCase> {
    (pool(max), vec(0u8..8, 0..3), vec((prop_oneof![6 => qs(q), 1 => qs(1)], any::<u8>(), any::<u8>(), any::<u8>()), 1..6)).boxed()
}
// ------------------------------------------------------------------ reads
#[derive(Clone, Debug)]
struct At(u8, i8, u8);
impl At {
    fn stamp(&self, db: &Db) -> u64 {
        match self.2 {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => u64::MAX - 1,
            _ if db.log.is_empty() => self.0 as u64,
            _ => {
                let e = db.log[self.0 as usize % db.log.len()].0;
                e.wrapping_add_signed(self.1 as i64)
            }
        }
    }
}
fn at() -> BoxedStrategy<At> {
    (any::<u8>(), prop_oneof![3 => Just(0i8), 3 => -2i8..3, 1 => any::<i8>()], prop_oneof![8 => Just(9u8), 2 => 0u8..4]).prop_map(|(a, b, c)| At(a, b, c)).boxed()
}
fn reads((ps, cuts, ats, idx): &(Vec<P>, Vec<u8>, Vec<(At, At)>, Vec<u8>), o: &mut Obs) -> Res {
    let (pks, db, en) = fill(ps, cuts)?;
    let t = en.e[0].new_read_txn().map_err(|e| fail_sig("txn", e.to_string()))?;
    check_all("filled", &t, &pks, &db)?;
    for (a, b) in ats {
        let (a, b) = (a.stamp(&db), b.stamp(&db));
        let from: Vec<_> = db.log.iter().filter(|e| e.0 >= a).copied().collect();
        same_list(&format!("local_pkt_log({a})"), t.local_pkt_log(Stamp::new(a)), &pks, &from)?;
        let after: Vec<_> = db.log.iter().filter(|e| e.0 > a).copied().collect();
        same_list(&format!("pkts_after({a})"), t.pkts_after(Stamp::new(a)), &pks, &after)?;
        let mut range: Vec<_> = db.log.iter().filter(|e| e.0 >= a.min(b) && e.0 <= a.max(b)).copied().collect();
        if a > b {
            range.reverse()
        }
        same_list(&format!("log_range({a}..{b})"), t.log_range(StampRange::new_u64s(a, b)), &pks, &range)?;
        o.class_if(a > b && !range.is_empty(), "backwards");
        o.class_if(!range.is_empty() && range.len() < db.log.len(), "a part of the log");
        o.nontrivial(!range.is_empty());
    }
    // by hash and by stamp, with absent ones and repetitions
    let mut hs = vec![];
    let mut ss = vec![];
    let (mut wh, mut ws) = (vec![], vec![]);
    for i in idx {
        let i = *i as usize;
        if pks.is_empty() || i % 5 == 0 {
            hs.push(B64([i as u8; 32]));
        } else {
            let p = &pks[i % pks.len()];
            hs.push(B64(p.hash));
            wh.extend(db.by_hash.get(&p.hash).map(|e| db.log[*e]));
        }
        let s = match db.log.get(i % (db.log.len() + 1)) {
            Some(e) if i % 7 > 0 => e.0,
            _ => db.last() + i as u64,
        };
        ss.push(Stamp::new(s));
        ws.extend(db.log.iter().find(|e| e.0 == s));
    }
    ptr_list("get_pkts_by_hash", t.get_pkts_by_hash(hs.into_iter()), &pks, &wh)?;
    ptr_list("get_pkts_by_logidx", t.get_pkts_by_logidx(ss.into_iter()), &pks, &ws)?;
    Ok(())
}

pub fn props() -> Vec<Property> {
    let assume: &[&str] = &["the store is the in-memory stand-in of LMDB"];
    let _ = assume;
    vec![
        Property {
            id: "D07",
            rule: "the store holds more than one packet",
            assumptions: &["the in-memory stand-in behaves as LMDB does"],
            subs: vec![
                sub("history", 4_000, 60_000, || (pool(14), steps(false, 14)), history),
            ],
        },
        Property {
            id: "D08",
            rule: "a save failed and the store holds more than one packet",
            assumptions: &["the in-memory stand-in behaves as LMDB does"],
            subs: vec![sub("faults", 4_000, 60_000, || (pool(14), steps(true, 14)), history)],
        },
        Property {
            id: "D09",
            rule: "a range of the log holds a packet",
            assumptions: &["the in-memory stand-in behaves as LMDB does"],
            subs: vec![sub("reads", 6_000, 100_000, || (pool(14), vec(0u8..8, 0..3), vec((at(), at()), 1..6), vec(any::<u8>(), 0..12)), reads)],
        },
        Property {
            id: "D10",
            rule: "a query with a statement finds something",
            assumptions: &["the in-memory stand-in behaves as LMDB does"],
            subs: vec![sub("tree", 20_000, 300_000, || qcase(24, 6), queries(&[0, 1]))],
        },
        Property {
            id: "D11",
            rule: "a query with a statement finds something",
            assumptions: &["the in-memory stand-in behaves as LMDB does"],
            subs: vec![sub("log", 10_000, 200_000, || qcase(18, 5), queries(&[2, 3]))],
        },
        Property {
            id: "D12",
            rule: "a query with a statement finds something",
            assumptions: &["the in-memory stand-in behaves as LMDB does"],
            subs: vec![sub("hash", 10_000, 200_000, || qcase(18, 5), queries(&[4, 5]))],
        },
    ]
}
