//! Opening a store again and again, and using it from several threads.
use crate::d4::{build, fresh_dir, hex, pool, Pk, P};
use crate::model::ref_read;
use fw::*;
use linkspace_core::env::lmdb::{check_path, BTreeEnv};
use linkspace_core::env::misc::SaveState;
use linkspace_core::LNS_ROOTS;
use linkspace_pkt::{NetPkt, NetPktPtr, Stamp, B64, PUBLIC_GROUP_PKT};
use proptest::collection::vec;
use proptest::prelude::*;
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

fn bytes(p: &NetPktPtr) -> Vec<u8> {
    p.byte_segments().to_bytes().to_vec()
}
/// the packets a new store starts with
fn initial() -> (Vec<u8>, Vec<Vec<u8>>) {
    let roots: Vec<Vec<u8>> = LNS_ROOTS.iter().map(bytes).collect();
    (bytes(&PUBLIC_GROUP_PKT), roots)
}
#[derive(Clone, Debug)]
enum Open {
    Empty,
    NoLns,
    Full,
}
#[derive(Clone, Debug)]
struct Session {
    open: Open,
    make_dir: bool,
    /// by which path, and a commit or put that fails while opening
    via: u8,
    fault: Option<(u8, bool)>,
    batches: Vec<(Vec<u8>, Option<u8>)>,
}
fn session() -> impl Strategy<Value = Session> {
    (
        prop_oneof![2 => Just(Open::Empty), 2 => Just(Open::NoLns), 4 => Just(Open::Full)],
        any::<bool>(),
        0u8..4,
        prop_oneof![1 => Just(None), 2 => (0u8..6, any::<bool>()).prop_map(Some)],
        vec((vec(any::<u8>(), 0..5), prop_oneof![4 => Just(None), 1 => (0u8..6).prop_map(Some)]), 0..4),
    )
        .prop_map(|(open, make_dir, via, fault, batches)| Session { open, make_dir, via, fault, batches })
}
fn sessions((ps, ses): &(Vec<P>, Vec<Session>), o: &mut Obs) -> Res {
    let pks = build(ps);
    let dir = fresh_dir("reopen");
    let r = sessions_in(&dir, &pks, ses, o);
    std::env::set_var("LK_FORCE_EMPTY", "1");
    std::env::remove_var("LK_NO_LNS");
    lmdb_sys::fault::puts_before_failure(None);
    lmdb_sys::fault::commits_before_failure(None);
    lmdb_sys::fault::forget(&dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
/// a packet is known by its hash, whatever its mutable header
fn has(log: &[Vec<u8>], hash: &[u8]) -> bool {
    log.iter().any(|w| w[32..64] == *hash)
}
fn holds(env: &BTreeEnv, log: &[Vec<u8>], absent: &[Pk]) -> Res {
    let t = env.new_read_txn().map_err(|e| fail_sig("txn", e.to_string()))?;
    let got: Vec<(u64, Vec<u8>)> = t.local_pkt_log(Stamp::ZERO).map(|p| (p.recv.get(), bytes(p.pkt))).collect();
    ensure_eq!(got.len(), log.len(), "packets in the store");
    for (i, ((s, g), w)) in got.iter().zip(log).enumerate() {
        ensure!(g == w, "packet {i} of the log is {}, expected {}", hex(g), hex(w));
        let h = B64::try_from(&w[32..64]).map_err(|_| fail_sig("hash", String::new()))?;
        let r = t.read(&h);
        ensure!(matches!(&r, Ok(Some(r)) if r.recv.get() == *s && bytes(r.pkt) == *w), "packet {i} of the log is not read by its hash");
    }
    ensure!(got.windows(2).all(|w| w[0].0 < w[1].0), "log stamps: {:?}", got.iter().map(|g| g.0).collect::<Vec<_>>());
    for p in absent {
        let r = t.read_ptr(&B64(p.hash));
        ensure_eq!(matches!(r, Ok(Some(_))), has(log, &p.hash), "stored: {:?}", p.m);
    }
    Ok(())
}
fn sessions_in(dir: &Path, pks: &[Pk], ses: &[Session], o: &mut Obs) -> Res {
    let (public, roots) = initial();
    let mut log: Vec<Vec<u8>> = vec![];
    let mut id: Option<Vec<u8>> = None;
    let mut keep: Vec<BTreeEnv> = vec![];
    for (n, s) in ses.iter().enumerate() {
        let exists = dir.exists();
        let path: PathBuf = match s.via {
            0 if exists => dir.join("."),
            1 if exists => dir.join("..").join(dir.file_name().unwrap()),
            2 if exists => {
                let l = dir.with_extension(format!("link{n}"));
                std::os::unix::fs::symlink(dir, &l).map_err(|e| fail_sig("symlink", e.to_string()))?;
                l
            }
            _ => dir.to_path_buf(),
        };
        std::env::remove_var("LK_FORCE_EMPTY");
        std::env::remove_var("LK_NO_LNS");
        match s.open {
            Open::Empty => std::env::set_var("LK_FORCE_EMPTY", "1"),
            Open::NoLns => std::env::set_var("LK_NO_LNS", "1"),
            Open::Full => {}
        }
        let mut want = log.clone();
        let first = !want.contains(&public);
        if !matches!(s.open, Open::Empty) && first {
            want.push(public.clone());
            if matches!(s.open, Open::Full) {
                want.extend(roots.iter().filter(|r| !log.contains(r)).cloned());
            }
        }
        if let (Some((n, commit)), true) = (&s.fault, exists && id.is_some()) {
            // the tables are there already
            if *commit {
                lmdb_sys::fault::commits_before_failure(Some((3 + *n as u32 % 2, libc::ENOSPC)));
            } else {
                lmdb_sys::fault::puts_before_failure(Some((*n as u32, lmdb_sys::MDB_MAP_FULL)));
            }
        }
        let env = BTreeEnv::open(path.clone(), s.make_dir);
        lmdb_sys::fault::puts_before_failure(None);
        lmdb_sys::fault::commits_before_failure(None);
        if !exists && !s.make_dir {
            ensure!(env.is_err(), "opens a store in a missing directory");
            ensure!(!dir.exists(), "creates the directory of a store it was asked not to create");
            o.class("missing directory");
            continue;
        }
        let env = match env {
            Ok(e) => e,
            Err(e) => {
                ensure!(s.fault.is_some(), "open {path:?}: {e}");
                o.class("failed while opening");
                // all or nothing
                std::env::set_var("LK_FORCE_EMPTY", "1");
                let e = BTreeEnv::open(path, false).map_err(|e| fail_sig("open", format!("after a failed open: {e}")))?;
                holds(&e, &log, pks)?;
                continue;
            }
        };
        log = want;
        o.class_if(first && log.contains(&public), "a store with its first packets");
        ensure_eq!(env.dir(), dir.canonicalize().unwrap(), "the location of a store opened as {path:?}");
        ensure_eq!(env.location(), env.dir(), "location and dir");
        holds(&env, &log, pks)?;
        let now_id = std::fs::read(dir.join("id")).ok();
        ensure!(id.is_none() || id == now_id, "the id of the store changes from {id:?} to {now_id:?}");
        id = now_id;
        ensure_eq!(std::fs::read(dir.join("type")).ok(), Some(b"lmdb".to_vec()), "the type of the store");
        for (b, fault) in &s.batches {
            if pks.is_empty() {
                break;
            }
            let batch: Vec<&Pk> = b.iter().map(|i| &pks[*i as usize % pks.len()]).collect();
            let mut v: Vec<(&NetPktPtr, SaveState)> = batch.iter().map(|p| (p.ptr(), SaveState::Pending)).collect();
            if let Some(n) = fault {
                lmdb_sys::fault::puts_before_failure(Some((*n as u32, lmdb_sys::MDB_MAP_FULL)));
            }
            let r = env.save_ptr(&mut v);
            lmdb_sys::fault::puts_before_failure(None);
            match r {
                Ok(_) => {
                    for p in batch {
                        if !has(&log, &p.hash) {
                            log.push(p.wire.clone())
                        }
                    }
                }
                Err(e) => ensure!(fault.is_some(), "save: {e}"),
            }
        }
        holds(&env, &log, pks)?;
        for k in &keep {
            holds(k, &log, pks)?;
        }
        if n % 2 == 0 {
            keep.push(env)
        }
        o.nontrivial(n > 0 && log.len() > 1);
        o.class_if(n > 0, "opened again");
    }
    Ok(())
}
/// directories that hold something else
fn foreign((kind, name): &(Vec<u8>, Vec<u8>), o: &mut Obs) -> Res {
    use std::os::unix::ffi::OsStringExt;
    let top = fresh_dir("foreign");
    let mut b = name.clone();
    b.retain(|c| *c != 0 && *c != b'/');
    b.insert(0, b'd');
    b.truncate(100);
    let utf8 = std::str::from_utf8(&b).is_ok();
    let dir = top.join(std::ffi::OsString::from_vec(b));
    std::fs::create_dir_all(&dir).map_err(|e| fail_sig("mkdir", e.to_string()))?;
    let typed = kind.len() % 3 > 0;
    if typed {
        std::fs::write(dir.join("type"), kind).map_err(|e| fail_sig("write", e.to_string()))?;
    }
    let ok = utf8 && (!typed || kind == b"lmdb");
    let r = BTreeEnv::open(dir.clone(), kind.len() % 2 == 0);
    let opened = r.is_ok();
    drop(r);
    let left = std::fs::read(dir.join("type"));
    lmdb_sys::fault::forget(&dir);
    let _ = std::fs::remove_dir_all(&top);
    ensure_eq!(opened, ok, "open {dir:?} with a type file {:?}", typed.then_some(bstr::BStr::new(kind)));
    if typed {
        ensure_eq!(left.ok(), Some(kind.clone()), "the type file afterwards");
    }
    o.nontrivial(!ok);
    o.class_if(!utf8, "a path that is no text");
    Ok(())
}
fn paths(p: &Vec<(u8, String)>, o: &mut Obs) -> Res {
    let mut s = String::new();
    for (k, w) in p {
        match k {
            0 => s.push('/'),
            1 => s.push_str("./"),
            2 => s.push_str("../"),
            3 => s.push_str(w),
            _ => {
                s.push_str(w);
                s.push('/')
            }
        }
    }
    // leaving the folder takes a leading slash or a '..'
    let inside = !s.starts_with('/') && s.split('/').all(|c| c != "..");
    let curdir = s == "." || s.starts_with("./");
    let r = check_path(Path::new(&s));
    ensure_eq!(r.is_ok(), inside && !curdir, "check_path({s:?})");
    if let Ok(r) = r {
        ensure_eq!(r, Path::new(&s), "the path");
        let full = Path::new("/a/b").join(r);
        ensure!(full.starts_with("/a/b") && !full.components().any(|c| c == Component::ParentDir), "{s:?} leads to {full:?}");
    }
    o.nontrivial(s.contains('/'));
    o.class_if(!inside, "leads outside");
    Ok(())
}
/// The shipped packets
fn shipped(_: &u8, o: &mut Obs) -> Res {
    let (public, roots) = initial();
    for b in roots.iter().chain([&public]) {
        ensure!(ref_read(b, false).is_ok(), "a shipped packet is invalid: {}", hex(b));
    }
    ensure_eq!(roots.concat(), LNS_ROOTS.0.to_vec(), "the shipped packets, one after the other");
    o.nontrivial(true);
    Ok(())
}
// ------------------------------------------------------------------ threads
fn threads((ps, plan): &(Vec<P>, Vec<Vec<Vec<u8>>>), o: &mut Obs) -> Res {
    let pks = build(ps);
    if pks.is_empty() {
        return Ok(());
    }
    let en = crate::d4::envs();
    crate::clock::real();
    // (range, batch, states)
    type Done = (std::ops::Range<u64>, Vec<usize>, Vec<SaveState>);
    let done: Mutex<Vec<Done>> = Mutex::new(vec![]);
    let snaps: Mutex<Vec<Vec<(u64, Vec<u8>)>>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        let mut w = vec![];
        for (n, batches) in plan.iter().enumerate() {
            let (pks, done, bad) = (&pks, &done, &bad);
            w.push(s.spawn(move || {
                for b in batches {
                    let batch: Vec<usize> = b.iter().map(|i| *i as usize % pks.len()).collect();
                    let mut v: Vec<(&NetPktPtr, SaveState)> = batch.iter().map(|i| (pks[*i].ptr(), SaveState::Pending)).collect();
                    match en.e[n % 2].save_ptr(&mut v) {
                        Ok(r) => done.lock().unwrap().push((r, batch, v.iter().map(|v| v.1).collect())),
                        Err(e) => *bad.lock().unwrap() = Some(e.to_string()),
                    }
                }
            }));
        }
        let (snaps, stop) = (&snaps, &stop);
        s.spawn(move || {
            let mut t = en.e[0].new_read_txn().unwrap();
            for n in 0..200 {
                t.refresh();
                let l = t.local_pkt_log(Stamp::ZERO).map(|p| (p.recv.get(), bytes(p.pkt))).collect::<Vec<_>>();
                snaps.lock().unwrap().push(l);
                if n > 2 && stop.load(Ordering::SeqCst) {
                    break;
                }
                std::thread::yield_now();
            }
        });
        for w in w {
            let _ = w.join();
        }
        stop.store(true, Ordering::SeqCst);
    });
    let bad = bad.into_inner().unwrap();
    ensure!(bad.is_none(), "a save failed: {bad:?}");
    let mut done = done.into_inner().unwrap();
    done.retain(|d| {
        // nothing new: every packet was there
        !d.0.is_empty() || d.2.iter().any(|s| *s != SaveState::Exists)
    });
    done.sort_by_key(|d| d.0.start);
    let mut want: Vec<(u64, Vec<u8>)> = vec![];
    let mut ends = vec![0];
    for (r, batch, states) in &done {
        ensure!(want.last().map_or(true, |w| w.0 < r.start), "two saves share log stamps from {}", r.start);
        let mut at = r.start;
        for (i, s) in batch.iter().zip(states) {
            let is_new = !want.iter().any(|w| w.1[32..64] == pks[*i].hash);
            ensure_eq!(*s, if is_new { SaveState::Written } else { SaveState::Exists }, "state of a packet");
            if is_new {
                want.push((at, pks[*i].wire.clone()));
                at += 1;
            }
        }
        ensure_eq!(at, r.end, "the end of the range of a save");
        ends.push(want.len());
    }
    let t = en.e[1].new_read_txn().map_err(|e| fail_sig("txn", e.to_string()))?;
    let got: Vec<(u64, Vec<u8>)> = t.local_pkt_log(Stamp::ZERO).map(|p| (p.recv.get(), bytes(p.pkt))).collect();
    ensure!(got == want, "the log is not the saves one after the other: stamps {:?}, expected {:?}", got.iter().map(|g| g.0).collect::<Vec<_>>(), want.iter().map(|g| g.0).collect::<Vec<_>>());
    let mut partial = false;
    for s in snaps.into_inner().unwrap() {
        ensure!(s[..] == want[..s.len().min(want.len())], "a snapshot of {} packets is no past state of the store", s.len());
        ensure!(ends.contains(&s.len()), "a snapshot holds a part of a save: {} packets, saves end at {ends:?}", s.len());
        partial |= s.len() > 0 && s.len() < want.len();
    }
    o.class_if(partial, "a snapshot between saves");
    o.nontrivial(done.len() > 2);
    Ok(())
}
pub fn props() -> Vec<Property> {
    let assume: &[&str] = &["the in-memory stand-in behaves as LMDB does"];
    vec![
        Property {
            id: "D13",
            rule: "a store with packets is opened again; for foreign: the directory is no store; for paths: more than one component",
            assumptions: assume,
            subs: vec![
                sub("sessions", 300, 600, || (pool(8), vec(session(), 1..5)), sessions).threads(1),
                sub("foreign", 300, 2_000, || (prop_oneof![2 => Just(b"lmdb".to_vec()), 1 => vec(prop_oneof![Just(b'l'), Just(b'm'), Just(b'd'), Just(b'b'), Just(b'\n')], 0..6)], prop_oneof![3 => "[a-z]{0,3}".prop_map(|s: String| s.into_bytes()), 1 => vec(any::<u8>(), 0..5)]), foreign).threads(1),
                sub("paths", 5_000, 50_000, || vec((0u8..6, prop_oneof!["[a-z.]{1,3}", Just("..".to_string())]), 0..6), paths),
                sub("shipped", 1, 1, || Just(0u8), shipped),
            ],
        },
        Property {
            id: "D14",
            rule: "more than two saves store something",
            assumptions: assume,
            subs: vec![sub("threads", 1_500, 30_000, || (pool(20), vec(vec(vec(any::<u8>(), 0..5), 1..5), 2..5)), threads).threads(3)],
        },
    ]
}
