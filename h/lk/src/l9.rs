//! Stores opened by path: what is shared between those that open them, and what is not.
use crate::d4::{pool, P};
use crate::l1::build;
use fw::*;
use linkspace::misc::blake3_hash;
use linkspace::prelude::*;
use linkspace::query::{lk_query_parse, lk_query_push};
use linkspace::runtime::*;
use linkspace::query::lk_hash_query;
use linkspace::{lk_eval, lk_query, Linkspace, Q};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

static NTH: AtomicU64 = AtomicU64::new(0);
fn root() -> PathBuf {
    let p = std::env::temp_dir().join("l09");
    std::fs::create_dir_all(&p).expect("folder");
    p.canonicalize().expect("folder")
}
/// folders that stay open: opening takes a thread and a file each
const DIRS: [&str; 3] = ["one", "two", "sub/three"];
/// ways to name a folder
fn named(d: usize, form: u8) -> PathBuf {
    let r = root();
    let p = r.join(DIRS[d]);
    match form % 5 {
        1 | 2 if !p.exists() => p,
        0 => p,
        1 => PathBuf::from(format!("{}/./", p.display())),
        2 => r.join("sub").join("..").join(DIRS[d]),
        3 => PathBuf::from(format!("{}//{}", r.display(), DIRS[d])),
        _ => {
            let l = r.join(format!("link{d}"));
            if l.exists() {
                return l;
            }
            if p.exists() && !l.is_symlink() {
                let _ = std::os::unix::fs::symlink(&p, &l);
                return l;
            }
            p
        }
    }
}
#[derive(Clone, Debug)]
enum Op {
    /// folder, way to name it, through the environment
    Open(u8, u8, u8),
    Save(u8, u8),
    SaveAll(u8, Vec<u8>),
    Process(u8),
    Clone(u8),
    /// everything of the case, given up after some
    All(u8, Option<u8>),
    /// by hash, the first of a query, and a list of hashes
    Get(u8, u8, Vec<u8>, Option<u8>),
    Watch(u8),
    Eval(u8),
    Missing(u8),
}
fn ops() -> BoxedStrategy<Vec<Op>> {
    let h = any::<u8>;
    vec(
        prop_oneof![
            4 => (h(), h(), prop::sample::select(vec![0u8, 0, 0, 1, 2])).prop_map(|(a, b, c)| Op::Open(a, b, c)),
            4 => (h(), h()).prop_map(|(a, b)| Op::Save(a, b)),
            4 => (h(), vec(h(), 0..6)).prop_map(|(a, b)| Op::SaveAll(a, b)),
            5 => h().prop_map(Op::Process),
            2 => h().prop_map(Op::Clone),
            5 => (h(), prop::option::of(0u8..4)).prop_map(|(a, b)| Op::All(a, b)),
            5 => (h(), h(), vec(h(), 0..5), prop::option::of(0u8..4)).prop_map(|(a, b, c, d)| Op::Get(a, b, c, d)),
            4 => h().prop_map(Op::Watch),
            3 => h().prop_map(Op::Eval),
            1 => h().prop_map(Op::Missing),
        ],
        4..40,
    )
    .boxed()
}
/// what is known to a runtime; clones share it
#[derive(Default)]
struct Seen {
    dir: usize,
    snap: BTreeSet<usize>,
    watches: Vec<Rc<RefCell<Vec<[u8; 32]>>>>,
    want: Vec<Vec<[u8; 32]>>,
}
fn shared(c: &(Vec<P>, Vec<Op>), o: &mut Obs) -> Res {
    let c = c.clone();
    let r = std::thread::spawn(move || {
        let mut o = Obs::default();
        (shared_in(&c, &mut o).map_err(|f| (f.sig, f.msg)), o)
    })
    .join();
    match r {
        Ok((r, o2)) => {
            *o = o2;
            r.map_err(|(sig, msg)| Fail { sig, msg })
        }
        Err(e) => Err(fail_sig("panic", format!("{:?}", e.downcast_ref::<String>().map(|s| &**s).or(e.downcast_ref::<&str>().copied())))),
    }
}
/// in a thread of its own: the first store opened in a thread is used by the functions that take none
fn shared_in((ps, ops): &(Vec<P>, Vec<Op>), o: &mut Obs) -> Res {
    let nth = NTH.fetch_add(1, Ordering::SeqCst);
    crate::clock::real();
    // points of this case only
    let mut domain = [0u8; 16];
    domain[..3].copy_from_slice(b"l09");
    domain[8..].copy_from_slice(&nth.to_be_bytes());
    let pks: Vec<(NetPktBox, [u8; 32])> = build(ps)
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let p = linkspace::lk_linkpoint(&p.wire[..p.wire.len().min(60)], ab(&domain), PUBLIC, RootedSpace::empty(), &[], Some(Stamp::new(i as u64))).unwrap();
            let h = p.hash().0;
            (p, h)
        })
        .collect();
    if pks.is_empty() {
        return Ok(());
    }
    let of_case = |q: linkspace::Query| lk_query_push(q, "domain", "=", &domain).expect("query");
    let mut db: [BTreeSet<usize>; 3] = Default::default();
    let mut hs: Vec<(Linkspace, usize)> = vec![];
    let mut seen: Vec<Seen> = vec![];
    let mut first: Option<usize> = None;
    let (mut cross, mut calls) = (false, 0);
    for op in ops {
        let at = |k: u8, n: usize| k as usize % n;
        if hs.is_empty() && !matches!(op, Op::Open(..) | Op::Missing(_)) {
            continue;
        }
        let h = |k: u8| at(k, hs.len());
        match op {
            Op::Open(d, form, env) => {
                let d = at(*d, 5).saturating_sub(2);
                let p = named(d, *form);
                let new = !p.exists();
                // looked for in the environment, one at a time
                static ENV: std::sync::Mutex<()> = std::sync::Mutex::new(());
                let _env = (*env > 0).then(|| ENV.lock().unwrap_or_else(|e| e.into_inner()));
                let r = match env {
                    1 => {
                        std::env::set_var("LK_DIR", &p);
                        let r = lk_open(None, true);
                        std::env::remove_var("LK_DIR");
                        r
                    }
                    2 if d == 0 => {
                        let home = std::env::var_os("HOME");
                        std::env::remove_var("LK_DIR");
                        let l = root().join("home");
                        std::fs::create_dir_all(&l).expect("folder");
                        std::fs::create_dir_all(root().join(DIRS[0])).expect("folder");
                        if !l.join("linkspace").exists() {
                            std::os::unix::fs::symlink(root().join(DIRS[0]), l.join("linkspace")).expect("link");
                        }
                        std::env::set_var("HOME", &l);
                        let r = lk_open(None, false);
                        match home {
                            Some(h) => std::env::set_var("HOME", h),
                            None => std::env::remove_var("HOME"),
                        }
                        r
                    }
                    _ => lk_open(Some(&p), true),
                };
                let lk = r.map_err(|e| fail_sig("open", format!("{}: {e}", p.display())))?;
                let i = lk_info(&lk);
                ensure_eq!((i.kind, i.dir.to_path_buf()), ("lmdb", root().join(DIRS[d])), "lk_info of {}", p.display());
                first.get_or_insert(seen.len());
                hs.push((lk, seen.len()));
                seen.push(Seen { dir: d, snap: db[d].clone(), ..Default::default() });
                o.class_if(new, "a new folder");
            }
            Op::Save(k, p) => {
                let (lk, s) = &hs[h(*k)];
                let p = at(*p, pks.len());
                let new = lk_save(lk, &pks[p].0).map_err(|e| fail_sig("save", e.to_string()))?;
                ensure_eq!(new, db[seen[*s].dir].insert(p), "lk_save says that the packet is new");
            }
            Op::SaveAll(k, l) => {
                let (lk, s) = &hs[h(*k)];
                let d = seen[*s].dir;
                let l: Vec<usize> = l.iter().map(|i| at(*i, pks.len())).collect();
                let refs: Vec<&dyn NetPkt> = l.iter().map(|i| &pks[*i].0 as &dyn NetPkt).collect();
                let new = lk_save_all(lk, &refs).map_err(|e| fail_sig("save", e.to_string()))?;
                ensure_eq!(new, l.iter().filter(|i| db[d].insert(**i)).count(), "lk_save_all says how many are new");
            }
            Op::Process(k) => {
                let (lk, s) = &hs[h(*k)];
                lk_process(lk);
                let s = &mut seen[*s];
                let news: BTreeSet<[u8; 32]> = db[s.dir].difference(&s.snap).map(|i| pks[*i].1).collect();
                s.snap = db[s.dir].clone();
                for (w, want) in s.watches.iter().zip(&mut s.want) {
                    want.extend(&news);
                    want.sort();
                    let mut got = w.borrow().clone();
                    got.sort();
                    calls += news.len();
                    ensure_eq!(&got, want, "calls of a watch after its runtime processed");
                }
            }
            Op::Clone(k) => {
                let c = hs[h(*k)].clone();
                hs.push(c);
            }
            Op::All(k, stop) => {
                let (lk, s) = &hs[h(*k)];
                let s = &seen[*s];
                let mut got = vec![];
                let r = lk_get_all(lk, &of_case(lk_query(&Q)), &mut |p| {
                    got.push(p.hash().0);
                    stop.is_some_and(|n| got.len() > n as usize)
                })
                .map_err(|e| fail_sig("get", e.to_string()))?;
                let have: BTreeSet<[u8; 32]> = s.snap.iter().map(|i| pks[*i].1).collect();
                let gave_up = stop.is_some_and(|n| have.len() > n as usize);
                let n = if gave_up { stop.unwrap() as usize + 1 } else { have.len() };
                ensure_eq!((got.len(), r), (n, if gave_up { -(n as i32) } else { n as i32 }), "number of packets and count of lk_get_all");
                let set: BTreeSet<[u8; 32]> = got.iter().copied().collect();
                ensure!(set.len() == n && set.is_subset(&have), "lk_get_all gave {got:?} of {have:?}");
                cross |= n > 0 && seen.iter().filter(|x| x.dir == s.dir).count() > 1;
            }
            Op::Get(k, p, l, stop) => {
                let (lk, s) = &hs[h(*k)];
                let s = &seen[*s];
                let p = at(*p, pks.len());
                let q = lk_hash_query(pks[p].0.hash());
                let a = lk_get(lk, &q).map_err(|e| fail_sig("get", e.to_string()))?;
                let b = lk_get_ref(lk, &q, &mut |p| (p.hash().0, p.data().to_vec())).map_err(|e| fail_sig("get", e.to_string()))?;
                let want = s.snap.contains(&p).then(|| (pks[p].1, pks[p].0.data().to_vec()));
                ensure_eq!(a.map(|p| (p.hash().0, p.data().to_vec())), want, "lk_get");
                ensure_eq!(b, want, "lk_get_ref");
                // the first of a query is the first that lk_get_all has
                let q = of_case(lk_query(&Q));
                let mut one = None;
                lk_get_all(lk, &q, &mut |p| {
                    one = Some(p.hash().0);
                    true
                })
                .map_err(|e| fail_sig("get", e.to_string()))?;
                ensure_eq!(lk_get(lk, &q).map_err(|e| fail_sig("get", e.to_string()))?.map(|p| p.hash().0), one, "the first of lk_get and of lk_get_all");
                let l: Vec<usize> = l.iter().map(|i| at(*i, pks.len())).collect();
                let hashes: Vec<LkHash> = l.iter().map(|i| pks[*i].0.hash()).collect();
                let mut want: Vec<[u8; 32]> = l.iter().filter(|i| s.snap.contains(i)).map(|i| pks[*i].1).collect();
                let gave_up = stop.is_some_and(|n| want.len() > n as usize);
                if gave_up {
                    want.truncate(stop.unwrap() as usize + 1)
                }
                let mut got = vec![];
                let r = lk_get_hashes(lk, &hashes, &mut |p| {
                    got.push(p.hash().0);
                    stop.is_some_and(|n| got.len() > n as usize)
                })
                .map_err(|e| fail_sig("get", e.to_string()))?;
                let n = want.len() as i32;
                ensure_eq!((got, r), (want, if gave_up { -n } else { n }), "lk_get_hashes");
            }
            Op::Watch(k) => {
                let (lk, s) = &hs[h(*k)];
                let s = &mut seen[*s];
                if s.watches.len() > 3 {
                    continue;
                }
                let id = format!(":qid:w{}", s.watches.len());
                let q = lk_query_parse(of_case(lk_query(&Q)), &[&id], ()).expect("query");
                let got = Rc::new(RefCell::new(vec![]));
                let g = got.clone();
                lk_watch2(lk, &q, try_cb(move |p: &dyn NetPkt, _: &Linkspace| -> Result<(), ()> {
                    g.borrow_mut().push(p.hash().0);
                    Ok(())
                }), vspan("l09"))
                .map_err(|e| fail_sig("watch", e.to_string()))?;
                s.want.push(s.snap.iter().map(|i| pks[*i].1).collect());
                s.want.last_mut().unwrap().sort();
                s.watches.push(got);
                let w = s.watches.last().unwrap().borrow().clone();
                let mut w = w;
                w.sort();
                ensure_eq!(&w, s.want.last().unwrap(), "calls made by lk_watch");
            }
            Op::Eval(p) => {
                // the first store this thread opened
                let p = at(*p, pks.len());
                let has = seen[first.unwrap()].snap.contains(&p);
                let r = lk_eval(&format!("[/readhash:[b:{}]:[data]]", pks[p].0.hash()), ());
                match r {
                    Ok(v) if has => ensure_eq!(v, pks[p].0.data(), "[readhash]"),
                    Ok(_) => return Err(fail_sig("eval", "[readhash] has a packet that is not in the store opened first")),
                    Err(e) if has => return Err(fail_sig("eval", format!("[readhash] of a packet in the store opened first: {e:#}"))),
                    Err(_) => {}
                }
            }
            Op::Missing(k) => {
                let p = root().join(format!("missing{k}")).join("deeper");
                ensure!(lk_open(Some(&p), false).is_err(), "a store where there is no folder");
                ensure!(!p.exists() && !p.parent().unwrap().exists(), "opening without leave to create made a folder");
            }
        }
    }
    o.nontrivial(cross);
    o.class_if(calls > 0, "watches called");
    o.class_if(seen.iter().map(|s| s.dir).collect::<BTreeSet<_>>().len() > 1, "several folders");
    Ok(())
}
/// threads that open the same new folder at the same time
fn together((n, pause): &(u8, Vec<u16>), o: &mut Obs) -> Res {
    let nth = NTH.fetch_add(1, Ordering::SeqCst);
    crate::clock::real();
    let n = 2 + *n as usize % 3;
    let dir = root().join(format!("together{nth}"));
    let (start, ready, done) = (Arc::new(Barrier::new(n)), Arc::new(Barrier::new(n)), Arc::new(Barrier::new(n)));
    let ts: Vec<_> = (0..n)
        .map(|i| {
            let (dir, start, ready, done) = (dir.clone(), start.clone(), ready.clone(), done.clone());
            let spin = pause.get(i).copied().unwrap_or(0);
            std::thread::spawn(move || -> Result<(), String> {
                start.wait();
                for _ in 0..spin {
                    std::hint::spin_loop()
                }
                let lk = lk_open(Some(&dir), true).map_err(|e| format!("open: {e}"));
                ready.wait();
                let mut r = lk.and_then(|lk| watcher(i, n, &lk, &dir));
                done.wait();
                if let Err(e) = &mut r {
                    e.insert_str(0, &format!("thread {i} of {n}: "))
                }
                r
            })
        })
        .collect();
    let rs: Vec<_> = ts.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("panic".into()))).collect();
    for r in rs {
        r.map_err(|m| fail_sig("apart", m))?
    }
    o.nontrivial(true);
    Ok(())
}
/// each thread saves one point, and waits for those of all
fn watcher(i: usize, n: usize, lk: &Linkspace, dir: &Path) -> Result<(), String> {
    let point = linkspace::lk_linkpoint(&[i as u8], ab(b"together"), PUBLIC, RootedSpace::empty(), &[], Some(Stamp::new(i as u64))).unwrap();
    let q = lk_query_parse(lk_query(&Q), &["domain:=:[a:together]", ":qid:x"], ()).expect("query");
    let got = Rc::new(Cell::new(0));
    let g = got.clone();
    let info = lk_info(lk);
    if info.dir != dir {
        return Err(format!("lk_info: {}", info.dir.display()));
    }
    lk_watch(lk, &q, linkspace::runtime::cb::cb(move |_: &dyn NetPkt, _: &Linkspace| {
        g.set(g.get() + 1);
        g.get() == n
    }))
    .map_err(|e| format!("watch: {e}"))?;
    if !lk_save(lk, &point).map_err(|e| format!("save: {e}"))? {
        return Err("its point is not new".into());
    }
    let began = Instant::now();
    // no point is lost, though each wait may end early
    while got.get() < n {
        let left = Duration::from_secs(10).saturating_sub(began.elapsed());
        if left.is_zero() {
            return Err(format!("{} of {n} points saved by the threads in 10 s", got.get()));
        }
        lk_process_while(lk, Some(b"x"), Stamp::new(left.as_micros() as u64 + 1)).map_err(|e| format!("wait: {e}"))?;
    }
    Ok(())
}
/// keys, kept as text
fn keys((seed, pw, other): &([u8; 16], Vec<u8>, Vec<u8>), o: &mut Obs) -> Res {
    use linkspace::key::*;
    use linkspace_common::identity;
    let k = lk_keygen();
    let pk = k.pubkey_bytes();
    let cheap = |pw: &[u8]| identity::encrypt(&k, pw, Some(identity::INSECURE_COST));
    let (t, empty) = (cheap(pw), lk_key_encrypt(&k, b""));
    for (t, pw) in [(&t, &pw[..]), (&empty, b"")] {
        ensure_eq!(lk_key_pubkey(t).map_err(|e| fail_sig("pubkey", e.to_string()))?.0, pk, "lk_key_pubkey");
        let d = lk_key_decrypt(t, pw).map_err(|e| fail_sig("decrypt", e.to_string()))?;
        ensure_eq!(d.pubkey_bytes(), pk, "key of lk_key_decrypt");
        let p = linkspace::lk_keypoint(&d, seed, ab(b""), PUBLIC, RootedSpace::empty(), &[], None).map_err(|e| fail_sig("sign", e.to_string()))?;
        p.check(false).map_err(|e| fail_sig("signature", format!("{e:?}")))?;
        ensure_eq!(p.pubkey().map(|k| k.0), Some(pk), "key of the point");
        if other != pw {
            ensure!(lk_key_decrypt(t, other).is_err(), "decrypted with another password");
        }
    }
    ensure!(lk_keygen().pubkey_bytes() != pk, "two keys alike");
    ensure!(blake3_hash(seed).0 != blake3_hash(pw).0 || seed[..] == pw[..], "hashes");
    for cut in [0, t.len() / 2, t.len() - 1] {
        ensure!(lk_key_decrypt(&t[..cut], pw).is_err(), "half a text decrypted");
    }
    o.nontrivial(pw != other);
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L09",
        rule: "a folder is opened more than once and read through one of the handles; threads open one new folder; another password is tried",
        assumptions: &["the store runs on the in-memory stand-in of LMDB"],
        subs: vec![
            sub("shared", 6_000, 60_000, || (pool(8), ops()), shared),
            sub("together", 600, 3_000, || (any::<u8>(), vec(0u16..3000, 0..4)), together),
            sub("keys", 300, 4_000, || (any::<[u8; 16]>(), gen_pw(), gen_pw()), keys),
        ],
    }]
}
fn gen_pw() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![Just(vec![]), vec(any::<u8>(), 1..12), prop::sample::select(vec![b"a".to_vec(), b"a\0".to_vec(), b"A".to_vec()])].boxed()
}
