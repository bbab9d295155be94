//! Reading points and files through expressions.
use crate::clock;
use crate::d4::{envs, pool, Envs, P};
use crate::l1::build;
use crate::model::Kind;
use fw::*;
use linkspace::abe::scope as lscope;
use linkspace::prelude::*;
use linkspace::varscope::lk_eval;
use linkspace::Linkspace;
use linkspace_common::runtime::Linkspace as Rt;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

macro_rules! fail { ($($a:tt)*) => { return Err(Fail::from(format!($($a)*))) } }
fn np<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    no_panic(f).map_err(|e| Fail::from(format!("{what} panicked: {e}")))
}
// ------------------------------------------------------------------ points by hash and by place
#[derive(Clone, Debug)]
struct Ask {
    which: u8,
    b64: bool,
    call: u8,
    missing: bool,
    alt: u8,
    outer: Option<u8>,
}
const CALLS: [(&str, &str); 16] = [
    ("hash:str", "[hash:str]"),
    ("group", "[group]"),
    ("group:str", "[group:str]"),
    ("domain:str", "[domain:str]"),
    ("create", "[create]"),
    ("create:str", "[create:str]"),
    ("data", "[data]"),
    ("spacename:str", "[spacename:str]"),
    ("pubkey:str", "[pubkey:str]"),
    ("links_len:str", "[links_len:str]"),
    ("data_size:str", "[data_size:str]"),
    ("recv", "[recv]"),
    ("point_size:str", "[point_size:str]"),
    ("netflags:str", "[netflags:str]"),
    ("depth:str", "[depth:str]"),
    ("nothing", "[nothing]"),
];
fn ask() -> BoxedStrategy<Ask> {
    (any::<u8>(), any::<bool>(), 0u8..16, proptest::bool::weighted(0.25), 0u8..4, proptest::option::weighted(0.4, any::<u8>())).prop_map(|(which, b64, call, missing, alt, outer)| Ask { which, b64, call, missing, alt, outer }).boxed()
}
fn esc(b: &[u8]) -> String {
    linkspace::prelude::AB(b).to_string()
}
fn points((ps, asks): &(Vec<P>, Vec<Ask>), o: &mut Obs) -> Res {
    if ps.is_empty() {
        return Ok(());
    }
    let en: &'static Envs = envs();
    clock::start();
    let res = (|| -> Res {
        let pks = build(ps);
        for p in &pks {
            en.e[0].save_dyn_one(p.ptr()).map_err(|e| Fail::from(format!("save: {e}")))?;
        }
        let rt = Rt::new_opt_rt(en.e[0].clone(), Default::default());
        let lk = Linkspace::from(rt.clone());
        let reader = rt.get_reader();
        for a in asks {
            let k = a.which as usize % pks.len();
            let pk = &pks[k];
            let mut h = pk.hash;
            if a.missing {
                h[31] ^= 1
            }
            let stored = reader.read(&B64(pk.hash)).map_err(|e| Fail::from(format!("read: {e}")))?;
            let Some(stored) = stored else { fail!("{} is not there", B64(pk.hash)) };
            let hash = esc(&h);
            let outer = a.outer.map(|x| pks[x as usize % pks.len()].ptr() as &dyn NetPkt);
            let ud = lscope::UserData { pkt: outer, argv: None };
            let sc = || lscope::lk_scope(Some(&lk), ud, false).unwrap();
            let of = || lscope::lk_scope(Some(&lk), lscope::UserData { pkt: Some(&stored), argv: None }, false).unwrap();
            let (call, expr) = CALLS[a.call as usize % 16];
            let want = np("lk_eval", || lk_eval(of(), expr, false))?.ok();
            o.nontrivial(want.is_some() && !a.missing);
            let show = |r: &Option<Vec<u8>>| r.as_ref().map(|v| esc(v));
            let e = format!("[readhash:{hash}:{call}]");
            let got = np("lk_eval", || lk_eval(sc(), &e, false))?;
            let w = if a.missing { None } else { want.clone() };
            ensure!(got.as_ref().ok() == w.as_ref(), "{e} is {:?} ({:?}), not {:?}", show(&got.as_ref().ok().cloned()), got.as_ref().err().map(|e| e.to_string()), show(&w));
            // as a macro
            let (alt, aw): (&str, Option<Vec<u8>>) = match a.alt {
                0 => ("", None),
                1 => (":none", Some(b"none".to_vec())),
                2 => (":[u8:7]x", Some(vec![7, b'x'])),
                _ => (":", Some(vec![])),
            };
            let e = format!("[/readhash:{hash}:<{expr}>{alt}]");
            let got = np("lk_eval", || lk_eval(sc(), &e, false))?;
            let w = if a.missing { aw } else { want.clone().map(|v| [b"<", v.as_slice(), b">"].concat()) };
            o.class_if(a.missing && w.is_some(), "the alternative");
            ensure!(got.as_ref().ok() == w.as_ref(), "{e} is {:?} ({:?}), not {:?}", show(&got.as_ref().ok().cloned()), got.as_ref().err().map(|e| e.to_string()), show(&w));
            if a.missing {
                let e = format!("[/readhash:{hash}:{expr}:a:b]");
                ensure!(np("lk_eval", || lk_eval(sc(), &e, false))?.is_err(), "{e} has too many parts");
            }
            // by place
            let m = &pk.m;
            if !matches!(m.kind, Kind::Link | Kind::Key(_)) {
                continue;
            }
            let here: Vec<usize> = (0..pks.len()).filter(|i| matches!(pks[*i].m.kind, Kind::Link | Kind::Key(_)) && pks[*i].m.group == m.group && pks[*i].m.domain == m.domain && pks[*i].m.comps == m.comps && pks[*i].ptr().get_pubkey() == pk.ptr().get_pubkey()).collect();
            let top = here.iter().map(|i| pks[*i].m.stamp).max().unwrap();
            let latest: Vec<[u8; 32]> = here.iter().filter(|i| pks[**i].m.stamp == top).map(|i| pks[*i].hash).collect();
            let key = pk.ptr().get_pubkey().0;
            let space = m.comps.iter().map(|c| format!("/{}", esc(c))).collect::<String>();
            let space = if m.comps.is_empty() { String::new() } else { format!("[/{space}]") };
            let e = format!("[read:{}:{}:{space}:{}:hash]", esc(&m.domain), if a.b64 { B64(m.group).to_string() } else { esc(&m.group) }, if a.b64 { B64(key).to_string() } else { esc(&key) });
            let got = np("lk_eval", || lk_eval(sc(), &e, false))?;
            if m.group == [0; 32] {
                ensure!(got.is_err(), "{e} reads the private group");
                o.class("private");
                continue;
            }
            o.class_if(here.len() > 1, "several points in one place");
            match &got {
                Ok(g) => ensure!(latest.iter().any(|h| h == g.as_slice()), "{e} is {}, not the latest there ({:?})", B64(<[u8; 32]>::try_from(g.as_slice()).unwrap_or_default()), latest.iter().map(|h| B64(*h)).collect::<Vec<_>>()),
                Err(x) => fail!("{e}: {x:#}"),
            }
            // elsewhere there is none
            let e = format!("[read:{}:{}:[//nowhere/at/all]:{}:hash]", esc(&m.domain), esc(&m.group), esc(&key));
            ensure!(np("lk_eval", || lk_eval(sc(), &e, false))?.is_err(), "{e} has a value");
        }
        Ok(())
    })();
    clock::real();
    res
}

// ------------------------------------------------------------------ files
#[derive(Clone, Debug)]
enum F {
    Set(String, Vec<u8>, bool),
    Get(String, bool),
    Eval(String),
}
fn path() -> BoxedStrategy<String> {
    let part = prop::sample::select(vec!["a", "b", "c", "a b", "é", "..x", "...", "a", "b", "x:y", "~"]);
    let odd = prop::sample::select(vec!["..", ".", "", "..", "\0"]);
    let abs = Just(String::from("<scratch>/esc"));
    prop_oneof![
        12 => vec(part.clone(), 1..4).prop_map(|v| v.join("/")),
        5 => (vec(part, 0..3), odd, any::<prop::sample::Index>(), "[/]{0,1}").prop_map(|(v, x, i, end)| {
            let mut v: Vec<&str> = v;
            let i = i.index(v.len() + 1);
            v.insert(i, x);
            v.join("/") + &end
        }),
        1 => prop::sample::select(vec!["..", "../esc", "a/../../esc", "../../esc", "a/../b", "../files/a", "", ".", "./a", "a/", "a/b/"]).prop_map(String::from),
        1 => abs,
    ]
    .boxed()
}
fn fop() -> BoxedStrategy<F> {
    prop_oneof![
        4 => (path(), vec(any::<u8>(), 0..5), any::<bool>()).prop_map(|(p, b, o)| F::Set(p, b, o)),
        3 => (path(), any::<bool>()).prop_map(|(p, b)| F::Get(p, b)),
        2 => path().prop_map(F::Eval),
    ]
    .boxed()
}
/// the parts of an acceptable path, and whether it ends in a slash
fn parts(p: &str) -> Option<(Vec<String>, bool)> {
    if p.starts_with('/') {
        return None;
    }
    let v: Vec<&str> = p.split('/').collect();
    if v.iter().any(|c| *c == "..") || v[0] == "." {
        return None;
    }
    let slash = v.len() > 1 && matches!(*v.last().unwrap(), "" | ".");
    Some((v.iter().filter(|c| !matches!(**c, "" | ".")).map(|c| c.to_string()).collect(), slash))
}
fn files(ops: &Vec<F>, o: &mut Obs) -> Res {
    let en: &'static Envs = envs();
    let dir = en.dir.join("files");
    let _ = std::fs::remove_dir_all(&dir);
    let rt = Rt::new_opt_rt(en.e[0].clone(), Default::default());
    let lk = Linkspace::from(rt.clone());
    let scratch = std::env::temp_dir();
    let outside = || -> BTreeSet<String> {
        std::fs::read_dir(&en.dir).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()
    };
    let before = outside();
    // what there is to be read outside
    let _ = std::fs::write(en.dir.join("a"), b"outside");
    let _ = std::fs::write(en.dir.join("b"), b"outside");
    let mut m: BTreeMap<Vec<String>, Vec<u8>> = BTreeMap::new();
    let mut dirs: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut exists = false;
    let real = |p: &str| p.replace("<scratch>", &scratch.to_string_lossy());
    for (i, op) in ops.iter().enumerate() {
        match op {
            F::Set(p, bytes, over) => {
                let p = real(p);
                let r = np("set_files_data", || rt.set_files_data(Path::new(&p), bytes, *over))?;
                let Some((ps, slash)) = parts(&p) else {
                    o.class("refused path");
                    ensure!(r.is_err(), "op {i}: wrote to {p:?}");
                    ensure!(!Path::new(&scratch.join("esc")).exists() && !en.dir.join("esc").exists(), "op {i}: {p:?} was written outside");
                    continue;
                };
                if p.contains('\0') {
                    ensure!(r.is_err(), "op {i}: wrote to {p:?}");
                    // folders on the way may be there now
                    for n in 1..ps.len() {
                        if dir.join(ps[..n].join("/")).is_dir() {
                            dirs.insert(ps[..n].to_vec());
                            exists = true
                        }
                    }
                    exists |= dir.is_dir();
                    continue;
                }
                if p.split('/').any(|c| c == ".") {
                    // how far the system goes with a dot in it is left open
                    if r.is_ok() {
                        m.insert(ps.clone(), bytes.clone());
                    }
                    exists |= dir.is_dir();
                    for n in 1..=ps.len() {
                        if dir.join(ps[..n].join("/")).is_dir() {
                            dirs.insert(ps[..n].to_vec());
                        }
                    }
                    continue;
                }
                let blocked = (1..ps.len()).any(|n| m.contains_key(&ps[..n]));
                if !blocked && !ps.is_empty() {
                    exists = true;
                    for n in 1..ps.len() {
                        dirs.insert(ps[..n].to_vec());
                    }
                }
                let ok = !blocked && !ps.is_empty() && !slash && !dirs.contains(&ps) && (*over || !m.contains_key(&ps));
                ensure_eq!(r.is_ok(), ok, "op {i}: write to {p:?} (overwrite {over}): {r:?}");
                if ok {
                    o.nontrivial(m.contains_key(&ps) || ps.len() > 1);
                    m.insert(ps, bytes.clone());
                }
            }
            F::Get(p, _) | F::Eval(p) => {
                let p = real(p);
                let strict = if let F::Get(_, n) = op { *n } else { true };
                let r: Result<Option<Vec<u8>>, String> = match op {
                    F::Get(_, n) => np("files_data", || rt.files_data(Path::new(&p), *n))?.map_err(|e| format!("{e:#}")),
                    _ => {
                        let sc = lscope::lk_scope(Some(&lk), ().into(), false).unwrap();
                        let e = format!("[files:{}]", esc(p.as_bytes()));
                        if p.is_empty() {
                            continue;
                        }
                        np("lk_eval", || lk_eval(sc, &e, false))?.map(Some).map_err(|e| format!("{e:#}"))
                    }
                };
                let Some((ps, slash)) = parts(&p) else {
                    ensure!(r.is_err(), "op {i}: read {p:?}: {r:?}");
                    continue;
                };
                if p.contains('\0') {
                    ensure!(r.is_err(), "op {i}: read {p:?}");
                    continue;
                }
                if p.split('/').any(|c| c == ".") {
                    ensure!(!matches!(&r, Ok(Some(v)) if m.get(&ps) != Some(v)), "op {i}: read {p:?}: {r:?}");
                    continue;
                }
                let blocked = (1..ps.len()).any(|n| m.contains_key(&ps[..n]));
                let is_dir = if ps.is_empty() { exists } else { dirs.contains(&ps) };
                match m.get(&ps) {
                    Some(v) if !slash => ensure!(r.as_ref().ok() == Some(&Some(v.clone())), "op {i}: read {p:?}: {r:?}, not {v:?}"),
                    Some(_) => ensure!(r.is_err(), "op {i}: read {p:?}: {r:?}"),
                    None if is_dir || blocked || strict => ensure!(r.is_err(), "op {i}: read {p:?}: {r:?}, there is none"),
                    None => ensure_eq!(r, Ok(None), "op {i}: read {p:?}, there is none"),
                }
            }
        }
    }
    for (p, v) in &m {
        ensure!(std::fs::read(dir.join(p.join("/"))).ok().as_ref() == Some(v), "at the end {p:?} does not hold {v:?}");
    }
    let mut after = outside();
    for n in ["a", "b"] {
        ensure!(std::fs::read(en.dir.join(n)).is_ok_and(|v| v == b"outside"), "a file outside was changed");
        let _ = std::fs::remove_file(en.dir.join(n));
        after.remove(n);
    }
    after.remove("files");
    let mut before = before;
    before.remove("files");
    ensure_eq!(after, before, "files outside");
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
fn environment(names: &Vec<u8>, o: &mut Obs) -> Res {
    let en: &'static Envs = envs();
    let rt = Rt::new_opt_rt(en.e[0].clone(), Default::default());
    let lk = Linkspace::from(rt.clone());
    for n in names {
        let n = ["LK_FORCE_EMPTY", "TMPDIR", "NOT_THERE_AT_ALL", "PATH", "LK_GROUP", "VERIF_INNER"][*n as usize % 6];
        let e = format!("[env:{n}]");
        let on = np("lk_eval", || lk_eval(lscope::lk_scope(Some(&lk), ().into(), true).unwrap(), &e, false))?;
        let want = std::env::var_os(n).map(|v| std::os::unix::ffi::OsStringExt::into_vec(v));
        o.nontrivial(want.is_some());
        ensure_eq!(on.ok(), want, "{e}");
        ensure!(np("lk_eval", || lk_eval(lscope::lk_scope(Some(&lk), ().into(), false).unwrap(), &e, false))?.is_err(), "{e} has a value in a scope without it");
        ensure!(np("lk_eval", || lk_eval(lscope::core_scope(), &e, false))?.is_err(), "{e} has a value in the core scope");
        ensure!(np("lk_eval", || lk_eval(lscope::scope(().into()).unwrap(), &e, false))?.is_err(), "{e} has a value in the usual scope");
    }
    // no store, no points
    for e in [format!("[readhash:{}:hash]", B64([1; 32])), "[files:a]".into(), "[@:me:local]".into(), "[read:a:b]".into()] {
        ensure!(np("lk_eval", || lk_eval(lscope::lk_scope(None, ().into(), true).unwrap(), &e, false))?.is_err(), "{e} has a value without a store");
        ensure!(np("lk_eval", || lk_eval(lscope::core_scope(), &e, false))?.is_err(), "{e} has a value in the core scope");
    }
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L06",
        rule: "a stored point was asked for something it has; a file written in a folder or written again; a variable that is set",
        assumptions: &["the store runs on the in-memory stand-in of LMDB", "no symbolic links in the folder of files"],
        subs: vec![
            sub("points", 6_000, 100_000, || (pool(10), vec(ask(), 1..6)), points),
            sub("files", 6_000, 100_000, || vec(fop(), 1..16), files),
            sub("environment", 200, 200, || vec(any::<u8>(), 1..5), environment),
        ],
    }]
}
