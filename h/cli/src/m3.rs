//! The store by command line, points made of points, links followed, and what stays private.
use crate::d4::{answer, modes, pool, qs, Db, Pk, P};
use crate::m1::head0;
use crate::m2::{build, dest_args, dests, qy, stream, Dest, Qy, Sinks};
use crate::model::{self, Kind, H, M};
use crate::run::*;
use fw::*;
use linkspace_core::env::query_mode::{Mode, Order, Table};
use linkspace_pkt::NetPkt as _;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::{BTreeMap, HashMap};

pub const SHIM: &[&str] = &["the `lk` program is built from /repo with stand-ins for clap, lmdb and other missing crates"];
pub fn pk(m: M) -> Pk {
    let wire = m.wire();
    let built = m.with(|n| n.as_netbox()).expect("a small packet");
    Pk { hash: wire[32..64].try_into().unwrap(), wire, built, m }
}
fn again(p: &Pk, h: H) -> Pk {
    pk(M { h, ..p.m.clone() })
}
fn hopped(p: &Pk) -> Pk {
    let h = p.m.h;
    again(p, H { hop: h.hop.saturating_add(1), ..h })
}
fn pick<'a>(pks: &'a [Pk], sel: &[u8]) -> Vec<&'a Pk> {
    if pks.is_empty() {
        return vec![];
    }
    sel.iter().map(|i| &pks[*i as usize % pks.len()]).collect()
}
/// a new instance; and what it starts out with
pub fn init(d: &Dir) -> Result<Vec<Pk>, Fail> {
    good(d, &a(&["--init", "init"]), &[])?;
    let all = a(&["--private", "watch-log", "--asc", "--bare", "--db-only"]);
    let l = split("a new store", &good(d, &all, &[])?)?;
    l.iter()
        .map(|w| {
            let v = model::ref_read(w, false).map_err(|e| Fail::from(format!("{e:?}")))?;
            let n = |i: usize| u32::from_be_bytes(w[i..i + 4].try_into().unwrap());
            let h = H { prefix: w[..3].try_into().unwrap(), flags: w[3], hop: n(4), stamp: u64::from_be_bytes(w[8..16].try_into().unwrap()), ubits: [n(16), n(20), n(24), n(28)] };
            let kind = match v.ty {
                1 => Kind::Data,
                3 => Kind::Link,
                t => return Err(format!("a new store has a packet of type {t}").into()),
            };
            let p = pk(M { kind, h, group: v.group, domain: v.domain, stamp: v.stamp, comps: v.comps, links: v.links, data: w[v.data].to_vec() });
            ensure!(p.wire == *w, "a new store has a packet the model can not make");
            Ok(p)
        })
        .collect()
}
/// where one command wrote to is gone before the next
fn wipe(d: &Dir) {
    for i in 0..3 {
        let _ = std::fs::remove_file(d.path(&format!("f{i}")));
    }
}

// ------------------------------------------------------------------ the store
#[derive(Clone, Debug)]
enum Op {
    Save { sel: Vec<u8>, hop: Option<bool>, new: Option<Vec<Dest>>, old: Option<Vec<Dest>>, fwd: bool, file: bool, broken: Option<(u8, u8)> },
    Make { i: u8, style: u8, both: bool },
    Import { sel: Vec<u8>, broken: Option<u8> },
    Watch { form: u8, asc: bool, q: Qy, w: Option<Vec<Dest>> },
    Hash { i: u8, style: u8 },
    Filter { sel: Vec<u8>, q: Qy },
}
fn ops() -> BoxedStrategy<(Vec<P>, Vec<Op>)> {
    let sel = |n| vec(0u8..24, 0..n);
    let save = (sel(9), proptest::option::of(any::<bool>()), dests(3), dests(3), proptest::bool::weighted(0.2), any::<bool>(), proptest::option::weighted(0.1, any::<(u8, u8)>())).prop_map(|(sel, hop, new, old, fwd, file, broken)| Op::Save { sel, hop, new, old, fwd, file, broken });
    let op = prop_oneof![
        4 => save,
        1 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, style, both)| Op::Make { i, style, both }),
        1 => (sel(7), proptest::option::weighted(0.2, any::<u8>())).prop_map(|(sel, broken)| Op::Import { sel, broken }),
        5 => (any::<u8>(), any::<bool>(), qy(), dests(3)).prop_map(|(form, asc, q, w)| Op::Watch { form, asc, q, w }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(i, style)| Op::Hash { i, style }),
        1 => (sel(7), qy()).prop_map(|(sel, q)| Op::Filter { sel, q }),
    ];
    (pool(14), vec(op, 1..10)).boxed()
}
/// flips a bit of what the hash covers, or of the hash
fn dent(b: &mut [u8], at: u8, bit: u8) {
    let from = 32;
    let i = from + (at as usize * 7) % (b.len() - from);
    b[i] ^= 1 << (bit % 8);
}
fn store((ps, ops): &(Vec<P>, Vec<Op>), o: &mut Obs) -> Res {
    let d = Dir::new();
    let begin = init(&d)?;
    // first what the cases pick from, then each as it is in the store
    let mut pks = build(ps);
    let n = pks.len();
    let mut db = Db::default();
    let (mut asked, mut answered, mut olds) = (0, 0, 0);
    let mut put = |pks: &mut Vec<Pk>, db: &mut Db, p: Pk| -> bool {
        pks.push(p);
        let i = pks.len() - 1;
        let new = db.save(pks, &[(i, true)], db.last() + 1)[0] == Some(true);
        if !new {
            pks.pop();
        }
        new
    };
    for p in begin {
        put(&mut pks, &mut db, p);
    }
    for (at, op) in ops.iter().enumerate() {
        let what = |args: &[String]| format!("step {at}: lk {args:?}");
        match op {
            Op::Save { sel, hop, new, old, fwd, file, broken } => {
                let picked = pick(&pks[..n], sel);
                let mut args = a(&["--private"]);
                if let Some(h) = hop {
                    args.extend(a(&["--hop", &h.to_string()]));
                }
                args.push("save".into());
                if let Some(l) = new {
                    args.extend(a(&["--new", "db"]));
                    args.extend(dest_args("--new", &Some(l.clone()), &d));
                }
                args.extend(dest_args("--old", old, &d));
                if *fwd {
                    args.push("--forward-stdout".into());
                }
                let bad = broken.filter(|_| !picked.is_empty()).map(|b| b.0 as usize % picked.len());
                let mut input = vec![];
                for (i, p) in picked.iter().enumerate() {
                    let mut w = p.wire.clone();
                    if Some(i) == bad {
                        dent(&mut w, broken.unwrap().1, at as u8)
                    }
                    input.extend(w);
                }
                let stored: Vec<Pk> = picked.iter().take(bad.unwrap_or(picked.len())).map(|p| if hop.unwrap_or(true) { hopped(p) } else { again(p, p.m.h) }).collect();
                if *file {
                    args.extend(a(&["--pkts", &d.file("in", &input)]));
                    input = vec![];
                }
                let r = lk(&d, &args, &input)?;
                ensure_eq!(r.ok, bad.is_none(), "{}: {}", what(&args), r.err);
                let mut s = Sinks::default();
                for p in stored {
                    let wire = p.wire.clone();
                    let is_new = put(&mut pks, &mut db, p);
                    olds += !is_new as usize;
                    s.write((if is_new { new } else { old }).as_deref().unwrap_or(&[]), &wire);
                    if *fwd {
                        s.write(&[Dest::Stdout], &wire);
                    }
                }
                s.check(&what(&args), &d, &r.out)?;
                o.class_if(bad.is_some(), "a broken packet in the stream");
            }
            Op::Make { i, style, both } => {
                if n == 0 {
                    continue;
                }
                let p = &pks[*i as usize % n];
                if p.m.kind == Kind::Error || (p.m.kind == Kind::Data && p.m.data.is_empty()) {
                    continue;
                }
                let m = M { h: head0(), ..p.m.clone() };
                let mut args = a(&[if p.m.kind == Kind::Data { "data" } else { "point" }, "--write", "db"]);
                if *both {
                    args.extend(a(&["--write", "stdout"]));
                }
                if p.m.kind == Kind::Data {
                    args.push("--data-stdin".into());
                } else {
                    if !m.data.is_empty() {
                        args.push("--data-stdin".into());
                    }
                    args.extend(point_args(&m, style / 2 * 2));
                }
                let out = good(&d, &args, &m.data)?;
                let p = pk(m);
                ensure!(out == if *both { p.wire.clone() } else { vec![] }, "{}: wrote {:?}, want {:?}", what(&args), split("", &out), p.m);
                put(&mut pks, &mut db, p);
                o.class("made into the store");
            }
            Op::Import { sel, broken } => {
                let picked: Vec<Pk> = pick(&pks[..n], sel).into_iter().map(|p| again(p, p.m.h)).collect();
                let mut f = vec![];
                let bad = broken.filter(|_| !picked.is_empty()).map(|b| b as usize % picked.len());
                for (i, p) in picked.iter().enumerate() {
                    let mut w = p.wire.clone();
                    if bad == Some(i) {
                        dent(&mut w, broken.unwrap(), at as u8)
                    }
                    f.extend(w);
                }
                // an empty file can not be mapped
                if f.is_empty() {
                    continue;
                }
                let args = a(&["db-import", &d.file("import", &f)]);
                let r = lk(&d, &args, &[])?;
                ensure_eq!(r.ok, bad.is_none(), "{}: {}", what(&args), r.err);
                if bad.is_none() {
                    let mut want = String::new();
                    let k = picked.len();
                    for p in picked {
                        let h = b64(&p.hash);
                        let w = put(&mut pks, &mut db, p);
                        want += &format!("{h} {}\n", if w { "Written" } else { "Exists" });
                    }
                    let out = String::from_utf8_lossy(&r.out).into_owned();
                    ensure!(out.starts_with(&want) && out[want.len()..].starts_with(&format!("read {k} ")), "{}: printed {out:?}, want {want:?}", what(&args));
                }
                o.class("imported");
            }
            Op::Watch { form, asc, q, w } => {
                let mut q = q.clone();
                q.alias.db_only = true;
                q.alias.new_only = false;
                let b = q.build(&pks, &db, true);
                let order = if *asc { Order::Asc } else { Order::Desc };
                let mut args = a(&["--private"]);
                let mode = match form % 8 {
                    0 => {
                        args.push("watch-log".into());
                        Mode { table: Table::Log, order }
                    }
                    1 => {
                        args.push("watch-tree".into());
                        Mode { table: Table::Tree, order }
                    }
                    2 => {
                        args.push("watch".into());
                        modes()[0]
                    }
                    f => {
                        args.extend(a(&["watch", "--mode", &modes()[f as usize % 6].to_string()]));
                        modes()[f as usize % 6]
                    }
                };
                if form % 8 < 2 && *asc {
                    args.push("--asc".into());
                }
                args.extend(dest_args("--write", w, &d));
                args.extend(b.args.iter().cloned());
                let r = lk_env(&d, &args, &[], &b.env())?;
                if b.none {
                    ensure!(!r.ok && r.out.is_empty(), "{}: contradicting statements: {:?}", what(&args), split("", &r.out));
                    continue;
                }
                let (want, _) = answer(&b.m, mode, &pks, &db, 0);
                let mut s = Sinks::default();
                for (_, i) in &want {
                    s.write(w.as_deref().unwrap_or(&[Dest::Stdout]), &pks[*i].wire);
                }
                ensure!(r.ok || want.is_empty(), "{} failed: {}", what(&args), r.err);
                s.check(&what(&args), &d, &r.out)?;
                asked += (db.log.len() > 1 && want.len() < db.log.len()) as usize;
                answered += !want.is_empty() as usize;
            }
            Op::Hash { i, style } => {
                if n == 0 {
                    continue;
                }
                let h = pks[*i as usize % n].hash;
                let args = a(&["--private", "watch-hash", &Some(hash_text(&h, *style)).filter(|t| !t.starts_with('-')).unwrap_or(hash_text(&h, 1)), "--db-only"]);
                let r = lk(&d, &args, &[])?;
                let mut m = crate::d2::Mod::default();
                m.add(&crate::d2::St::Num(crate::d2::fidx("hash"), crate::d2::Op::T(linkspace_core::predicate::TestOp::Equal), h.to_vec()));
                let want: Vec<u8> = answer(&m, modes()[4], &pks, &db, 0).0.iter().flat_map(|l| pks[l.1].wire.clone()).collect();
                ensure!(pks[*i as usize % n].m.kind == Kind::Error || want.is_empty() != db.by_hash.contains_key(&h), "the model is off");
                ensure!(r.out == want, "{}: got {:?}, want {:?}", what(&args), split("", &r.out)?.len(), want.len());
                ensure!(r.ok || want.is_empty(), "{} failed: {}", what(&args), r.err);
                o.class_if(!want.is_empty(), "found by hash");
            }
            Op::Filter { sel, q } => {
                // reading a stream saves nothing
                let b = q.build(&pks, &db, true);
                let mut args = a(&["--private", "filter"]);
                args.extend(b.args.iter().cloned());
                lk_env(&d, &args, &stream(pick(&pks[..n], sel)), &b.env())?;
            }
        }
        wipe(&d);
    }
    o.nontrivial(asked > 0 && answered > 0);
    o.class_if(olds > 0, "known ones saved again");
    Ok(())
}

// ------------------------------------------------------------------ rewrite
#[derive(Clone, Debug)]
struct Rw {
    mode: u8,
    key: u8,
    group: Option<u8>,
    domain: Option<u8>,
    space: Option<u8>,
    create: Option<u8>,
    data: Option<u8>,
    w: Option<Vec<Dest>>,
    f: Option<Vec<Dest>>,
    hop: bool,
}
fn rw() -> BoxedStrategy<(Vec<P>, Rw)> {
    let n = || proptest::option::of(0u8..6);
    let r = (0u8..4, 0u8..4, n(), n(), n(), n(), proptest::option::weighted(0.3, 0u8..4), dests(3), dests(3), any::<bool>()).prop_map(|(mode, key, group, domain, space, create, data, w, f, hop)| Rw { mode, key, group, domain, space, create, data, w, f, hop });
    (pool(10), r).boxed()
}
fn rewrite((ps, c): &(Vec<P>, Rw), o: &mut Obs) -> Res {
    let d = Dir::new();
    let mut pks = build(ps);
    pks.retain(|p| p.m.kind != Kind::Error);
    let mut args = a(&["--private", "--hop", &c.hop.to_string(), "rewrite"]);
    args.push(["sign-all", "unsign", "skip", "resign"][c.mode as usize].into());
    args.extend(key_args(c.key));
    let base = pks.first().map(|p| p.m.clone());
    match c.group {
        Some(0) => args.extend(a(&["--group", "[hash]"])),
        Some(i) => args.extend(a(&["--group", &hash_text(&[i; 32], i)])),
        None => {}
    }
    match c.domain {
        Some(0) => args.extend(a(&["--domain", "[data_size:str]"])),
        Some(i) => args.extend(a(&["--domain", &domain_text(&[i + 64; 16], i)])),
        None => {}
    }
    match c.space {
        Some(0) => args.extend(a(&["--space", "/x/[hash]"])),
        Some(1) => args.extend(a(&["--space", ""])),
        Some(2) => args.extend(a(&["--space", "/[group]/[hash:str]"])),
        Some(i) => args.extend(a(&["--space", &space_text(&vec![vec![i; 3]; i as usize], i)])),
        None => {}
    }
    match c.create {
        Some(0) => args.extend(a(&["--create", "[create]"])),
        Some(1) => args.extend(a(&["--create", "[links_len:str]0000000"])),
        Some(i) => args.extend(a(&["--create", &format!("[u64:{}]", i as u64 * 1000)])),
        None => {}
    }
    match c.data {
        Some(0) => args.extend(a(&["--interpret-data", "--data-str", "same", "--data-repeat"])),
        Some(1) => args.extend(a(&["--interpret-data", "--data-str", "[hash:str] [data]", "--data-eval", "--data-repeat"])),
        Some(2) => args.extend(a(&["--interpret-data"])),
        Some(_) => args.extend(a(&["--interpret-data", "--data", &d.file("lines", b"a\nbc\n\nd\ne\nf\ng\nh\ni\nj\nk\nl\n\n\nm\n"), "--data-delim", "\\n"])),
        None => {}
    }
    args.extend(dest_args("--write", &c.w, &d));
    args.extend(dest_args("--forward", &c.f, &d));
    let _ = base;
    let lines: Vec<&[u8]> = vec![b"a", b"bc", b"", b"d", b"e", b"f", b"g", b"h", b"i", b"j", b"k", b"l", b"", b"", b"m"];
    let mut line = 0;
    let mut s = Sinks::default();
    let (mut changed, mut resigned, mut unsigned) = (0, 0, 0);
    let mut fails = false;
    for p in &pks {
        let p = &if c.hop { hopped(p) } else { again(p, p.m.h) };
        let signed = matches!(p.m.kind, Kind::Key(_));
        let kind = match (p.m.kind, c.mode) {
            (Kind::Data, _) => None,
            (Kind::Key(_), 2) => None,
            (_, 0) => Some(Kind::Key(c.key)),
            (Kind::Key(_), 3) => Some(Kind::Key(c.key)),
            _ => Some(Kind::Link),
        };
        let out = match kind {
            None => again(p, p.m.h),
            Some(kind) => {
                let mut m = M { kind, h: head0(), ..p.m.clone() };
                match c.group {
                    Some(0) => m.group = p.hash,
                    Some(i) => m.group = [i; 32],
                    None => {}
                }
                match c.domain {
                    Some(0) => {
                        let t = p.m.data.len().to_string();
                        m.domain = [0; 16];
                        m.domain[16 - t.len()..].copy_from_slice(t.as_bytes());
                    }
                    Some(i) => m.domain = [i + 64; 16],
                    None => {}
                }
                match c.space {
                    Some(0) => m.comps = vec![b"x".to_vec(), p.hash.to_vec()],
                    Some(1) => m.comps = vec![],
                    Some(2) => m.comps = vec![p.m.group.to_vec(), b64(&p.hash).into_bytes()],
                    Some(i) => m.comps = vec![vec![i; 3]; i as usize],
                    None => {}
                }
                match c.create {
                    Some(0) | None => {}
                    Some(1) => m.stamp = u64::from_be_bytes(format!("{}0000000", p.m.links.len()).as_bytes().try_into().unwrap()),
                    Some(i) => m.stamp = i as u64 * 1000,
                }
                match c.data {
                    Some(0) => m.data = b"same".to_vec(),
                    Some(1) => m.data = [b64(&p.hash).as_bytes(), b" ", &p.m.data].concat(),
                    Some(2) => m.data = vec![],
                    Some(_) => {
                        let Some(l) = lines.get(line) else {
                            fails = true;
                            break;
                        };
                        line += 1;
                        m.data = l.to_vec()
                    }
                    None => {}
                }
                resigned += matches!(kind, Kind::Key(_)) as usize;
                unsigned += (signed && kind == Kind::Link) as usize;
                changed += 1;
                pk(m)
            }
        };
        s.write(c.w.as_deref().unwrap_or(&[Dest::Stdout]), &out.wire);
        s.write(c.f.as_deref().unwrap_or(&[]), &p.wire);
    }
    let r = lk(&d, &args, &stream(&pks))?;
    ensure_eq!(r.ok, !fails, "lk {args:?}: {}", r.err);
    s.check(&format!("lk {args:?}"), &d, &r.out)?;
    o.nontrivial(changed > 0);
    o.class_if(resigned > 0, "signed");
    o.class_if(unsigned > 0, "no longer signed");
    o.class_if(changed > 0 && c.data.is_some(), "other data");
    o.class_if(changed > 0 && (c.group == Some(0) || c.space == Some(0)), "fields out of the packet");
    Ok(())
}

// ------------------------------------------------------------------ collect
#[derive(Clone, Debug)]
struct Co {
    m: M,
    style: u8,
    tag: u8,
    chain: Option<u8>,
    init: u8,
    max: Option<u8>,
    data: bool,
    interval: bool,
    db: bool,
    f: u8,
    w: u8,
    hop: bool,
}
fn co() -> BoxedStrategy<(Vec<P>, Co)> {
    let m = model::small().prop_map(|mut m| {
        if !m.is_linked() {
            m.kind = Kind::Link
        }
        m.h = head0();
        m.links.truncate(3);
        m
    });
    let c = (m, any::<u8>(), 0u8..4, proptest::option::of(0u8..3), 0u8..3, prop_oneof![1 => Just(None), 4 => (0u8..6).prop_map(Some)], any::<bool>(), proptest::bool::weighted(0.2), proptest::bool::weighted(0.2), (0u8..4, 0u8..4, any::<bool>()))
        .prop_map(|(m, style, tag, chain, init, max, data, interval, db, (f, w, hop))| Co { m, style, tag, chain, init, max, data, interval, db, f, w, hop });
    (pool(14), c).boxed()
}
fn collect((ps, c): &(Vec<P>, Co), o: &mut Obs) -> Res {
    let d = Dir::new();
    let pks = build(ps);
    let mut args = a(&["--private", "--hop", &c.hop.to_string(), "collect"]);
    let tag = |t: &str| {
        let mut b = [0; 16];
        b[16 - t.len()..].copy_from_slice(t.as_bytes());
        b
    };
    args.extend(a(&["--collect-tag", ["abc", "[a:xyz]", "[data_size:str]", "[size:str]"][c.tag as usize]]));
    if let Some(t) = c.chain {
        args.extend(a(&["--chain-tag", ["prev", "[data_size:str]", "[links_len:str]"][t as usize]]));
    }
    let first: Vec<([u8; 16], [u8; 32])> = (0..c.init).map(|i| (tag(&format!("i{i}")), [i + 1; 32])).collect();
    for l in &first {
        args.extend(a(&["--init-link", &link_text(l, c.style)]));
    }
    if let Some(n) = c.max {
        args.extend(a(&["--max-links", &n.to_string()]));
    }
    if c.interval {
        args.extend(a(&["--min-interval", "2h"]));
    }
    let place = |i: u8| [Dest::Stdout, Dest::File(0), Dest::Null, Dest::Stdout][i as usize];
    // the last one: held back until a point is made
    let held = c.f == 3;
    if held {
        args.extend(a(&["--forward", "buffer"]));
    } else if c.f != 0 || c.style % 2 == 0 {
        args.extend(dest_args("--forward", &Some(vec![place(c.f)]), &d));
    }
    if c.w != 0 || c.style % 3 == 0 {
        args.extend(dest_args("--write", &Some(vec![place(c.w)]), &d));
    }
    let mut begin = vec![];
    if c.db {
        begin = init(&d)?;
        args.extend(a(&["--write", "db"]));
        if c.w == 0 && c.style % 3 != 0 {
            args.extend(a(&["--write", "stdout"]));
        }
    }
    if c.data {
        args.extend(a(&["--data-str", "some data", "--data-repeat"]));
    }
    let mut m = c.m.clone();
    m.data = if c.data { b"some data".to_vec() } else { vec![] };
    let mut pa = point_args(&m, c.style);
    if matches!(m.kind, Kind::Key(_)) && !pa.contains(&"--sign".to_string()) {
        pa.insert(0, "--sign".into());
    }
    args.extend(pa);
    let r = lk(&d, &args, &stream(&pks))?;
    ensure!(r.ok, "lk {args:?} failed: {}", r.err);

    let mut s = Sinks::default();
    let mut links: Vec<_> = first.iter().chain(&m.links).cloned().collect();
    let mut held_back = vec![];
    let mut made: Vec<Pk> = vec![];
    let mut n = 0;
    let mut point = |links: &mut Vec<_>, s: &mut Sinks, held_back: &mut Vec<u8>| {
        let p = pk(M { links: std::mem::take(links), ..m.clone() });
        s.write(&[place(c.w)], &p.wire);
        if let Some(t) = c.chain {
            let t = match t {
                0 => "prev".to_string(),
                1 => p.m.data.len().to_string(),
                _ => p.m.links.len().to_string(),
            };
            links.push((tag(&t), p.hash));
        }
        links.extend(m.links.iter().cloned());
        s.0.entry(100).or_default().extend(std::mem::take(held_back));
        made.push(p);
    };
    for p in &pks {
        let p = &if c.hop { hopped(p) } else { again(p, p.m.h) };
        let t = match c.tag {
            0 => "abc".to_string(),
            1 => "xyz".into(),
            2 => p.m.data.len().to_string(),
            _ => model::ref_read(&p.wire, false).unwrap().size.to_string(),
        };
        links.push((tag(&t), p.hash));
        n += 1;
        if held {
            held_back.extend(&p.wire)
        } else {
            s.write(&[place(c.f)], &p.wire);
        }
        if n >= c.max.unwrap_or(255) as usize {
            point(&mut links, &mut s, &mut held_back);
            n = 0;
        }
    }
    if !links.is_empty() {
        point(&mut links, &mut s, &mut held_back);
    }
    drop(point);
    s.check(&format!("lk {args:?}"), &d, &r.out)?;
    if c.db {
        let args = a(&["--private", "watch-log", "--asc", "--bare", "--db-only"]);
        let got = split("the store", &good(&d, &args, &[])?)?;
        let mut seen: Vec<[u8; 32]> = vec![];
        let want: Vec<Vec<u8>> = begin.iter().chain(&made).filter(|p| !seen.contains(&p.hash) && { seen.push(p.hash); true }).map(|p| p.wire.clone()).collect();
        ensure!(got == want, "lk {args:?}: {} points in the store, want {}", got.len(), want.len());
    }
    o.nontrivial(!pks.is_empty());
    o.class_if(made.len() > 1, "several points");
    o.class_if(made.len() > 1 && c.chain.is_some(), "a chain");
    o.class_if(held && !pks.is_empty(), "held back");
    o.class_if(c.interval, "with an interval");
    Ok(())
}

// ------------------------------------------------------------------ links
#[derive(Clone, Debug)]
struct Gl {
    stored: Vec<u8>,
    sent: Vec<u8>,
    mode: u8,
    rec: Option<u8>,
    f: Option<Vec<Dest>>,
    w: Option<Vec<Dest>>,
    hop: bool,
}
fn gl() -> BoxedStrategy<(Vec<P>, Gl)> {
    let c = (prop_oneof![1 => vec(0u8..24, 0..20), 1 => Just((0..24).collect::<Vec<u8>>())], vec(0u8..24, 0..6), 0u8..5, proptest::option::of(0u8..5), dests(3), dests(3), any::<bool>()).prop_map(|(stored, sent, mode, rec, f, w, hop)| Gl { stored, sent, mode, rec, f, w, hop });
    (pool(12), c).boxed()
}
struct Walk<'a> {
    by: HashMap<[u8; 32], &'a Pk>,
    w: Vec<Dest>,
    s: Sinks,
    n: usize,
    missing: usize,
    stop: bool,
    deep: bool,
}
impl<'a> Walk<'a> {
    /// false: it has to end here
    fn links(&mut self, p: &'a Pk, level: usize, depth: usize) -> bool {
        if !p.m.is_linked() {
            return true;
        }
        for l in &p.m.links {
            match self.by.get(&l.1).copied() {
                Some(t) => {
                    self.s.write(&self.w.clone(), &t.wire);
                    self.n += 1;
                    self.deep |= depth > 0;
                    if level > 0 && !self.links(t, level - 1, depth + 1) {
                        return false;
                    }
                }
                None => {
                    self.missing += 1;
                    if self.stop {
                        return false;
                    }
                }
            }
        }
        true
    }
}
fn get_links((ps, c): &(Vec<P>, Gl), o: &mut Obs) -> Res {
    let d = Dir::new();
    let begin = init(&d)?;
    let pks = build(ps);
    let stored = pick(&pks, &c.stored);
    good(&d, &a(&["--private", "--hop", "false", "save"]), &stream(stored.iter().copied()))?;
    let sent = pick(&pks, &c.sent);
    let mut args = a(&["--private", "--hop", &c.hop.to_string(), "get-links"]);
    let level = match c.rec {
        None => 0,
        Some(4) => {
            args.push("-R".into());
            usize::MAX
        }
        Some(n) => {
            args.extend(a(&["--recursive", &n.to_string()]));
            n as usize
        }
    };
    args.extend(dest_args("--forward", &c.f, &d));
    args.extend(dest_args("--write", &c.w, &d));
    let mut by: HashMap<[u8; 32], &Pk> = begin.iter().map(|p| (p.hash, p)).collect();
    for p in &stored {
        by.entry(p.hash).or_insert(p);
    }
    let stop = matches!(c.mode, 2 | 3);
    let mut k = Walk { by, w: c.w.clone().unwrap_or(vec![Dest::Stdout]), s: Sinks::default(), n: 0, missing: 0, stop, deep: false };
    let mut ok = true;
    for p in &sent {
        if !k.links(p, level, 0) {
            ok = false;
            break;
        }
        let h = if c.hop { hopped(p) } else { again(p, p.m.h) };
        k.s.write(c.f.as_deref().unwrap_or(&[Dest::Stdout]), &h.wire);
    }
    // waiting for what never comes is not tested
    let mode = if k.missing > 0 && c.mode == 4 { 0 } else { c.mode };
    args.push(["skip", "skip", "error", "error", "pause"][mode as usize].into());
    let r = lk(&d, &args, &stream(sent.iter().copied()))?;
    ensure_eq!(r.ok, ok, "lk {args:?}: {} links missing: {}", k.missing, r.err);
    k.s.check(&format!("lk {args:?}"), &d, &r.out)?;
    o.nontrivial(k.n > 0);
    o.class_if(k.n > 0 && k.missing > 0, "some are missing");
    o.class_if(k.deep, "links of links");
    o.class_if(!ok, "ended by a missing one");
    Ok(())
}

// ------------------------------------------------------------------ private
#[derive(Clone, Debug)]
struct Pv {
    cmd: u8,
    all: u8,
    read: Option<bool>,
    write: Option<bool>,
    sel: Vec<u8>,
    q: Qy,
    style: u8,
}
fn pv() -> BoxedStrategy<(Vec<P>, Pv)> {
    let b = || prop_oneof![4 => Just(None), 2 => Just(Some(true)), 1 => Just(Some(false))];
    let c = (0u8..10, 0u8..6, b(), b(), vec(0u8..24, 0..10), qs(2), any::<u8>()).prop_map(|(cmd, all, read, write, sel, q, style)| Pv { cmd, all, read, write, sel, q: Qy { short: None, alias: Default::default(), q, style }, style });
    (pool(12), c).boxed()
}
fn build_again(p: &[Pk]) -> Vec<Pk> {
    p.iter().map(|p| again(p, p.m.h)).collect()
}
fn is_private(p: &Pk) -> bool {
    p.m.is_linked() && p.m.group == [0; 32]
}
fn private((ps, c): &(Vec<P>, Pv), o: &mut Obs) -> Res {
    let d = Dir::new();
    let begin = init(&d)?;
    let mut pks = build(ps);
    pks.retain(|p| p.m.kind != Kind::Error);
    let mut env: Vec<(&str, &str)> = vec![];
    let mut args = a(&["--hop", "false"]);
    let all = match c.all {
        0 => {
            args.push("--private".into());
            true
        }
        1 => {
            env.push(("LK_PRIVATE", "true"));
            true
        }
        _ => false,
    };
    let t = |b: bool| if b { "true" } else { "false" };
    for (v, e, n) in [(c.read, "LK_PRIVATE_READ", "--private-read"), (c.write, "LK_PRIVATE_WRITE", "--private-write")] {
        match v {
            Some(v) if c.style % 2 == 0 => env.push((e, t(v))),
            Some(v) => args.extend(a(&[n, t(v)])),
            None => {}
        }
    }
    let (rp, wp) = if all { (true, Some(true)) } else { (c.read == Some(true), c.write) };
    let own = build_again(&pks);
    let picked = pick(&own, &c.sel);
    let hides = picked.iter().any(|p| is_private(p));
    // what a stream lets in
    let inp: Vec<&Pk> = picked.iter().copied().take_while(|p| rp || !is_private(p)).collect();
    let mut ok = inp.len() == picked.len();
    let mut want: Vec<Vec<u8>> = vec![];
    // one write; false: it fails
    let mut put = |p: &Pk| -> bool {
        match (is_private(p), wp) {
            (true, Some(false)) => return false,
            (true, None) => {}
            _ => want.push(p.wire.clone()),
        }
        true
    };
    let stored = |d: &Dir| -> Result<Vec<Vec<u8>>, Fail> {
        let all = a(&["--private", "watch-log", "--asc", "--bare", "--db-only"]);
        split("the store", &good(d, &all, &[])?)
    };
    let first = |it: Vec<&Pk>| {
        let mut seen: Vec<[u8; 32]> = vec![];
        let mut o: Vec<Vec<u8>> = vec![];
        for p in begin.iter().chain(it) {
            if !seen.contains(&p.hash) {
                seen.push(p.hash);
                o.push(p.wire.clone());
            }
        }
        o
    };
    let input = stream(picked.iter().copied());
    let run = |args: &[String], input: &[u8]| lk_env(&d, args, input, &env);
    let what = |args: &[String]| format!("{env:?} lk {args:?} on {:?}", picked.iter().map(|p| (p.m.kind, is_private(p))).collect::<Vec<_>>());
    match c.cmd {
        0 | 1 => {
            // into the store; and on
            args.extend(a(&["save", "--forward-stdout"]));
            let mut saved = vec![];
            for p in &inp {
                saved.push(*p);
                if !put(p) {
                    ok = false;
                    break;
                }
            }
            let r = run(&args, &input)?;
            ensure_eq!(r.ok, ok, "{}: {}", what(&args), r.err);
            ensure_eq!(split("save", &r.out)?, want, "{}", what(&args));
            ensure_eq!(stored(&d)?, first(saved), "{}: stored", what(&args));
        }
        2 => {
            args.extend(a(&["filter", "--bare", "--allow-datapoint"]));
            for p in &inp {
                if !put(p) {
                    ok = false;
                    break;
                }
            }
            let r = run(&args, &input)?;
            ensure_eq!(r.ok, ok, "{}: {}", what(&args), r.err);
            ensure_eq!(split("filter", &r.out)?, want, "{}", what(&args));
        }
        3 => {
            args.extend(a(&["rewrite", "skip"]));
            // a point made anew, out of each
            for p in &inp {
                let p = if p.m.kind == Kind::Link { pk(M { h: head0(), ..p.m.clone() }) } else { again(p, p.m.h) };
                if !put(&p) {
                    ok = false;
                    break;
                }
            }
            let r = run(&args, &input)?;
            ensure_eq!(r.ok, ok, "{}: {}", what(&args), r.err);
            ensure_eq!(split("rewrite", &r.out)?, want, "{}", what(&args));
        }
        4 => {
            // into the private group, and into the store
            args.extend(a(&["rewrite", "skip", "--group", "[#:0]", "--write", "db"]));
            let mut saved: Vec<Pk> = vec![];
            for p in &inp {
                let p = if p.m.kind == Kind::Link { pk(M { h: head0(), group: [0; 32], ..p.m.clone() }) } else { again(p, p.m.h) };
                match (is_private(&p), wp) {
                    (true, Some(false)) => {
                        ok = false;
                        break;
                    }
                    (true, None) => {}
                    _ => saved.push(p),
                }
            }
            let r = run(&args, &input)?;
            ensure_eq!(r.ok, ok, "{}: {}", what(&args), r.err);
            ensure_eq!(stored(&d)?, first(saved.iter().collect()), "{}: stored", what(&args));
        }
        5 => {
            // a point about the others, in the private group
            args.extend(a(&["collect", "--forward", "null", "--collect-tag", "x", "--create-int", "5", ":[#:0]:/a"]));
            let mut tag = [0; 16];
            tag[15] = b'x';
            let links: Vec<_> = inp.iter().map(|p| (tag, p.hash)).collect();
            let m = M { kind: Kind::Link, h: head0(), group: [0; 32], domain: [0; 16], stamp: 5, comps: vec![b"a".to_vec()], links, data: vec![] };
            if ok && !inp.is_empty() {
                ok = put(&pk(m));
            }
            let r = run(&args, &input)?;
            ensure_eq!(r.ok, ok, "{}: {}", what(&args), r.err);
            ensure_eq!(split("collect", &r.out)?, want, "{}", what(&args));
        }
        6 | 7 => {
            // links to the private group
            good(&d, &a(&["--private", "--hop", "false", "save"]), &stream(&pks))?;
            let by: BTreeMap<[u8; 32], &Pk> = pks.iter().rev().map(|p| (p.hash, p)).collect();
            let send: Vec<&Pk> = pks.iter().filter(|p| !is_private(p)).collect();
            args.extend(a(&["get-links", "skip"]));
            ok = true;
            if wp == Some(false) {
                // where a failed write ends it is not a question here
                let r = run(&args, &stream(send.iter().copied()))?;
                for w in split("get-links", &r.out)? {
                    ensure!(!model::ref_read(&w, false).is_ok_and(|v| v.is_private(&w)), "{}: a private point got out", what(&args));
                }
                return Ok(());
            }
            for p in send.iter() {
                if p.m.is_linked() {
                    for l in &p.m.links {
                        if let Some(t) = by.get(&l.1) {
                            put(t);
                        }
                    }
                }
                put(p);
            }
            let r = run(&args, &stream(send.iter().copied()))?;
            ensure_eq!(r.ok, ok, "{}: {}", what(&args), r.err);
            ensure_eq!(split("get-links", &r.out)?, want, "{}", what(&args));
            o.nontrivial(pks.iter().any(is_private));
            return Ok(());
        }
        _ => {
            // out of the store
            good(&d, &a(&["--private", "--hop", "false", "save"]), &stream(picked.iter().copied()))?;
            let mut db = Db::default();
            let (n, k) = (pks.len(), begin.len());
            pks.extend(build_again(&begin));
            db.save(&pks, &(n..n + k).map(|i| (i, true)).collect::<Vec<_>>(), 1);
            let idx: Vec<(usize, bool)> = c.sel.iter().filter(|_| n > 0).map(|i| (*i as usize % n, true)).collect();
            db.save(&pks, &idx, db.last() + 1);
            let mut q = c.q.clone();
            q.alias.db_only = true;
            let b = q.build(&pks, &db, true);
            if b.none {
                return Ok(());
            }
            args.extend(a(&["watch-log", "--asc"]));
            args.extend(b.args.iter().cloned());
            let (l, _) = answer(&b.m, Mode { table: Table::Log, order: Order::Asc }, &pks, &db, 0);
            let mut seen = false;
            let mut cut = false;
            for (_, i) in &l {
                seen |= is_private(&pks[*i]);
                if !put(&pks[*i]) {
                    cut = true;
                    break;
                }
            }
            let r = run(&args, &[])?;
            let _ = cut;
            ensure_eq!(split("watch", &r.out)?, want, "{}", what(&args));
            o.nontrivial(seen);
            o.class_if(seen && wp.is_none(), "kept back");
            return Ok(());
        }
    }
    o.nontrivial(hides || c.cmd == 5);
    o.class_if(hides && !rp, "not let in");
    o.class_if(hides && rp && wp != Some(true), "not let out");
    o.class_if(hides && rp && wp == Some(true), "allowed");
    Ok(())
}
trait Pr {
    fn is_private(&self, wire: &[u8]) -> bool;
}
impl Pr for model::View {
    fn is_private(&self, _w: &[u8]) -> bool {
        self.ty & 2 != 0 && self.group == [0; 32]
    }
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "M04",
            rule: "the store holds several packets, a query selects some of them, and not all",
            assumptions: SHIM,
            subs: vec![sub("store", 2_500, 80_000, ops, store)],
        },
        Property { id: "M06", rule: "at least one packet is made anew", assumptions: SHIM, subs: vec![sub("rewrite", 4_000, 120_000, rw, rewrite)] },
        Property { id: "M07", rule: "there is something to link to", assumptions: SHIM, subs: vec![sub("collect", 4_000, 120_000, co, collect)] },
        Property { id: "M08", rule: "at least one link is followed", assumptions: SHIM, subs: vec![sub("links", 3_000, 100_000, gl, get_links), crate::m7::late_sub()] },
        Property { id: "M10", rule: "there is something of the private group", assumptions: SHIM, subs: vec![sub("private", 4_000, 120_000, pv, private)] },
    ]
}
