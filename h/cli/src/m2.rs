//! Queries on the command line, and the programs between two pipes.
use linkspace_pkt::NetPkt as _;
use crate::d2::{fidx, text, Mod, Op, St, FIELDS};
use crate::d3::W;
use crate::d4::{modes, pool, qs, Db, Pk, P, Q};
use crate::model::{self, H};
use crate::run::*;
use fw::*;
use linkspace_core::predicate::TestOp;
use linkspace_core::prelude::{Query, CORE_SCOPE};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::BTreeMap;

/// packets of which the links point at earlier ones
pub fn build(ps: &[P]) -> Vec<Pk> {
    let mut out: Vec<Pk> = vec![];
    for (i, p) in ps.iter().enumerate() {
        let mut m = p.m();
        let n = m.data.len();
        for (j, l) in m.links.iter_mut().enumerate() {
            if i > 0 && (n + j) % 4 != 0 {
                l.1 = out[(n + 3 * j) % i].hash;
            }
        }
        let wire = m.wire();
        let built = m.with(|n| n.as_netbox()).expect("a small packet");
        out.push(Pk { hash: wire[32..64].try_into().unwrap(), wire, built, m })
    }
    out
}
pub fn stream<'a>(pks: impl IntoIterator<Item = &'a Pk>) -> Vec<u8> {
    pks.into_iter().flat_map(|p| p.wire.clone()).collect()
}

// ------------------------------------------------------------------ queries as arguments
#[derive(Clone, Debug)]
pub struct Short {
    pub base: u8,
    /// how much of its space, and whether that is the space of another packet
    len: u8,
    depth: Option<u8>,
    style: u8,
    env: u8,
}
#[derive(Clone, Debug, Default)]
pub struct Alias {
    signed: Option<bool>,
    max: Option<u8>,
    branch: Option<u8>,
    index: Option<u8>,
    new: Option<u8>,
    pub db_only: bool,
    pub new_only: bool,
}
#[derive(Clone, Debug)]
pub struct Qy {
    pub short: Option<Short>,
    pub alias: Alias,
    pub q: Vec<Q>,
    pub style: u8,
}
pub fn qy() -> BoxedStrategy<Qy> {
    let short = (any::<u8>(), prop_oneof![3 => Just(255u8), 2 => any::<u8>()], proptest::option::weighted(0.7, 0u8..12), any::<u8>(), any::<u8>()).prop_map(|(base, len, depth, style, env)| Short { base, len, depth, style, env });
    let n = || proptest::option::weighted(0.15, 0u8..5);
    let alias = (proptest::option::weighted(0.25, any::<bool>()), n(), n(), n(), n(), prop_oneof![20 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]).prop_map(|(signed, max, branch, index, new, o)| Alias { signed, max, branch, index, new, db_only: o == 1, new_only: o == 2 });
    (proptest::option::weighted(0.75, short), prop_oneof![1 => Just(Alias::default()), 2 => alias], qs(4), any::<u8>()).prop_map(|(short, alias, q, style)| Qy { short, alias, q, style }).boxed()
}
pub struct Built {
    pub args: Vec<String>,
    pub exprs: Vec<String>,
    pub m: Mod,
    /// the statements contradict each other
    pub none: bool,
    pub env: Vec<(&'static str, String)>,
}
impl Qy {
    pub fn build(&self, pks: &[Pk], db: &Db, limits: bool) -> Built {
        let mut m = Mod::default();
        let mut args = vec![];
        let mut env = vec![];
        let eq = Op::T(TestOp::Equal);
        let mut none = false;
        let mut add = |m: &mut Mod, s: St| {
            assert!(m.add(&s), "{s:?}");
            none |= !m.valid();
        };
        let num = |n: &str, op: Op, v: u32| St::Num(fidx(n), op, v.to_be_bytes()[4 - FIELDS[fidx(n)].1..].to_vec());
        match (&self.short, pks.len()) {
            (Some(s), 1..) => {
                let p = &pks[s.base as usize % pks.len()].m;
                let c = &p.comps[..p.comps.len().min(s.len as usize)];
                let mut dt = domain_text(&p.domain, s.style);
                let mut gt = hash_text(&p.group, s.style / 3);
                if s.env & 3 == 3 {
                    env.push(("LK_DOMAIN", std::mem::take(&mut dt)));
                }
                if s.env & 12 == 12 {
                    env.push(("LK_GROUP", std::mem::take(&mut gt)));
                }
                let mut t = format!("{dt}:{gt}:{}", space_text(c, s.style / 9));
                if p.is_linked() {
                    add(&mut m, St::Num(fidx("domain"), eq, p.domain.to_vec()));
                    add(&mut m, St::Num(fidx("group"), eq, p.group.to_vec()));
                } else {
                    // a point without these: what its packet says is not in the model
                    add(&mut m, St::Num(fidx("domain"), eq, p.domain.to_vec()));
                    add(&mut m, St::Num(fidx("group"), eq, p.group.to_vec()));
                }
                if !c.is_empty() {
                    add(&mut m, St::Prefix(eq, c.to_vec()));
                }
                let depth = match s.depth {
                    None => 0,
                    Some(n @ 0..=8) => {
                        t += &format!(":{n}");
                        n
                    }
                    Some(9) => {
                        t += ":*";
                        1
                    }
                    Some(_) => {
                        t += ":**";
                        8
                    }
                };
                if depth < 8 && c.len() + (depth as usize) < 8 {
                    add(&mut m, num("depth", Op::T(TestOp::Less), c.len() as u32 + depth as u32 + 1));
                } else if depth < 8 {
                    add(&mut m, num("depth", Op::T(TestOp::Less), 9));
                }
                args.push(t);
            }
            _ => args.push("--bare".into()),
        }
        let x = &self.alias;
        match x.signed {
            Some(true) => {
                args.push("--signed".into());
                add(&mut m, St::Num(0, Op::T(TestOp::Mask1), vec![4]));
            }
            Some(false) => {
                args.push("--unsigned".into());
                add(&mut m, St::Num(0, Op::T(TestOp::Mask0), vec![!4]));
            }
            None => {}
        }
        for (v, n, f) in [(x.max, "--max", "i"), (x.branch, "--max-branch", "i_branch"), (x.index, "--max-index", "i_db"), (x.new, "--max-new", "i_new")] {
            if let (Some(v), true) = (v, limits) {
                args.extend(a(&[n, &v.to_string()]));
                add(&mut m, num(f, Op::T(TestOp::Less), v as u32));
            }
        }
        if limits && x.db_only {
            args.push(["--db-only", "--no-new"][self.style as usize % 2].into());
            add(&mut m, num("i_new", Op::T(TestOp::Less), 0));
        }
        if limits && x.new_only {
            args.push(["--new-only", "--no-index"][self.style as usize % 2].into());
            add(&mut m, num("i_db", Op::T(TestOp::Less), 0));
        }
        let mut exprs = vec![];
        for (i, q) in self.q.iter().enumerate() {
            let s = q.st(pks, db);
            if let St::Num(f, ..) = &s {
                let f = FIELDS[*f].0;
                if f == "recv" || (!limits && f.starts_with('i')) {
                    continue;
                }
            }
            let mut m2 = m.clone();
            // contradictions are one thing to look at, statements that are none another
            if !m2.add(&s) || m2.loose != 0 || (!m2.valid() && (self.style as usize + i) % 4 != 0) {
                continue;
            }
            none |= !m2.valid();
            m = m2;
            exprs.push(text(&s, self.style.wrapping_add(i as u8)));
        }
        if !exprs.is_empty() {
            args.push("--".into());
            args.extend(exprs.iter().cloned());
        }
        Built { args, exprs, m, none, env }
    }
}
impl Built {
    pub fn env(&self) -> Vec<(&'static str, &str)> {
        self.env.iter().map(|e| (e.0, e.1.as_str())).collect()
    }
}

// ------------------------------------------------------------------ destinations
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dest {
    Stdout,
    StdoutExpr,
    File(u8),
    FileExpr(u8),
    Null,
}
pub fn dests(max: usize) -> BoxedStrategy<Option<Vec<Dest>>> {
    let one = prop_oneof![3 => Just(Dest::Stdout), 1 => Just(Dest::StdoutExpr), 3 => (0u8..3).prop_map(Dest::File), 1 => (0u8..3).prop_map(Dest::FileExpr), 1 => Just(Dest::Null)];
    proptest::option::weighted(0.7, vec(one, 1..max)).boxed()
}
/// what is where
#[derive(Default)]
pub struct Sinks(pub BTreeMap<u8, Vec<u8>>);
const OUT: u8 = 100;
impl Dest {
    pub fn arg(self, d: &Dir) -> String {
        // an expression of the file's name, too
        match self {
            Dest::Stdout => "stdout".into(),
            Dest::StdoutExpr => "stdout-expr:[hash:str]\\n".into(),
            Dest::File(i) => format!("file:{}", d.path(&format!("f{i}"))),
            Dest::FileExpr(i) => format!("file-expr:[/:{}]:[hash:str]\\n", d.path(&format!("f{i}"))).replace("[/:", "").replace("]:[hash", ":[hash"),
            Dest::Null => "null".into(),
        }
    }
}
pub fn dest_args(name: &str, l: &Option<Vec<Dest>>, d: &Dir) -> Vec<String> {
    l.iter().flatten().flat_map(|x| [name.to_string(), x.arg(d)]).collect()
}
impl Sinks {
    pub fn text(&mut self, t: &[u8]) {
        self.0.entry(OUT).or_default().extend(t)
    }
    pub fn write(&mut self, l: &[Dest], wire: &[u8]) {
        for x in l {
            let line = format!("{}\n", b64(&wire[32..64]));
            match x {
                Dest::Stdout => self.0.entry(OUT).or_default().extend(wire),
                Dest::StdoutExpr => self.0.entry(OUT).or_default().extend(line.as_bytes()),
                Dest::File(i) => self.0.entry(*i).or_default().extend(wire),
                Dest::FileExpr(i) => self.0.entry(*i).or_default().extend(line.as_bytes()),
                Dest::Null => {}
            }
        }
    }
    pub fn check(&self, what: &str, d: &Dir, out: &[u8]) -> Res {
        let none = vec![];
        let show = |b: &[u8]| match split("", b) {
            Ok(l) => format!("packets {:?}", l.iter().map(|w| b64(&w[32..64])[..6].to_string() + &format!("/hop {}", w[7])).collect::<Vec<_>>()),
            Err(_) => format!("{:?}", String::from_utf8_lossy(b)),
        };
        for (n, got) in [(OUT, out.to_vec())].into_iter().chain((0..3).map(|i| (i, d.read(&format!("f{i}"))))) {
            let want = self.0.get(&n).unwrap_or(&none);
            ensure!(&got == want, "{what}: {} got {}, want {}", if n == OUT { "stdout".into() } else { format!("f{n}") }, show(&got), show(want));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ filter
type FCase = (Vec<P>, Qy, Option<Vec<Dest>>, Option<Vec<Dest>>, (bool, bool, bool, bool, bool));
fn hopped(p: &Pk) -> Pk {
    let mut m = p.m.clone();
    m.h = H { hop: m.h.hop.saturating_add(1), ..m.h };
    let wire = m.wire();
    let built = m.with(|n| n.as_netbox()).expect("a small packet");
    Pk { hash: p.hash, wire, built, m }
}
fn filter((ps, q, w, f, (ignore, datapoints, hop, live, file)): &FCase, o: &mut Obs) -> Res {
    let d = Dir::new();
    let pks = build(ps);
    let mut db = Db::default();
    db.save(&pks, &(0..pks.len()).map(|i| (i, true)).collect::<Vec<_>>(), 1);
    let b = q.build(&pks, &db, true);
    let mut args = a(&["--private", "--hop", &hop.to_string(), if *ignore { "ignore" } else { "filter" }]);
    args.extend(dest_args("--write", w, &d));
    args.extend(dest_args("--write-false", f, &d));
    if *datapoints {
        args.push("--allow-datapoint".into());
    }
    if *live {
        args.push("--live".into());
    }
    let mut input = stream(&pks);
    if *file {
        args.extend(a(&["--pkts", &d.file("in", &input)]));
        input = vec![];
    }
    args.extend(b.args.iter().cloned());
    let r = lk_env(&d, &args, &input, &b.env())?;
    let mut e = W { m: b.m, new: 0, query: 0, tag: 0 };
    if b.none || !e.live() {
        ensure!(!r.ok, "lk {args:?}: a query that matches nothing is no error");
        o.class("nothing to match");
        return Ok(());
    }
    ensure!(r.ok, "lk {args:?} failed: {}", r.err);
    let (mut yes, mut no) = (w.clone().unwrap_or(vec![Dest::Stdout]), f.clone().unwrap_or(vec![Dest::Null]));
    if *ignore {
        std::mem::swap(&mut yes, &mut no);
    }
    let mut s = Sinks::default();
    let (mut hits, mut seen) = (0, 0);
    for p in &pks {
        let h = hopped(p);
        let p = if *hop { &h } else { p };
        seen += 1;
        if *datapoints && p.m.kind == model::Kind::Data {
            s.write(&yes, &p.wire);
            continue;
        }
        let (ok, must, may) = e.step(p, 5);
        hits += ok as usize;
        s.write(if ok { &yes } else { &no }, &p.wire);
        if must {
            break;
        }
        if may {
            o.class("left open when it ends");
            return Ok(());
        }
    }
    s.check(&format!("lk {args:?}"), &d, &r.out)?;
    o.nontrivial(hits > 0 && hits < pks.len());
    o.class_if(hits > 0 && q.short.is_some(), "short form with matches");
    o.class_if(seen < pks.len(), "ended early");
    o.class_if(*ignore && hits > 0, "ignored");
    o.class_if(w.as_ref().is_some_and(|w| w.len() > 1) && hits > 0, "several destinations");
    Ok(())
}
// ------------------------------------------------------------------ dedup
fn dedup((ps, order, cap, w): &(Vec<P>, Vec<u8>, u16, Option<Vec<Dest>>), o: &mut Obs) -> Res {
    let d = Dir::new();
    let pks = build(ps);
    if pks.is_empty() {
        return Ok(());
    }
    let seq: Vec<usize> = order.iter().map(|i| *i as usize % pks.len()).collect();
    let mut args = a(&["--hop", "false", "dedup", "--capacity", &cap.to_string()]);
    args.extend(dest_args("--write", w, &d));
    let input = stream(seq.iter().map(|i| &pks[*i]));
    let r = lk(&d, &args, &input)?;
    ensure!(r.ok, "lk {args:?} failed: {}", r.err);
    if w.is_some() {
        return Ok(());
    }
    let got = split("dedup", &r.out)?;
    // what is left out was there before; and a repetition of the one before is left out
    let mut at = 0;
    let mut before: Vec<[u8; 32]> = vec![];
    let mut dropped = 0;
    for i in &seq {
        let p = &pks[*i];
        let kept = got.get(at).is_some_and(|g| g[..] == p.wire[..]);
        let known = before.contains(&p.hash);
        if before.last() == Some(&p.hash) && *cap > 0 {
            // not forwarded; the next output belongs to something later
            dropped += 1;
            continue;
        }
        if kept {
            at += 1;
        } else {
            ensure!(known, "lk {args:?}: packet {i} is lost the first time");
            ensure!(*cap > 0, "lk {args:?}: a packet is dropped with no capacity");
            dropped += 1;
        }
        before.push(p.hash);
    }
    ensure_eq!(at, got.len(), "lk {args:?}: outputs out of {} packets", seq.len());
    o.nontrivial(dropped > 0 && !got.is_empty());
    o.class_if(*cap == 0, "no capacity");
    Ok(())
}
// ------------------------------------------------------------------ route
#[derive(Clone, Debug)]
enum Set {
    Hop(u32),
    Stamp(u64),
    Flags(u8),
    Ubits(u8, u32),
}
fn route((ps, sets, file): &(Vec<P>, Vec<Set>, bool), o: &mut Obs) -> Res {
    let d = Dir::new();
    let pks = build(ps);
    let mut args = a(&["--hop", "false", "route"]);
    let mut input = stream(&pks);
    if *file {
        args.extend(a(&["--pkts", &d.file("in", &input)]));
        input = vec![];
    }
    let mut want = vec![];
    for s in sets {
        args.push(match s {
            Set::Hop(n) => format!("hop:=:[u32:{n}]"),
            Set::Stamp(n) => format!("stamp:=:[u64:{n}]"),
            Set::Flags(n) => format!("netflags:=:[b2:{n:08b}]"),
            Set::Ubits(i, n) => format!("ubits{}:=:[u32:{n}]", i % 4),
        });
    }
    for p in &pks {
        let mut m = p.m.clone();
        for s in sets {
            match s {
                Set::Hop(n) => m.h.hop = *n,
                Set::Stamp(n) => m.h.stamp = *n,
                Set::Flags(n) => m.h.flags = *n,
                Set::Ubits(i, n) => m.h.ubits[*i as usize % 4] = *n,
            }
        }
        want.push(m.wire());
    }
    let r = lk(&d, &args, &input)?;
    // the same field twice with different values is not settled
    let key = |s: &Set| match s {
        Set::Hop(_) => 0,
        Set::Stamp(_) => 1,
        Set::Flags(_) => 2,
        Set::Ubits(i, _) => 3 + i % 4,
    };
    let mut keys: Vec<u8> = sets.iter().map(key).collect();
    keys.sort();
    keys.dedup();
    ensure!(r.ok, "lk {args:?} failed: {}", r.err);
    let got = split("route", &r.out)?;
    ensure_eq!(got.len(), want.len(), "lk {args:?}: packets");
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(point(g) == point(w), "lk {args:?}: packet {i} is another point");
        if keys.len() == sets.len() {
            ensure_eq!(g[..32], w[..32], "lk {args:?}: header of packet {i}");
        }
    }
    o.nontrivial(!pks.is_empty() && !sets.is_empty());
    Ok(())
}
// ------------------------------------------------------------------ printed queries
fn print((ps, q, mode, txt, cmd): &(Vec<P>, Qy, Option<u8>, bool, bool), o: &mut Obs) -> Res {
    let d = Dir::new();
    let pks = build(ps);
    let mut db = Db::default();
    db.save(&pks, &(0..pks.len()).map(|i| (i, true)).collect::<Vec<_>>(), 1);
    let b = q.build(&pks, &db, true);
    let mut args = a(&[if *cmd { "print-query" } else { "watch" }]);
    args.push(if *txt { "--print-text".into() } else { "--print-expr".to_string() });
    if let Some(m) = mode {
        args.extend(a(&["--mode", &modes()[*m as usize % 6].to_string()]));
    }
    args.extend(b.args.iter().cloned());
    let r = lk_env(&d, &args, &[], &b.env())?;
    if b.none {
        ensure!(!r.ok, "lk {args:?}: contradicting statements are printed: {}", String::from_utf8_lossy(&r.out));
        o.class("nothing to match");
        return Ok(());
    }
    ensure!(r.ok, "lk {args:?} failed: {}", r.err);
    if *cmd && !*txt {
        // it is the default
        args.remove(1);
        let again = lk_env(&d, &args, &[], &b.env())?;
        if !r.out.windows(7).any(|w| w == b"create:") {
            ensure!(again.out == r.out, "lk {args:?}: another query than with --print-expr: {}", again.err);
        }
    }
    let txt = String::from_utf8(r.out).map_err(|e| Fail::from(format!("lk {args:?}: {e}")))?;
    if args.iter().any(|a| a == "--print-text") {
        let mut it = txt.bytes();
        while let Some(c) = it.next() {
            ensure!(c != b'[', "lk {args:?}: an expression in {txt:?}");
            if c == b'\\' {
                it.next();
            }
        }
    }
    let mut back = Query::default();
    let Some(pm) = b.m.printed() else {
        o.class("left out: printed as its own contradiction");
        return Ok(());
    };
    no_panic(|| back.parse(txt.as_bytes(), &CORE_SCOPE))?.map_err(|e| fail_sig("parse", format!("lk {args:?} printed {txt:?}: {e:#}")))?;
    let want = mode.map_or(modes()[0], |m| modes()[m as usize % 6]);
    let got = no_panic(|| back.mode())?.map_err(|e| fail_sig("mode", format!("{e:#}")))?;
    ensure_eq!(got, Some(want), "lk {args:?}: mode of {txt:?}");
    // what is printed is what it selects
    let p = back.predicates.clone();
    let mut hits = 0;
    for (i, pk) in pks.iter().enumerate() {
        let t = no_panic(|| linkspace_core::prelude::WatchEntry::<()>::new(Default::default(), { let mut q = Query::default(); q.predicates = plain(&p); q }, 0, (), tracing::Span::none()));
        let Ok(Ok(mut t)) = t.map_err(Fail::from) else {
            return Err(format!("lk {args:?}: {txt:?} selects nothing").into());
        };
        let got = t.test(linkspace_core::prelude::reroute::RecvPkt { recv: 5u64.into(), pkt: pk.ptr() }).0;
        let want = pm.accepts(&pk.m, &pk.hash);
        ensure_eq!(got, want, "lk {args:?}: {txt:?} on packet {i} {:?}", pk.m);
        hits += want as usize;
    }
    // the counted limits, one by one
    for f in ["i", "i_new", "i_db", "i_branch"] {
        for n in 0..8u32 {
            let got = crate::d2::member(&p, fidx(f), &n.to_be_bytes());
            ensure_eq!(got, pm.f[fidx(f)].test(&n.to_be_bytes()), "lk {args:?}: {txt:?}: {f} = {n}");
        }
    }
    o.nontrivial(hits > 0 && hits < pks.len());
    o.class_if(q.short.is_some() && hits > 0, "short form with matches");
    o.class_if(!b.exprs.is_empty() && hits > 0, "with statements");
    Ok(())
}
/// without the counted limits
pub fn plain(p: &linkspace_core::prelude::PktPredicates) -> linkspace_core::prelude::PktPredicates {
    let mut p = p.clone();
    let d = linkspace_core::prelude::PktPredicates::DEFAULT;
    p.state = d.state;
    p
}
pub fn props() -> Vec<Property> {
    let set = || prop_oneof![any::<u32>().prop_map(Set::Hop), any::<u64>().prop_map(Set::Stamp), (0u8..16).prop_map(Set::Flags), (0u8..4, any::<u32>()).prop_map(|(i, n)| Set::Ubits(i, n))];
    vec![
        Property {
            id: "M03",
            rule: "some packets go one way and some the other; a packet is dropped; a header changes",
            assumptions: &["the `lk` program is built from /repo with stand-ins for clap, lmdb and other missing crates"],
            subs: vec![
                sub("filter", 6_000, 200_000, || (pool(14), qy(), dests(4), dests(3), any::<(bool, bool, bool, bool, bool)>()), filter),
                sub("dedup", 2_000, 60_000, || (pool(8), vec(0u8..8, 0..24), prop_oneof![1 => Just(0u16), 4 => 1u16..5, 2 => Just(256u16)], proptest::option::weighted(0.1, Just(vec![Dest::Null]))), dedup),
                sub("route", 1_500, 40_000, move || (pool(6), vec(set(), 0..4), any::<bool>()), route),
            ],
        },
        Property {
            id: "M05",
            rule: "the query selects some packets and not others",
            assumptions: &["the `lk` program is built from /repo with stand-ins for clap, lmdb and other missing crates"],
            subs: vec![sub("print", 6_000, 200_000, || (pool(14), qy(), proptest::option::of(0u8..6), any::<bool>(), any::<bool>()), print)],
        },
    ]
}
