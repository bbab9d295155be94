//! Programs that wait for what others save.
use crate::d4::{pool, Pk, P};
use crate::m2::stream;
use crate::m3::{init, pk, SHIM};
use crate::model::{self, Kind};
use crate::run::*;
use fw::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ links that come late
#[derive(Clone, Debug)]
struct Late {
    stored: Vec<u8>,
    sent: Vec<u8>,
    pause: bool,
    rec: Option<u8>,
    /// how the others are saved: which go first, and in how many goes
    first: Vec<u8>,
    goes: u8,
}
fn late() -> BoxedStrategy<(Vec<P>, Late)> {
    let c = (vec(0u8..24, 0..8), vec(0u8..24, 1..5), any::<bool>(), proptest::option::of(0u8..5), vec(0u8..24, 0..6), 1u8..4).prop_map(|(stored, sent, pause, rec, first, goes)| Late { stored, sent, pause, rec, first, goes });
    (pool(12), c).boxed()
}
/// the linked packets, in the order of a walk; those that are missing are left out
fn walk<'a>(p: &'a Pk, level: usize, by: &BTreeMap<[u8; 32], &'a Pk>, out: &mut Vec<&'a Pk>, missing: &mut BTreeSet<[u8; 32]>) {
    if !p.m.is_linked() {
        return;
    }
    for l in &p.m.links {
        match by.get(&l.1) {
            Some(t) => {
                out.push(t);
                if level > 0 {
                    walk(t, level - 1, by, out, missing)
                }
            }
            None => {
                missing.insert(l.1);
            }
        }
    }
}
fn arrive((ps, c): &(Vec<P>, Late), o: &mut Obs) -> Res {
    let mut pks: Vec<Pk> = vec![];
    for (i, p) in ps.iter().enumerate() {
        let mut m = p.m();
        if m.kind == Kind::Error {
            continue;
        }
        m.h = crate::m1::head0();
        if m.is_linked() && pks.is_empty() {
            m.links.clear()
        }
        for (j, l) in m.links.iter_mut().enumerate() {
            l.1 = pks[(i * 5 + 3 * j + m.data.len()) % pks.len()].hash;
        }
        pks.push(pk(m));
    }
    if pks.is_empty() {
        return Ok(());
    }
    let at = |i: &u8| &pks[*i as usize % pks.len()];
    let d = Dir::new();
    init(&d)?;
    let stored: Vec<&Pk> = c.stored.iter().map(at).collect();
    let sent: Vec<&Pk> = c.sent.iter().map(at).collect();
    let private = a(&["--private", "--hop", "false", "save"]);
    good(&d, &private, &stream(stored.iter().copied()))?;
    let level = match c.rec {
        None => 0,
        Some(4) => usize::MAX,
        Some(n) => n as usize,
    };
    let mut args = a(&["--private", "get-links", "--forward", &format!("file:{}", d.path("fwd"))]);
    match c.rec {
        None => (),
        Some(4) => args.push("-R".into()),
        Some(n) => args.extend(a(&["--recursive", &n.to_string()])),
    }
    args.push(if c.pause { "pause" } else { "watch" }.into());
    let by: BTreeMap<[u8; 32], &Pk> = stored.iter().map(|p| (p.hash, *p)).collect();
    let all: BTreeMap<[u8; 32], &Pk> = pks.iter().map(|p| (p.hash, p)).collect();
    let (mut now, mut then, mut missing, mut none) = (vec![], vec![], BTreeSet::new(), BTreeSet::new());
    for p in &sent {
        walk(p, level, &by, &mut now, &mut missing);
        walk(p, level, &all, &mut then, &mut none);
    }
    ensure!(none.is_empty(), "a bad case");
    let mut live = Live::start("lk", &d, &args, &stream(sent.iter().copied()));
    let len: usize = sent.iter().map(|p| p.wire.len()).sum();
    if !c.pause {
        live.until(&d, "passing on all packets", |_| Ok(d.read("fwd").len() >= len))?;
    }
    // the rest arrives, in some order
    let mut rest: Vec<&Pk> = c.first.iter().map(at).collect();
    rest.extend(pks.iter());
    let n = rest.len().div_ceil(c.goes as usize);
    for part in rest.chunks(n.max(1)) {
        good(&d, &private, &stream(part.iter().copied()))?;
    }
    let r = live.end(&d)?;
    ensure!(r.ok, "lk {args:?}: {}", r.err);
    let out: Vec<Vec<u8>> = split("links", &r.out)?.iter().map(|w| point(w).to_vec()).collect();
    let points = |l: &[&Pk]| l.iter().map(|p| point(&p.wire).to_vec()).collect::<Vec<_>>();
    ensure_eq!(split("passed on", &d.read("fwd"))?.iter().map(|w| point(w).to_vec()).collect::<Vec<_>>(), points(&sent), "lk {args:?}: what was passed on");
    if c.pause {
        ensure!(out == points(&then), "lk {args:?}: {} packets, want {} of the walk", out.len(), then.len());
    } else {
        let now = points(&now);
        ensure!(out.starts_with(&now), "lk {args:?}: not first what was there");
        let got: BTreeSet<&Vec<u8>> = out.iter().collect();
        let want = points(&then);
        let want: BTreeSet<&Vec<u8>> = want.iter().collect();
        ensure!(got == want, "lk {args:?}: {} linked packets are not there, {} are not linked", want.difference(&got).count(), got.difference(&want).count());
    }
    o.nontrivial(missing.len() > 1);
    o.class_if(c.pause && !missing.is_empty(), "waited");
    o.class_if(!c.pause && !missing.is_empty(), "late ones");
    Ok(())
}
pub fn late_sub() -> Sub {
    sub("late", 1_000, 20_000, late, arrive)
}

// ------------------------------------------------------------------ status
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct At {
    domain: u8,
    group: u8,
    obj: u8,
    inst: u8,
}
const OBJ: [&[u8]; 4] = [b"process", b"proc", b"a b/[c]", b"\xff\x00:"];
const INST: [Option<&[u8]>; 4] = [None, Some(b"default"), Some(b"x"), Some(b"x:\\y")];
impl At {
    fn dom(&self) -> [u8; 16] {
        let mut d = [0; 16];
        d[14..].copy_from_slice([b"ex", b"ey"][self.domain as usize % 2]);
        d
    }
    fn grp(&self) -> [u8; 32] {
        [G1, [7; 32]][self.group as usize % 2]
    }
    fn obj(&self) -> &'static [u8] {
        OBJ[self.obj as usize % 4]
    }
    fn inst(&self) -> Option<&'static [u8]> {
        INST[self.inst as usize % 4]
    }
    fn comps(&self, inst: Option<&[u8]>) -> Vec<Vec<u8>> {
        let mut v = vec![b"\xffstatus".to_vec(), self.grp().to_vec(), self.obj().to_vec()];
        v.extend(inst.map(|i| i.to_vec()));
        v
    }
    fn args(&self) -> Vec<String> {
        let mut v = vec![domain_text(&self.dom(), self.domain), format!("[b:{}]", b64(&self.grp())), esc(self.obj())];
        v.extend(self.inst().map(esc));
        v
    }
}
const G1: [u8; 32] = *b"a group that has some exchange..";
fn at() -> BoxedStrategy<At> {
    let most = || prop_oneof![6 => Just(0u8), 1 => Just(1u8)];
    (most(), most(), prop_oneof![8 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)], prop_oneof![4 => Just(0u8), 5 => Just(1u8), 4 => Just(2u8), 1 => Just(3u8)]).prop_map(|(domain, group, obj, inst)| At { domain, group, obj, inst }).boxed()
}
fn us() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros() as u64
}
/// an answer, or what is nearly one
#[derive(Clone, Debug)]
struct Ans {
    at: At,
    kind: u8,
    /// made long ago
    old: bool,
}
fn ans() -> BoxedStrategy<Ans> {
    (at(), prop_oneof![5 => Just(0u8), 3 => 1u8..7], proptest::bool::weighted(0.25)).prop_map(|(at, kind, old)| Ans { at, kind, old }).boxed()
}
impl Ans {
    fn build(&self, n: usize) -> Pk {
        let at = self.at;
        let mut comps = at.comps(Some(at.inst().unwrap_or(b"default")));
        let (mut group, mut data, mut links) = ([0; 32], format!("OK\n{n}").into_bytes(), vec![(*b"init\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", [0; 32])]);
        links[0].0 = {
            let mut t = [0; 16];
            t[12..].copy_from_slice(b"init");
            t
        };
        match self.kind {
            1 => group = at.grp(),
            2 => data.clear(),
            3 => links.clear(),
            4 => comps[2].push(b'z'),
            5 => comps[0] = b"status".to_vec(),
            6 => comps.truncate(2),
            _ => (),
        }
        let h = 3_600_000_000u64;
        // ahead of time, so that it is recent however long this takes
        let stamp = if self.old { us() - 2 * h } else { us() + h + n as u64 };
        pk(model::M { kind: Kind::Link, h: crate::m1::head0(), group, domain: at.dom(), stamp, comps, links, data })
    }
}
struct Seen {
    group: [u8; 32],
    domain: [u8; 16],
    comps: Vec<Vec<u8>>,
    data: Vec<u8>,
    links: Vec<([u8; 16], [u8; 32])>,
    stamp: u64,
    hash: [u8; 32],
    keyed: bool,
}
fn seen(w: &[u8]) -> Result<Seen, Fail> {
    let v = model::ref_read(w, false).map_err(|e| Fail::from(format!("{e:?}")))?;
    Ok(Seen { group: v.group, domain: v.domain, comps: v.comps.clone(), data: w[v.data.clone()].to_vec(), links: v.links.clone(), stamp: v.stamp, hash: w[32..64].try_into().unwrap(), keyed: v.signed.is_some() })
}
impl Seen {
    fn below(&self, at: &At) -> bool {
        self.domain == at.dom() && self.group == [0; 32] && self.comps.starts_with(&at.comps(at.inst()))
    }
    fn answers(&self, at: &At) -> bool {
        self.below(at) && !self.data.is_empty() && !self.links.is_empty()
    }
    fn asks(&self, at: &At) -> bool {
        self.below(at) && self.data.is_empty() && self.links.is_empty()
    }
}
fn log(d: &Dir) -> Result<Vec<Seen>, Fail> {
    split("the store", &good(d, &a(&["--private", "watch-log", "--asc", "--bare", "--db-only"]), &[])?)?.iter().map(|w| seen(w)).collect()
}
fn status(cmd: &str, at: &At, more: &[&str]) -> Vec<String> {
    let mut v = a(&["status", cmd]);
    v.extend(a(more));
    v.push("--".into());
    v.extend(at.args());
    v
}
#[derive(Clone, Debug)]
enum Op {
    Request(At, bool),
    Print(At),
    Answer(Ans),
    Watch(At, bool),
    Long(At),
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => (at(), any::<bool>()).prop_map(|(a, s)| Op::Request(a, s)),
        1 => at().prop_map(Op::Print),
        8 => ans().prop_map(Op::Answer),
        3 => (at(), any::<bool>()).prop_map(|(a, m)| Op::Watch(a, m)),
        3 => at().prop_map(Op::Long),
    ]
    .boxed()
}
fn asked(ops: &Vec<Op>, o: &mut Obs) -> Res {
    let d = Dir::new();
    init(&d)?;
    let mut n = 0;
    for (i, op) in ops.iter().enumerate() {
        let before = log(&d)?;
        match op {
            Op::Request(at, save) => {
                let args = status("watch", at, &["--write-request", "stdout", "--write-request", if *save { "db" } else { "null" }]);
                let t = us();
                let out = good(&d, &args, &[])?;
                let l = split("request", &out)?;
                ensure_eq!(l.len(), 1, "op {i}: lk {args:?}: requests");
                let s = seen(&l[0])?;
                ensure!(s.asks(at) && s.comps == at.comps(at.inst()) && !s.keyed && s.stamp >= t && s.stamp <= us(), "op {i}: lk {args:?}: no request for {at:?}");
                let after = log(&d)?;
                ensure_eq!(after.len(), before.len() + *save as usize, "op {i}: lk {args:?}: saved points");
                ensure!(!save || after.last().unwrap().hash == s.hash, "op {i}: lk {args:?}: another point was saved");
            }
            Op::Print(at) => {
                let args = status("watch", at, &["--print-query", "--timeout", "1h"]);
                let out = good(&d, &args, &[])?;
                let q = String::from_utf8_lossy(&out).into_owned();
                let got = split("what the query selects", &good(&d, &["--private", "watch-log", "--asc", "--bare", "--db-only", "--"].iter().map(|s| s.to_string()).chain(q.lines().filter(|l| !l.is_empty() && !l.starts_with(':')).map(|l| l.to_string())).collect::<Vec<_>>(), &[])?)?;
                let got: Vec<[u8; 32]> = got.iter().map(|w| w[32..64].try_into().unwrap()).collect();
                let want: Vec<[u8; 32]> = before.iter().filter(|s| s.below(at) && s.stamp > us() - 3_600_000_000).map(|s| s.hash).collect();
                ensure_eq!(got.len(), want.len(), "op {i}: lk {args:?}: points that {q:?} selects");
                ensure!(got == want, "op {i}: lk {args:?}: {q:?} selects others");
                ensure_eq!(log(&d)?.len(), before.len(), "op {i}: lk {args:?}: saved points");
            }
            Op::Answer(x) => {
                n += 1;
                good(&d, &a(&["--private", "--hop", "false", "save"]), &x.build(n).wire)?;
            }
            Op::Watch(at, multi) => {
                let mut more = vec!["--timeout", "20l"];
                if *multi {
                    more.push("--multi")
                }
                let args = status("watch", at, &more);
                let r = lk(&d, &args, &[])?;
                let recent: Vec<[u8; 32]> = before.iter().filter(|s| s.answers(at) && s.stamp > us()).map(|s| s.hash).collect();
                let got: Vec<[u8; 32]> = split("answers", &r.out)?.iter().map(|w| w[32..64].try_into().unwrap()).collect();
                ensure_eq!(r.ok, !recent.is_empty(), "op {i}: lk {args:?}: {} recent answers: {}", recent.len(), r.err);
                ensure_eq!(got.len(), if *multi { recent.len() } else { recent.len().min(1) }, "op {i}: lk {args:?}: answers written, of {}", recent.len());
                ensure!(got.iter().collect::<BTreeSet<_>>().len() == got.len() && got.iter().all(|h| recent.contains(h)), "op {i}: lk {args:?}: what was written is no recent answer");
                let after = log(&d)?;
                let new = &after[before.len()..];
                let enough = !multi && !recent.is_empty();
                ensure!(new.len() <= !enough as usize && new.iter().all(|s| s.asks(at) && s.comps == at.comps(at.inst())), "op {i}: lk {args:?}: {} points were saved", new.len());
                // without any request there is no recent one
                if !enough && !before.iter().any(|s| s.asks(at)) {
                    ensure_eq!(new.len(), 1, "op {i}: lk {args:?}: requests made");
                }
                o.class_if(recent.len() > 1, "several answers");
                o.nontrivial(!recent.is_empty() && before.iter().any(|s| s.below(at) && !recent.contains(&s.hash)));
            }
            Op::Long(at) => {
                let recent: Vec<&Seen> = before.iter().filter(|s| s.answers(at) && s.stamp > us()).collect();
                let args = status("watch", at, &["--timeout", "1h"]);
                if recent.is_empty() {
                    continue;
                }
                // one is enough
                let r = Live::start("lk", &d, &args, &[]).end(&d)?;
                ensure!(r.ok, "op {i}: lk {args:?}: {}", r.err);
                let got: Vec<[u8; 32]> = split("answers", &r.out)?.iter().map(|w| w[32..64].try_into().unwrap()).collect();
                ensure_eq!(got.len(), 1, "op {i}: lk {args:?}: answers written");
                let s = recent.iter().find(|s| s.hash == got[0]);
                ensure!(s.is_some(), "op {i}: lk {args:?}: what was written is no recent answer");
                ensure!(recent.iter().filter(|r| r.comps == s.unwrap().comps).all(|r| r.stamp <= s.unwrap().stamp), "op {i}: lk {args:?}: not the latest answer of this instance");
                let after = log(&d)?;
                ensure_eq!(after.len(), before.len(), "op {i}: lk {args:?}: points after");
                o.class("enough at once");
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct Talk {
    at: At,
    /// pieces of data, and requests for them
    data: Vec<u8>,
    reqs: Vec<At>,
    watch: Option<(At, bool)>,
    before: Vec<Ans>,
}
fn talk() -> BoxedStrategy<Talk> {
    (at(), vec(0u8..4, 1..5), vec((at(), 0u8..5), 0..6), proptest::option::weighted(0.7, (at(), any::<bool>())), vec(ans(), 0..3)).prop_map(|(at, data, reqs, watch, before)| {
            // most ask for what there is
            let near = |x: At, k: u8| match k {
                0 => x,
                1 => At { inst: 0, ..at },
                2 => At { inst: x.inst, ..at },
                _ => at,
            };
            let reqs = reqs.into_iter().map(|(x, k)| near(x, k)).collect();
            let watch = watch.map(|(x, m)| (near(x, x.inst + x.obj), m));
            Talk { at, data, reqs, watch, before }
        })
        .boxed()
}
fn live(c: &Talk, o: &mut Obs) -> Res {
    let d = Dir::new();
    init(&d)?;
    // someone asks before there is an answer
    let mut w = match &c.watch {
        None => None,
        Some((at, multi)) => {
            let mut more = vec!["--timeout", "1h"];
            if *multi {
                more.push("--multi")
            }
            let mut l = Live::start("lk", &d, &status("watch", at, &more), &[]);
            l.until(&d, "a request", |_| Ok(log(&d)?.iter().any(|s| s.asks(at))))?;
            Some((l, *at, *multi))
        }
    };
    let mut done = false;
    let mut check = |w: &mut Option<(Live, At, bool)>| -> Res {
        let Some((l, at, multi)) = w else { return Ok(()) };
        let due: Vec<[u8; 32]> = log(&d)?.iter().filter(|s| s.answers(at) && s.stamp > us() - 3_600_000_000).map(|s| s.hash).collect();
        let hashes = |b: &[u8]| Ok::<_, Fail>(split("answers", b)?.iter().map(|w| w[32..64].try_into().unwrap()).collect::<Vec<[u8; 32]>>());
        if due.is_empty() {
            ensure!(l.out().is_empty(), "an answer to {at:?} that is none");
            ensure!(l.running(), "a watch for {at:?} ended without an answer");
            return Ok(());
        }
        if *multi {
            // it may be in the middle of one
            let len = |l: &Live| -> Result<Option<Vec<[u8; 32]>>, Fail> { Ok(hashes(&l.out()).ok()) };
            l.until(&d, "all answers", |l| Ok(len(l)?.is_some_and(|v| v.len() >= due.len())))?;
            ensure_eq!(hashes(&l.out())?, due, "answers to {at:?}");
        } else if !done {
            let r = l.end(&d)?;
            ensure!(r.ok, "a watch for {at:?}: {}", r.err);
            ensure_eq!(hashes(&r.out)?, due[..1].to_vec(), "answers to {at:?}");
            done = true;
        }
        Ok(())
    };
    for (n, x) in c.before.iter().enumerate() {
        good(&d, &a(&["--private", "--hop", "false", "save"]), &x.build(n).wire)?;
        check(&mut w)?;
    }
    // the process that answers
    let pieces: Vec<Vec<u8>> = c.data.iter().enumerate().map(|(i, k)| [format!("OK {i}"), format!("ERR\t{i}"), "OK".into(), format!("[x] {i} \u{e9}")][*k as usize].clone().into_bytes()).collect();
    let file = d.file("data", &pieces.iter().flat_map(|p| [&p[..], b"\n"].concat()).collect::<Vec<u8>>());
    let args = status("set", &c.at, &["--data", &file, "--data-delim", "\\n"]);
    let mut s = Live::start("lk", &d, &args, &[]);
    let space = c.at.comps(Some(c.at.inst().unwrap_or(b"default")));
    // those of others are from hours before or after
    let made = || -> Result<Vec<Seen>, Fail> { Ok(log(&d)?.into_iter().filter(|s| s.comps == space && s.domain == c.at.dom() && s.group == [0; 32] && !s.data.is_empty() && s.stamp.abs_diff(us()) < 1_800_000_000).collect()) };
    s.until(&d, "the first answer", |_| Ok(!made()?.is_empty()))?;
    check(&mut w)?;
    let mut want = 1;
    let mut over = false;
    for (i, at) in c.reqs.iter().enumerate() {
        good(&d, &status("watch", at, &["--write-request", "db"]), &[])?;
        let mut comps = at.comps(at.inst());
        let mine = at.dom() == c.at.dom() && (comps == space || {
            comps.push(space[3].clone());
            at.inst().is_none() && comps == space
        });
        if mine && !over {
            if want == pieces.len() {
                // it has nothing more to say
                s.end(&d)?;
                over = true;
                o.class("ran out");
            } else {
                want += 1;
                s.until(&d, "an answer", |_| Ok(made()?.len() >= want))?;
                o.nontrivial(true);
            }
        }
        let all = made()?;
        ensure_eq!(all.len(), want, "answers after request {i}");
        check(&mut w)?;
    }
    let all = made()?;
    ensure_eq!(all.iter().map(|s| s.data.clone()).collect::<Vec<_>>(), pieces[..want].to_vec(), "what {:?} answered", c.at);
    let mut prev = [0; 32];
    for (i, s) in all.iter().enumerate() {
        let mut tag = [0; 16];
        tag[12..].copy_from_slice(if i == 0 { b"init" } else { b"prev" });
        ensure_eq!(s.links, vec![(tag, prev)], "links of answer {i}");
        prev = s.hash;
    }
    ensure!(over || s.running(), "the answering process ended");
    o.class_if(want > 1, "asked and answered");
    o.class_if(w.is_some() && done, "a watch ended");
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "M16",
        rule: "asked: a watch found a recent answer among other points; live: a request was answered",
        assumptions: SHIM,
        subs: vec![sub("asked", 700, 20_000, || vec(op(), 3..18), asked), sub("live", 150, 4_000, talk, live)],
    }]
}
