//! Conventions on top of points: local status requests and replies, and pull requests.
use crate::clock;
use crate::d2::Mod;
use crate::d4::{envs, pool, Envs, P};
use crate::l1::{build, handle, lkid};
use fw::*;
use linkspace::conventions::pull::lk_pull_point;
use linkspace::conventions::status::*;
use linkspace::prelude::*;
use linkspace::query::lk_query_push;
use linkspace::runtime::cb::PktHandler;
use linkspace::{lk_pull, lk_query, Linkspace, Query, Q};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::rc::Rc;

macro_rules! fail { ($($a:tt)*) => { return Err(Fail::from(format!($($a)*))) } }
fn np<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    no_panic(f).map_err(|e| Fail::from(format!("{what} panicked: {e}")))
}
// ------------------------------------------------------------------ status
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct At {
    domain: u8,
    group: u8,
    obj: u8,
    inst: u8,
}
const OBJ: [&[u8]; 4] = [b"t", b"tx", b"", b"process"];
const INST: [Option<&[u8]>; 4] = [None, Some(b"default"), Some(b"x"), Some(b"")];
impl At {
    fn dom(&self) -> Domain {
        ab(&[b'a' + self.domain % 2])
    }
    fn grp(&self) -> GroupID {
        if self.group % 2 == 0 { PUBLIC } else { B64([self.group; 32]) }
    }
    fn obj(&self) -> &'static [u8] {
        OBJ[self.obj as usize % 4]
    }
    fn inst(&self) -> Option<&'static [u8]> {
        INST[self.inst as usize % 4]
    }
    fn status<'o>(&self, qid: &'o [u8]) -> LkStatus<'o> {
        LkStatus { domain: self.dom(), group: self.grp(), objtype: self.obj(), instance: self.inst(), qid }
    }
    fn valid(&self) -> bool {
        !self.obj().is_empty() && self.inst() != Some(b"")
    }
    fn comps(&self, inst: Option<&[u8]>) -> Vec<Vec<u8>> {
        let mut v = vec![b"\xffstatus".to_vec(), self.grp().0.to_vec(), self.obj().to_vec()];
        v.extend(inst.map(|i| i.to_vec()));
        v
    }
}
#[derive(Clone, Debug)]
enum Op {
    /// a process answers; how a bad one goes wrong
    Set(At, bool, Option<u8>),
    /// a request, and in what it differs from one
    Req(At, u8),
    /// an answer of someone else, and in what it differs from one
    Reply(At, u8),
    /// and after how many answers it has enough
    Watch(At, u32, Option<u8>),
    Process,
    Wait(u32),
}
fn at() -> BoxedStrategy<At> {
    (prop_oneof![5 => Just(0u8), 1 => Just(1u8)], prop_oneof![5 => Just(0u8), 1 => Just(1u8)], prop_oneof![8 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], prop_oneof![4 => Just(0u8), 5 => Just(1u8), 4 => Just(2u8), 1 => Just(3u8)]).prop_map(|(domain, group, obj, inst)| At { domain, group, obj, inst }).boxed()
}
fn op() -> BoxedStrategy<Op> {
    let us = || prop_oneof![Just(0u32), 0u32..60, 0u32..400];
    prop_oneof![
        4 => (at(), proptest::bool::weighted(0.2), proptest::option::weighted(0.15, 0u8..6)).prop_map(|(a, r, b)| Op::Set(a, r, b)),
        5 => (at(), prop_oneof![6 => Just(0u8), 6 => 1u8..9]).prop_map(|(a, k)| Op::Req(a, k)),
        2 => (at(), prop_oneof![3 => Just(0u8), 3 => 1u8..7]).prop_map(|(a, k)| Op::Reply(a, k)),
        4 => (at(), us(), proptest::option::weighted(0.35, 1u8..4)).prop_map(|(a, t, n)| Op::Watch(a, t, n)),
        4 => Just(Op::Process),
        3 => us().prop_map(Op::Wait),
    ]
    .boxed()
}
#[derive(Clone, Debug)]
struct E {
    hash: [u8; 32],
    recv: u64,
    create: u64,
    domain: Domain,
    group: GroupID,
    comps: Vec<Vec<u8>>,
    data: bool,
    links: bool,
}
struct Setter {
    at: At,
    qid: Vec<u8>,
    space: Vec<Vec<u8>>,
    prev: [u8; 32],
    live: bool,
    called: usize,
}
struct Watcher {
    at: At,
    qid: Vec<u8>,
    until: Option<u64>,
    want: Vec<[u8; 32]>,
    /// not every detail of these is fixed
    may: Vec<[u8; 32]>,
    live: bool,
    enough: Option<usize>,
}
#[derive(Default)]
struct Sh {
    /// what was given to the callback of a setter: the link, and the answer it made
    calls: Vec<(usize, Domain, GroupID, Vec<Vec<u8>>, Link, [u8; 32])>,
    seen: Vec<(usize, [u8; 32])>,
}
struct H {
    w: usize,
    sh: Rc<RefCell<Sh>>,
    left: Option<u8>,
}
impl PktHandler for H {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, _: &Linkspace) -> ControlFlow<()> {
        self.sh.borrow_mut().seen.push((self.w, pkt.hash().0));
        if let Some(n) = self.left.as_mut() {
            *n = n.saturating_sub(1);
            if *n == 0 {
                return ControlFlow::Break(());
            }
        }
        ControlFlow::Continue(())
    }
}
fn comps_of(s: &RootedSpace) -> Vec<Vec<u8>> {
    s.iter().map(|c| c.to_vec()).collect()
}
fn space_of(c: &[Vec<u8>]) -> RootedSpaceBuf {
    let c: Vec<&[u8]> = c.iter().map(|c| c.as_slice()).collect();
    rspace_buf(&c)
}
fn log(en: &Envs) -> Vec<E> {
    let txn = en.e[0].new_read_txn().expect("reader");
    let v = txn
        .pkts_after(Stamp::ZERO)
        .map(|p| {
            let q = &p.pkt;
            E { hash: q.hash().0, recv: p.recv.get(), create: q.get_create_stamp().get(), domain: *q.get_domain(), group: *q.get_group(), comps: comps_of(q.get_rooted_spacename()), data: !q.data().is_empty(), links: !q.get_links().is_empty() }
        })
        .collect();
    v
}
fn tick(by: u64) -> u64 {
    let t = now().get() + by;
    clock::set(t);
    t
}
struct St {
    lk: Linkspace,
    en: &'static Envs,
    sh: Rc<RefCell<Sh>>,
    setters: Vec<Setter>,
    watchers: Vec<Watcher>,
    /// how far the process has seen the log
    upto: u64,
    calls: usize,
}
impl St {
    /// does the log entry belong to what the setter is asked
    fn asks(&self, s: &Setter, e: &E) -> Option<bool> {
        if e.data || e.links || e.domain != s.at.dom() || e.group != PRIVATE {
            return Some(false);
        }
        let all = s.at.comps(None);
        if !e.comps.starts_with(&all) {
            return Some(false);
        }
        match e.comps.len() - all.len() {
            0 => Some(true),
            1 => Some(e.comps == s.space),
            // nothing is said of places below
            _ => None,
        }
    }
    fn calls_since(&mut self, op: usize) -> Result<Vec<(usize, [u8; 32])>, Fail> {
        let sh = self.sh.borrow();
        let mut out = vec![];
        for (s, domain, group, space, link, made) in &sh.calls[self.calls..] {
            let st = &mut self.setters[*s];
            ensure_eq!((*domain, *group, space), (st.at.dom(), PRIVATE, &st.space), "op {op}: what setter {s} was asked for");
            let tag: Tag = ab(if st.called == 0 { b"init" } else { b"prev" });
            ensure_eq!((link.tag, link.ptr.0), (tag, st.prev), "op {op}: the link given to setter {s} at call {}", st.called);
            st.prev = *made;
            st.called += 1;
            out.push((*s, *made))
        }
        self.calls = sh.calls.len();
        Ok(out)
    }
    fn process(&mut self, op: usize, o: &mut Obs) -> Res {
        for _ in 0..200 {
            let pending: Vec<E> = log(self.en).into_iter().filter(|e| e.recv > self.upto).collect();
            np("lk_process", || lk_process(&self.lk))?;
            self.upto = pending.last().map_or(self.upto, |e| e.recv);
            let made = self.calls_since(op)?;
            let after: Vec<E> = log(self.en);
            // points saved while they were handled may be part of this round
            let mut due: Vec<E> = pending.clone();
            due.extend(after.iter().filter(|e| e.recv > self.upto && made.iter().any(|m| m.1 == e.hash)).cloned());
            for (s, st) in self.setters.iter().enumerate() {
                let n = made.iter().filter(|m| m.0 == s).count();
                let (mut min, mut max) = (0, 0);
                for e in &pending {
                    match self.asks(st, e) {
                        Some(true) if st.live => {
                            min += 1;
                            max += 1
                        }
                        None if st.live => max += 1,
                        _ => (),
                    }
                }
                ensure!((min..=max).contains(&n), "op {op}: setter {s} ({:?}) made {n} replies to {min} requests", st.at);
                if n > 0 {
                    o.nontrivial(true);
                }
            }
            for (s, h) in &made {
                ensure!(after.iter().any(|e| e.hash == *h), "op {op}: an answer of setter {s} was not saved");
            }
            self.watched(&pending);
            if made.is_empty() && pending.is_empty() {
                return Ok(());
            }
        }
        fail!("op {op}: processing goes on and on")
    }
    fn below(w: &Watcher, e: &E) -> bool {
        e.domain == w.at.dom() && e.group == PRIVATE && e.comps.starts_with(&w.at.comps(w.at.inst()))
    }
    fn watched(&mut self, new: &[E]) {
        for w in self.watchers.iter_mut().filter(|w| w.live) {
            let due: Vec<&E> = new.iter().filter(|e| Self::below(w, e) && e.data && e.links).collect();
            for e in due {
                match w.until {
                    Some(u) if e.recv < u => w.want.push(e.hash),
                    Some(_) => (),
                    None => w.may.push(e.hash),
                }
            }
        }
    }
}
fn status(ops: &Vec<Op>, o: &mut Obs) -> Res {
    let en: &'static Envs = envs();
    clock::start();
    let res = run(en, ops, o);
    clock::real();
    res
}
fn run(en: &'static Envs, ops: &[Op], o: &mut Obs) -> Res {
    let lk = handle(en, 0);
    let mut t = St { lk: lk.clone(), en, sh: Default::default(), setters: vec![], watchers: vec![], upto: 0, calls: 0 };
    for (i, op) in ops.iter().enumerate() {
        tick(1);
        match op {
            Op::Wait(us) => {
                tick(*us as u64);
            }
            Op::Process => t.process(i, o)?,
            Op::Req(at, kind) => {
                if *kind == 0 {
                    let r = np("lk_status_request", || lk_status_request(at.status(b"")))?;
                    ensure_eq!(r.is_ok(), at.valid(), "op {i}: request for {at:?}");
                    let Ok(p) = r else { continue };
                    ensure_eq!((*p.get_domain(), *p.get_group(), comps_of(p.get_rooted_spacename())), (at.dom(), PRIVATE, at.comps(at.inst())), "op {i}: where the request is made");
                    ensure!(p.data().is_empty() && p.get_links().is_empty() && p.pubkey().is_none_or_zero(), "op {i}: a request has data, links or a key");
                    lk_save(&lk, &p).map_err(|e| e.to_string())?;
                    continue;
                }
                if !at.valid() {
                    continue;
                }
                let mut c = at.comps(at.inst());
                let (mut g, mut data, mut links) = (PRIVATE, &b""[..], vec![]);
                match kind {
                    1 => g = at.grp(),
                    2 => data = b"data",
                    3 => links.push(Link { tag: ab(b"prev"), ptr: PUBLIC }),
                    4 => c.push(b"below".to_vec()),
                    5 => c[0] = b"status".to_vec(),
                    6 => c.truncate(2),
                    7 => c.insert(1, b"more".to_vec()),
                    _ => (),
                }
                let p = lk_linkpoint(data, at.dom(), g, &space_of(&c), &links, None).map_err(|e| e.to_string())?;
                lk_save(&lk, &p).map_err(|e| e.to_string())?;
            }
            Op::Reply(at, kind) => {
                if !at.valid() {
                    continue;
                }
                let mut c = at.comps(Some(at.inst().unwrap_or(b"default")));
                let (mut g, mut data, mut links) = (PRIVATE, format!("OK\n{i}").into_bytes(), vec![Link { tag: ab(b"init"), ptr: PRIVATE }]);
                match kind {
                    1 => g = at.grp(),
                    2 => data.clear(),
                    3 => links.clear(),
                    4 => c.push(b"below".to_vec()),
                    5 => c[2].push(b'z'),
                    _ => (),
                }
                let p = lk_linkpoint(&data, at.dom(), g, &space_of(&c), &links, None).map_err(|e| e.to_string())?;
                lk_save(&lk, &p).map_err(|e| e.to_string())?;
            }
            Op::Set(at, again, bad) => {
                let n = t.setters.len();
                let qid = match t.setters.last() {
                    Some(s) if *again => s.qid.clone(),
                    _ => format!("s{i}").into_bytes(),
                };
                let sh = t.sh.clone();
                let bad = *bad;
                let before = log(en).len();
                let cb = move |_: &Linkspace, domain: Domain, group: GroupID, space: &RootedSpace, link: Link| -> linkspace::LkResult<NetPktBox> {
                    let mut sh = sh.borrow_mut();
                    let k = sh.calls.len();
                    let data = format!("OK\n{n} {k}");
                    let mut c = comps_of(space);
                    let (mut data, mut d, mut g, mut links) = (data.as_bytes(), domain, group, vec![link]);
                    match bad {
                        Some(0) => data = b"",
                        Some(1) => d = ab(b"elsewhere"),
                        Some(2) => g = PUBLIC,
                        Some(3) => links.clear(),
                        Some(4) => c[3].push(b'z'),
                        Some(_) => return Err(std::io::Error::other("no").into()),
                        None => (),
                    }
                    clock::set(now().get() + 1);
                    let p = lk_linkpoint(data, d, g, &space_of(&c), &links, None)?;
                    sh.calls.push((n, domain, group, comps_of(space), link, p.hash().0));
                    Ok(p)
                };
                let space = at.comps(Some(at.inst().unwrap_or(b"default")));
                t.setters.push(Setter { at: *at, qid: qid.clone(), space: space.clone(), prev: [0; 32], live: false, called: 0 });
                let r = np("lk_status_set", || lk_status_set(&lk, at.status(&qid), cb))?;
                let ok = at.valid() && bad.is_none();
                ensure_eq!(r.is_ok(), ok, "op {i}: setting {at:?}: {:?}", r.as_ref().err().map(|e| e.to_string()));
                if !ok {
                    // what it was asked for does not matter
                    t.calls = t.sh.borrow().calls.len();
                    ensure_eq!(log(en).len(), before, "op {i}: an invalid first answer was saved");
                    o.class("a bad first answer");
                    continue;
                }
                let made = t.calls_since(i)?;
                ensure_eq!(made.len(), 1, "op {i}: number of first answers");
                ensure!(log(en).iter().any(|e| e.hash == made[0].1), "op {i}: the first answer was not saved");
                for s in t.setters.iter_mut().filter(|s| s.qid == qid) {
                    o.class_if(s.live, "replaced");
                    s.live = false
                }
                let new = t.setters.last_mut().unwrap();
                new.live = true;
                o.class_if(t.setters.iter().filter(|s| s.live).count() > 1, "several setters");
            }
            Op::Watch(at, timeout, left) => {
                let n = t.watchers.len();
                let qid = format!("w{i}").into_bytes();
                // what is seen of the past is what was there when the log was last processed
                t.process(i, o)?;
                let all = log(en);
                let seen0 = t.sh.borrow().seen.len();
                let at_now = now().get();
                let h = H { w: n, sh: t.sh.clone(), left: *left };
                let enough = left.map(|n| n as usize);
                let r = np("lk_status_watch", || lk_status_watch(&lk, at.status(&qid), Stamp::new(*timeout as u64), h))?;
                if !at.valid() {
                    ensure!(r.is_err(), "op {i}: watching {at:?}");
                    ensure_eq!(log(en).len(), all.len(), "op {i}: a refused watch saved something");
                    t.watchers.push(Watcher { at: *at, qid, until: None, want: vec![], may: vec![], live: false, enough });
                    continue;
                }
                let after = log(en);
                let saved = &after[all.len()..];
                let mut w = Watcher { at: *at, qid, until: None, want: vec![], may: vec![], live: true, enough };
                let recent = |e: &&E| St::below(&w, e) && e.create > at_now.saturating_sub(*timeout as u64);
                let exact = all.iter().filter(recent).filter(|e| !e.data && !e.links && e.comps == at.comps(at.inst())).map(|e| e.create).max();
                let other = all.iter().filter(recent).filter(|e| !e.data && !e.links && e.comps != at.comps(at.inst())).map(|e| e.create).max();
                let replies: Vec<[u8; 32]> = all.iter().filter(recent).filter(|e| e.data && e.links).map(|e| e.hash).collect();
                let r = match r {
                    Ok(r) => r,
                    Err(e) => fail!("op {i}: watching {at:?}: {e:#}"),
                };
                ensure_eq!(r, !replies.is_empty(), "op {i}: whether there was a recent answer ({} of them)", replies.len());
                let mut got: Vec<[u8; 32]> = t.sh.borrow().seen[seen0..].iter().map(|s| s.1).collect();
                if let Some(n) = enough.filter(|n| *n <= replies.len()) {
                    ensure_eq!((got.len(), saved.len()), (n, 0), "op {i}: answers handled, and points saved, by a watch that had enough");
                    ensure!(got.iter().all(|h| replies.contains(h)), "op {i}: a watch was given what is no recent answer");
                    o.class("enough at once");
                    w.live = false;
                    w.want = got;
                    t.watchers.push(w);
                    continue;
                }
                ensure!(saved.len() <= 1, "op {i}: {} points were saved", saved.len());
                if let Some(e) = saved.first() {
                    ensure!(St::below(&w, e) && e.comps == at.comps(at.inst()) && !e.data && !e.links, "op {i}: what was saved is no request: {e:?}");
                    ensure!(exact.is_none(), "op {i}: a request was made though there is a recent one");
                    w.until = Some(e.create + *timeout as u64)
                } else {
                    ensure!(exact.is_some() || other.is_some(), "op {i}: no request was made");
                    o.class("no new request");
                    w.until = match (exact, other) {
                        (Some(e), None) => Some(e + *timeout as u64),
                        _ => None,
                    };
                }
                got.sort();
                let mut want = replies.clone();
                want.sort();
                ensure_eq!(got, want, "op {i}: the recent answers that were handled");
                o.class_if(!want.is_empty(), "recent answers");
                w.want = replies;
                t.watchers.push(w);
            }
        }
    }
    tick(1);
    t.process(ops.len(), o)?;
    let sh = t.sh.borrow();
    for (n, w) in t.watchers.iter().enumerate() {
        let mut got: BTreeMap<[u8; 32], i32> = BTreeMap::new();
        for (_, h) in sh.seen.iter().filter(|s| s.0 == n) {
            *got.entry(*h).or_default() += 1;
        }
        if let Some(n) = w.enough {
            ensure!(got.iter().all(|(h, k)| *k == 1 && (w.want.contains(h) || w.may.contains(h))), "watch {n} was given something twice, or what is no answer for it");
            let (min, max) = (n.min(w.want.len()), n.min(w.want.len() + w.may.len()));
            ensure!((min..=max).contains(&got.len()), "a watch that has enough after {n} was given {} of {} to {} answers", got.len(), min, max);
            o.class_if(got.len() == n, "had enough");
            continue;
        }
        for h in &w.want {
            ensure_eq!(got.remove(h), Some(1), "times that watch {n} ({:?}, until {:?}) was given {}", w.at, w.until, B64(*h));
        }
        o.class_if(w.want.len() > 2, "many answers");
        for h in &w.may {
            ensure!(got.remove(h).unwrap_or(1) == 1, "watch {n} was given {} more than once", B64(*h));
        }
        ensure!(got.is_empty(), "watch {n} ({:?}, until {:?}) was given {:?}, which is no answer for it", w.at, w.until, got.keys().map(|h| B64(*h).to_string()).collect::<Vec<_>>());
    }
    Ok(())
}
trait NoKey {
    fn is_none_or_zero(&self) -> bool;
}
impl NoKey for Option<&PubKey> {
    fn is_none_or_zero(&self) -> bool {
        self.map_or(true, |k| k.0 == [0; 32])
    }
}

// ------------------------------------------------------------------ pull
#[derive(Clone, Debug)]
struct Pull {
    group: Option<(u8, u8)>,
    domain: Option<(u8, u8)>,
    qid: Option<Vec<u8>>,
    more: Vec<u8>,
    exprs: bool,
}
fn pull_case() -> BoxedStrategy<Pull> {
    let op = || prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)];
    let id = prop_oneof![
        6 => (0u8..7).prop_map(lkid),
        4 => vec(any::<u8>(), 0..6),
        2 => prop::sample::select(vec![0usize, 1, 180, 184, 185, 186, 187, 188, 199, 200, 201, 254, 255, 256, 300, 60000, 65000, 70000]).prop_map(|n| vec![b'q'; n]),
    ];
    (proptest::option::weighted(0.92, (op(), 0u8..4)), proptest::option::weighted(0.92, (op(), 0u8..4)), proptest::option::weighted(0.92, id), vec(0u8..8, 0..4), any::<bool>()).prop_map(|(group, domain, qid, more, exprs)| Pull { group, domain, qid, more, exprs }).boxed()
}
fn pull(c: &Pull, o: &mut Obs) -> Res {
    let en: &'static Envs = envs();
    clock::start();
    let res = pull_run(en, c, o);
    clock::real();
    res
}
fn pull_run(en: &'static Envs, c: &Pull, o: &mut Obs) -> Res {
    let lk = handle(en, 0);
    let mut q = lk_query(&Q);
    const OPS: [&str; 3] = ["=", ">", "<"];
    let grp = |g: u8| [PUBLIC, PRIVATE, B64([7; 32]), B64([255; 32])][g as usize % 4];
    let dom = |d: u8| -> Domain { [ab(b"d"), ab(b""), ab(b"\xffexchange"), B64DOM][d as usize % 4] };
    const B64DOM: Domain = ab(b"0123456789abcdef");
    let e2s = |e: linkspace::LkError| Fail::from(format!("{e:#}"));
    let mut exact = (None, None);
    if let Some((op, g)) = c.group {
        match lk_query_push(q.clone(), "group", OPS[op as usize % 3], &*grp(g)) {
            Ok(n) => {
                q = n;
                if op == 0 {
                    exact.0 = Some(grp(g))
                }
            }
            Err(_) if op != 0 => return Ok(()),
            Err(e) => return Err(e2s(e)),
        }
    }
    if let Some((op, d)) = c.domain {
        match lk_query_push(q.clone(), "domain", OPS[op as usize % 3], &*dom(d)) {
            Ok(n) => {
                q = n;
                if op == 0 {
                    exact.1 = Some(dom(d))
                }
            }
            Err(_) if op != 0 => return Ok(()),
            Err(e) => return Err(e2s(e)),
        }
    }
    for m in &c.more {
        q = match m {
            0 => lk_query_push(q, "create", ">", &7u64.to_be_bytes()),
            1 => lk_query_push(q, "prefix", "=", space_of(&[b"some".to_vec(), vec![0, 255, b':']]).space_bytes()),
            2 => lk_query_push(q, "i_branch", "<", &3u32.to_be_bytes()),
            3 => lk_query_push(q, "data_size", "<", &300u16.to_be_bytes()),
            4 => lk_query_push(q, "", "follow", b""),
            5 => lk_query_push(q, "", "mode", b"log-desc"),
            6 => lk_query_push(q, "pubkey", "=", &[9; 32]),
            _ => lk_query_push(q, "", "note", b"x:y/z\n[]\\"),
        }
        .map_err(e2s)?;
    }
    if let Some(id) = &c.qid {
        q = lk_query_push(q, "", "qid", id).map_err(e2s)?;
    }
    let before = log(en).len();
    let text = q.to_string();
    let r = np("lk_pull_point", || lk_pull_point(&q))?;
    let s = np("lk_pull", || lk_pull(&lk, &q))?;
    let room = match &c.qid {
        Some(id) if !id.is_empty() && id.len() <= 200 => 5 + 33 + 17 + id.len() + 1 <= 242,
        _ => false,
    };
    let ok = exact.0.is_some() && exact.1.is_some() && room;
    ensure_eq!((r.is_ok(), s.is_ok()), (ok, ok), "pull of {text:?}: {:?}", r.as_ref().err().map(|e| format!("{e:#}")));
    let after = log(en);
    ensure_eq!(after.len(), before + ok as usize, "number of points saved");
    if !ok {
        o.class("refused");
        return Ok(());
    }
    o.nontrivial(true);
    let (r, s) = (r.map_err(e2s)?, s.map_err(e2s)?);
    let e = after.last().unwrap();
    ensure_eq!(e.hash, s.0, "the hash given back");
    ensure_eq!(r.hash(), s, "the point of the same query at the same time");
    let id = c.qid.clone().unwrap();
    ensure_eq!(*r.get_domain(), linkspace::consts::EXCHANGE_DOMAIN, "domain");
    ensure_eq!(&r.get_domain()[..], &b"\xff\xff\xff\xff\xff\xff\xff\xffexchange"[..], "domain");
    ensure_eq!(*r.get_group(), PRIVATE, "group");
    ensure_eq!(comps_of(r.get_rooted_spacename()), vec![b"pull".to_vec(), exact.0.unwrap().0.to_vec(), exact.1.unwrap().0.to_vec(), id], "space");
    ensure!(r.get_links().is_empty() && r.pubkey().is_none_or_zero(), "links or a key");
    ensure_eq!(String::from_utf8_lossy(r.data()), text, "data");
    let back = linkspace::query::lk_query_parse(lk_query(&Q), &[std::str::from_utf8(r.data()).map_err(|e| e.to_string())?], ()).map_err(e2s)?;
    // the types that other predicates imply are written out
    let rest = |t: &str| t.lines().filter(|l| !l.starts_with("type:")).map(String::from).collect::<Vec<_>>();
    ensure_eq!(rest(&back.to_string()), rest(&text), "the query read back");
    Ok(())
}
fn unused(_: Query, _: Mod, _: P) {
    let _ = (pool, build);
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L07",
        rule: "a request was answered; a pull request was made",
        assumptions: &["the store runs on the in-memory stand-in of LMDB", "an answer is unique"],
        subs: vec![sub("status", 60_000, 1_500_000, || vec(op(), 1..20), status), sub("pull", 20_000, 60_000, pull_case, pull)],
    }]
}
