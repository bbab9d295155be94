//! The runtime: watches, processing and reads through the public interface, against a model of
//! what each handle has seen and who is called for what.
use crate::d2::{text, Mod, St};
use crate::d3::{some_from, W};
use crate::d4::{self, answer, envs, pool, qs, Envs, Db, Pk, P, Q as Stmt};
use crate::model::{Kind, H};
use fw::*;
use linkspace::prelude::*;
use linkspace::query::{lk_query_parse, lk_query_push};
use linkspace::runtime::cb::{PktHandler, StopReason};
use linkspace::runtime::*;
use linkspace::{lk_query, Linkspace, Query, Q};
use linkspace_core::env::query_mode::Mode;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::rc::Rc;

/// packets of which the links point at earlier ones
pub fn build(ps: &[P]) -> Vec<Pk> {
    let mut out: Vec<Pk> = vec![];
    for (i, p) in ps.iter().enumerate() {
        let mut m = p.m();
        let n = m.data.len();
        for (j, l) in m.links.iter_mut().enumerate() {
            if i > 0 && (n + j) % 4 != 0 {
                l.1 = out[(n + 3 * j) % i].hash;
            }
        }
        let wire = m.wire();
        let built = m.with(|n| n.as_netbox()).expect("a small packet");
        out.push(Pk { hash: wire[32..64].try_into().unwrap(), wire, built, m })
    }
    out
}
pub fn lkid(k: u8) -> Vec<u8> {
    const IDS: [&[u8]; 7] = [b"a", b"aa", b"ab", b"b", b"\xff", b"a\0", b"c:d"];
    IDS[k as usize % 7].to_vec()
}
#[derive(Clone, Debug)]
pub enum Act {
    Save(Vec<u8>),
    Watch(u8),
    Stop(u8, bool),
    /// a query, given up after some results
    Get(u8, u8),
    /// all hashes asked for
    Hashes(Vec<u8>, u8),
    Process,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub id: u8,
    pub q: Vec<Stmt>,
    pub styles: u8,
    pub mode: u8,
    pub follow: bool,
    /// the call on which the callback gives up
    pub quit: Option<u8>,
    /// an upper bound for recv, this far in the future
    pub until: Option<u8>,
    pub script: Vec<(u8, Act)>,
    pub on_stop: Option<Act>,
}
#[derive(Clone, Debug)]
pub enum Top {
    Do(u8, Act),
    Process(u8),
    Clock(u16),
    Fresh(u8),
}
#[derive(Clone, Debug)]
pub struct Case {
    ps: Vec<P>,
    fill: u8,
    specs: Vec<Spec>,
    steps: Vec<Top>,
}
/// a statement with `i*` counts or without
fn stmts(max: usize) -> BoxedStrategy<Vec<Stmt>> {
    prop_oneof![3 => Just(vec![]), 3 => qs(1), 3 => qs(max)].boxed()
}
fn act(nested: bool) -> BoxedStrategy<Act> {
    prop_oneof![
        6 => vec(any::<u8>(), 1..5).prop_map(Act::Save),
        5 => any::<u8>().prop_map(Act::Watch),
        3 => (any::<u8>(), proptest::bool::weighted(0.3)).prop_map(|(k, r)| Act::Stop(k, r)),
        2 => (any::<u8>(), prop_oneof![Just(255u8), 0u8..4]).prop_map(|(q, n)| Act::Get(q, n)),
        1 => (vec(any::<u8>(), 0..5), prop_oneof![Just(255u8), 0u8..4]).prop_map(|(q, n)| Act::Hashes(q, n)),
        (if nested { 1 } else { 3 }) => Just(Act::Process),
    ]
    .boxed()
}
fn spec() -> BoxedStrategy<Spec> {
    (
        (any::<u8>(), stmts(3), any::<u8>(), any::<u8>(), proptest::bool::weighted(0.2)),
        proptest::option::weighted(0.3, 0u8..5),
        proptest::option::weighted(0.15, any::<u8>()),
        prop_oneof![2 => Just(vec![]), 3 => vec((0u8..4, act(true)), 1..4)],
        proptest::option::weighted(0.2, act(true)),
    )
        .prop_map(|((id, q, styles, mode, follow), quit, until, script, on_stop)| Spec { id, q, styles, mode, follow, quit, until, script, on_stop })
        .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let top = prop_oneof![
        8 => (0u8..2, act(false)).prop_map(|(h, a)| Top::Do(h, a)),
        5 => (0u8..2).prop_map(Top::Process),
        1 => (0u16..600).prop_map(Top::Clock),
        1 => (0u8..2).prop_map(Top::Fresh),
    ];
    (pool(16), 0u8..12, vec(spec(), 1..5), (any::<u8>(), vec(top, 1..24))).prop_map(|(ps, fill, specs, (w, mut steps))| {
        steps.insert(0, Top::Do(0, Act::Watch(w)));
        Case { ps, fill, specs, steps }
    }).boxed()
}

// ------------------------------------------------------------------ the real side
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Call { tag: usize, hash: [u8; 32], recv: Option<u64>, flags: u8 },
    Stop { tag: usize, why: &'static str, total: u32, new: u32, query: String },
    Watched { tag: usize, ret: i32 },
    Saved(u64, u64),
    Upto(u64),
    Got { list: Vec<([u8; 32], Option<u64>)>, ret: i32, first: Option<[u8; 32]> },
    Failed(String),
    Active(Vec<(Vec<u8>, String)>),
}
const MOST: usize = 14;
struct Sh {
    log: RefCell<Vec<Ev>>,
    pks: Vec<Pk>,
    specs: Vec<Spec>,
    queries: Vec<(Query, Mod)>,
    tags: Cell<usize>,
    /// inside of lk_watch, where processing makes the new watch miss points (see process_in_replay)
    replay: Cell<bool>,
}
impl Sh {
    fn ev(&self, e: Ev) {
        self.log.borrow_mut().push(e)
    }
}
struct Handler {
    tag: usize,
    spec: usize,
    calls: usize,
    sh: Rc<Sh>,
}
fn why(r: StopReason) -> &'static str {
    match r {
        StopReason::Break => "break",
        StopReason::Finish => "finish",
        StopReason::Replaced => "replaced",
        StopReason::Closed => "closed",
    }
}
impl PktHandler for Handler {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, lk: &Linkspace) -> ControlFlow<()> {
        let n = self.calls;
        self.calls += 1;
        self.sh.ev(Ev::Call { tag: self.tag, hash: pkt.hash().0, recv: pkt.recv().map(|r| r.get()), flags: pkt.net_header_ref().flags.bits() });
        let s = &self.sh.specs[self.spec];
        for (at, a) in &s.script {
            if *at as usize == n {
                run(lk, a, &self.sh)
            }
        }
        if s.quit == Some(n as u8) {
            return ControlFlow::Break(());
        }
        ControlFlow::Continue(())
    }
    fn stopped(&mut self, query: Query, lk: &Linkspace, reason: StopReason, total: u32, new: u32) {
        self.sh.ev(Ev::Stop { tag: self.tag, why: why(reason), total, new, query: query.to_string() });
        if let Some(a) = &self.sh.specs[self.spec].on_stop {
            run(lk, a, &self.sh)
        }
    }
}
fn picks(sh: &Sh, l: &[u8]) -> Vec<usize> {
    if sh.pks.is_empty() {
        return vec![];
    }
    l.iter().map(|i| *i as usize % sh.pks.len()).collect()
}
fn run(lk: &Linkspace, a: &Act, sh: &Rc<Sh>) {
    let fail = |e: String| sh.ev(Ev::Failed(e));
    match a {
        Act::Save(l) => {
            let ps: Vec<&dyn NetPkt> = picks(sh, l).into_iter().map(|i| &sh.pks[i].built as &dyn NetPkt).collect();
            match lk_save_all_ext(lk, &ps) {
                Ok((a, b)) => sh.ev(Ev::Saved(a.get(), b.get())),
                Err(e) => fail(format!("save: {e}")),
            }
        }
        Act::Watch(k) => {
            let spec = *k as usize % sh.specs.len();
            let tag = sh.tags.get();
            if tag >= MOST {
                return;
            }
            sh.tags.set(tag + 1);
            let was = sh.replay.replace(true);
            let r = lk_watch(lk, &sh.queries[spec].0, Handler { tag, spec, calls: 0, sh: sh.clone() });
            sh.replay.set(was);
            match r {
                Ok(ret) => sh.ev(Ev::Watched { tag, ret }),
                Err(e) => fail(format!("watch: {e:#}")),
            }
        }
        Act::Stop(k, range) => lk_stop(lk, &lkid(*k), *range),
        Act::Get(k, n) => {
            let q = &sh.queries[*k as usize % sh.specs.len()].0;
            let mut list = vec![];
            let ret = lk_get_all(lk, q, &mut |p| {
                list.push((p.hash().0, p.recv().map(|r| r.get())));
                list.len() > *n as usize
            });
            let first = lk_get(lk, q);
            match (ret, first) {
                (Ok(ret), Ok(first)) => sh.ev(Ev::Got { list, ret: ret.abs(), first: first.map(|p| p.hash().0) }),
                (a, b) => fail(format!("get: {a:?} {b:?}")),
            }
        }
        Act::Hashes(l, n) => {
            let hs: Vec<LkHash> = picks(sh, l).into_iter().map(|i| B64(sh.pks[i].hash)).collect();
            let mut list = vec![];
            match lk_get_hashes(lk, &hs, &mut |p| {
                list.push((p.hash().0, None));
                list.len() > *n as usize
            }) {
                Ok(ret) => sh.ev(Ev::Got { list, ret: ret.abs(), first: None }),
                Err(e) => fail(format!("hashes: {e}")),
            }
        }
        Act::Process if sh.replay.get() => {}
        Act::Process => sh.ev(Ev::Upto(lk_process(lk).get())),
    }
}

// ------------------------------------------------------------------ the model
#[derive(Clone)]
struct MW {
    w: W,
    tag: usize,
    spec: usize,
    calls: usize,
}
enum Pend {
    New(MW),
    Close(Vec<u8>, bool),
}
#[derive(Default)]
struct Handle {
    snap: usize,
    upto: u64,
    ws: BTreeMap<Vec<u8>, MW>,
    pending: Vec<Pend>,
    locked: bool,
    running: bool,
}
struct Model<'a> {
    sh: &'a Sh,
    evs: Vec<Ev>,
    at: usize,
    db: Db,
    hs: [Handle; 2],
    tags: usize,
    replay: bool,
    now: u64,
    calls: usize,
    replayed: usize,
    live_calls: usize,
    acts_in_calls: usize,
}
impl<'a> Model<'a> {
    fn next(&mut self) -> Option<Ev> {
        let e = self.evs.get(self.at).cloned();
        self.at += 1;
        e
    }
    fn want(&mut self, e: Ev) -> Res {
        let got = self.next();
        ensure_eq!(got.as_ref(), Some(&e), "event {}", self.at - 1);
        Ok(())
    }
    fn seen(&self, h: usize) -> Db {
        let log = self.db.log[..self.hs[h].snap].to_vec();
        let by_hash = log.iter().enumerate().map(|(n, e)| (self.sh.pks[e.1].hash, n)).collect();
        Db { log, by_hash }
    }
    fn stop(&mut self, h: usize, w: &MW, why: &'static str) -> Res {
        let query = self.sh.queries[w.spec].0.to_string();
        self.want(Ev::Stop { tag: w.tag, why, total: w.w.query, new: w.w.new, query })?;
        if let Some(a) = &self.sh.specs[w.spec].on_stop {
            self.act(h, a)?;
        }
        Ok(())
    }
    fn close(&mut self, h: usize, id: &[u8], range: bool) -> Res {
        if self.hs[h].locked {
            self.hs[h].pending.push(Pend::Close(id.to_vec(), range));
            return Ok(());
        }
        self.hs[h].locked = true;
        self.close_now(h, id, range)?;
        self.hs[h].locked = false;
        Ok(())
    }
    fn close_now(&mut self, h: usize, id: &[u8], range: bool) -> Res {
        let gone: Vec<Vec<u8>> = self.hs[h].ws.keys().filter(|k| if range { k.starts_with(id) } else { *k == id }).cloned().collect();
        for k in gone {
            let w = self.hs[h].ws.remove(&k).unwrap();
            self.stop(h, &w, "closed")?;
        }
        Ok(())
    }
    /// whether it is registered afterwards
    fn register(&mut self, h: usize, w: MW) -> Result<bool, Fail> {
        let id = lkid(self.sh.specs[w.spec].id);
        let ok = w.w.high() > self.now;
        let old = if ok { self.hs[h].ws.insert(id, w) } else { self.hs[h].ws.remove(&id) };
        if let Some(o) = old {
            self.stop(h, &o, "replaced")?;
        }
        Ok(ok)
    }
    fn one(&mut self, h: usize, w: &mut MW, e: (u64, usize), linked: Option<bool>) -> Result<bool, Fail> {
        let pk = &self.sh.pks[e.1];
        let flags = match linked {
            None => pk.m.h.flags,
            Some(false) => pk.m.h.flags & !0b110,
            Some(true) => pk.m.h.flags & !0b110 | 0b10,
        };
        self.want(Ev::Call { tag: w.tag, hash: pk.hash, recv: Some(e.0), flags })?;
        self.calls += 1;
        let n = w.calls;
        w.calls += 1;
        let s = &self.sh.specs[w.spec];
        for (at, a) in &s.script {
            if *at as usize == n {
                self.acts_in_calls += 1;
                self.act(h, a)?
            }
        }
        Ok(s.quit == Some(n as u8))
    }
    /// whether the callback gives up
    fn call(&mut self, h: usize, w: &mut MW, e: (u64, usize)) -> Result<bool, Fail> {
        if !self.sh.specs[w.spec].follow {
            return self.one(h, w, e, None);
        }
        if self.one(h, w, e, Some(false))? {
            return Ok(true);
        }
        let see = self.seen(h);
        for l in self.sh.pks[e.1].m.links.clone() {
            if let Some(n) = see.by_hash.get(&l.1) {
                if self.one(h, w, see.log[*n], Some(true))? {
                    return Ok(true);
                }
            }
        }
        Ok(false)
    }
    fn act(&mut self, h: usize, a: &Act) -> Res {
        match a {
            Act::Save(l) => {
                let Some(Ev::Saved(start, end)) = self.next() else {
                    return Err(Fail::from(format!("a save reports {:?}", self.evs.get(self.at - 1))));
                };
                let before = self.db.log.len();
                let last = self.db.last();
                let batch: Vec<(usize, bool)> = picks(self.sh, l).into_iter().map(|i| (i, true)).collect();
                self.db.save(&self.sh.pks, &batch, start);
                let new = (self.db.log.len() - before) as u64;
                ensure_eq!(end.wrapping_sub(start), new, "new packets");
                ensure!(new == 0 || start > last, "a log stamp not after {last}");
                Ok(())
            }
            Act::Watch(k) => {
                let spec = *k as usize % self.sh.specs.len();
                let tag = self.tags;
                if tag >= MOST {
                    return Ok(());
                }
                self.tags += 1;
                let was = std::mem::replace(&mut self.replay, true);
                self.watch(h, spec, tag)?;
                self.replay = was;
                Ok(())
            }
            Act::Stop(k, range) => self.close(h, &lkid(*k), *range),
            Act::Get(k, n) => {
                let spec = *k as usize % self.sh.specs.len();
                let see = self.seen(h);
                let (l, _) = answer(&self.sh.queries[spec].1, self.mode(spec), &self.sh.pks, &see, 0);
                let first = l.first().map(|e| self.sh.pks[e.1].hash);
                self.got(l, *n, first, true)
            }
            Act::Hashes(l, n) => {
                let see = self.seen(h);
                let l = picks(self.sh, l).into_iter().filter_map(|i| see.by_hash.get(&self.sh.pks[i].hash).map(|e| see.log[*e])).collect();
                self.got(l, *n, None, false)
            }
            Act::Process if self.replay => Ok(()),
            Act::Process => self.process(h),
        }
    }
    fn got(&mut self, mut l: Vec<(u64, usize)>, n: u8, first: Option<[u8; 32]>, recv: bool) -> Res {
        l.truncate(n as usize + 1);
        let list: Vec<_> = l.iter().map(|e| (self.sh.pks[e.1].hash, recv.then_some(e.0))).collect();
        let ret = list.len() as i32;
        self.want(Ev::Got { list, ret, first })
    }
    fn mode(&self, spec: usize) -> Mode {
        let m = self.sh.specs[spec].mode as usize % 7;
        if m == 6 { Mode::TREE_DESC } else { d4::modes()[m] }
    }
    fn watch(&mut self, h: usize, spec: usize, tag: usize) -> Res {
        let id = lkid(self.sh.specs[spec].id);
        self.close(h, &id, false)?;
        let m = self.sh.queries[spec].1.clone();
        let f = |n: &str| &m.f[crate::d2::fidx(n)];
        let mut w = MW { w: W { m: m.clone(), new: 0, query: 0, tag }, tag, spec, calls: 0 };
        let mut hits = 0;
        if some_from(f("i_branch"), 0) && some_from(f("i_db"), 0) {
            let see = self.seen(h);
            let (l, counted) = answer(&m, self.mode(spec), &self.sh.pks, &see, 0);
            for e in l {
                hits += 1;
                self.replayed += 1;
                if self.call(h, &mut w, e)? {
                    return self.want(Ev::Watched { tag, ret: hits });
                }
            }
            w.w.query = counted as u32;
        }
        if !w.w.live() {
            return self.want(Ev::Watched { tag, ret: hits });
        }
        let on = if self.hs[h].locked {
            let on = w.w.high() > self.now;
            self.hs[h].pending.push(Pend::New(w));
            on
        } else {
            self.hs[h].locked = true;
            let r = self.register(h, w)?;
            self.hs[h].locked = false;
            r
        };
        self.want(Ev::Watched { tag, ret: if on { -hits } else { hits } })
    }
    fn drain(&mut self, h: usize) -> Res {
        loop {
            let l = std::mem::take(&mut self.hs[h].pending);
            if l.is_empty() {
                return Ok(());
            }
            for p in l {
                match p {
                    Pend::New(w) => {
                        self.register(h, w)?;
                    }
                    Pend::Close(id, range) => self.close_now(h, &id, range)?,
                }
            }
        }
    }
    fn process(&mut self, h: usize) -> Res {
        if self.hs[h].locked {
            let upto = self.hs[h].upto;
            return self.want(Ev::Upto(upto));
        }
        let old = self.hs[h].snap;
        self.hs[h].snap = self.db.log.len();
        self.hs[h].locked = true;
        self.drain(h)?;
        for n in old..self.hs[h].snap {
            let e = self.db.log[n];
            for id in self.hs[h].ws.keys().cloned().collect::<Vec<_>>() {
                let mut w = self.hs[h].ws.remove(&id).unwrap();
                let (ok, must, may) = w.w.step(&self.sh.pks[e.1], e.0);
                let quit = ok && {
                    self.live_calls += 1;
                    self.call(h, &mut w, e)?
                };
                let next = matches!(self.evs.get(self.at), Some(Ev::Stop { tag, .. }) if *tag == w.tag);
                if quit || must || (may && next) {
                    self.stop(h, &w, if quit { "break" } else { "finish" })?;
                } else {
                    self.hs[h].ws.insert(id, w);
                }
            }
        }
        self.drain(h)?;
        self.hs[h].locked = false;
        let upto = self.db.log[..self.hs[h].snap].last().map_or(0, |e| e.0).max(self.hs[h].upto);
        self.hs[h].upto = upto;
        self.want(Ev::Upto(upto))
    }
}
pub fn query_of(s: &Spec, pks: &[Pk], db: &Db, now: u64) -> Result<(Query, Mod), Fail> {
    let extra = s.until.map(|d| St::Num(crate::d2::fidx("recv"), crate::d2::Op::T(linkspace_core::predicate::TestOp::Less), (now + d as u64).to_be_bytes().to_vec()));
    let mut m = Mod::default();
    let mut q = lk_query(&Q);
    for (n, s2) in s.q.iter().map(|q| q.st(pks, db)).chain(extra).enumerate() {
        let mut m2 = m.clone();
        if !m2.add(&s2) || !m2.valid() || m2.loose != 0 {
            continue;
        }
        m = m2;
        let t = text(&s2, s.styles.wrapping_add(n as u8));
        q = lk_query_parse(q, &[&t], ()).map_err(|e| fail_sig("parse", format!("{t}: {e:#}")))?;
    }
    if s.mode % 7 != 6 {
        q = lk_query_push(q, "", "mode", d4::modes()[s.mode as usize % 7].to_string().as_bytes()).map_err(|e| fail_sig("mode", e.to_string()))?;
    }
    q = lk_query_push(q, "", "qid", &lkid(s.id)).map_err(|e| fail_sig("qid", e.to_string()))?;
    if s.follow {
        q = lk_query_parse(q, &[":follow"], ()).map_err(|e| fail_sig("follow", e.to_string()))?;
    }
    Ok((q, m))
}
pub fn handle(en: &Envs, n: usize) -> Linkspace {
    linkspace_common::runtime::Linkspace::new_opt_rt(en.e[n].clone(), Default::default()).into()
}
fn watches(c: &Case, o: &mut Obs) -> Res {
    let en = envs();
    let pks = build(&c.ps);
    let start = crate::clock::start();
    let mut db = Db::default();
    let n = (c.fill as usize).min(pks.len());
    let first: Vec<&dyn NetPkt> = pks[..n].iter().map(|p| &p.built as &dyn NetPkt).collect();
    let r = en.e[0].save_dyn_iter(first.into_iter()).map_err(|e| fail_sig("save", e.to_string()))?;
    db.save(&pks, &(0..n).map(|i| (i, true)).collect::<Vec<_>>(), r.start);
    let mut now = start.max(r.end);
    crate::clock::set(now);
    let queries = c.specs.iter().map(|s| query_of(s, &pks, &db, now)).collect::<Result<Vec<_>, _>>()?;
    let sh = Rc::new(Sh { log: Default::default(), pks, specs: c.specs.clone(), queries, tags: Cell::new(0), replay: Cell::new(false) });
    let upto = db.last();
    let new = || Handle { snap: n_log(&db), upto, ..Default::default() };
    fn n_log(db: &Db) -> usize {
        db.log.len()
    }
    let hs = [new(), new()];
    let mut m = Model { sh: &sh, evs: vec![], at: 0, db: db.clone(), hs, tags: 0, replay: false, now, calls: 0, replayed: 0, live_calls: 0, acts_in_calls: 0 };
    let mut real = [handle(en, 0), handle(en, 1)];
    let ends = [Top::Process(0), Top::Process(1)];
    for s in c.steps.iter().chain(&ends) {
        m.evs.clear();
        m.at = 0;
        let mut check = |real: &[Linkspace; 2], m: &mut Model, h: usize, a: &Act| -> Res {
            run(&real[h], a, &sh);
            let mut l = vec![];
            lk_list_watches(&real[h], &mut |id, q| l.push((id.to_vec(), q.to_string())));
            sh.ev(Ev::Active(l));
            m.evs = std::mem::take(&mut *sh.log.borrow_mut());
            m.act(h, a)?;
            let act = m.hs[h].ws.iter().map(|(k, w)| (k.clone(), m.sh.queries[w.spec].0.to_string())).collect();
            m.want(Ev::Active(act))?;
            ensure_eq!(m.at, m.evs.len(), "events: {:?}", m.evs);
            Ok(())
        };
        let what = |f: Fail, evs: &[Ev]| Fail { msg: format!("{}; step {s:?} did {evs:?}", f.msg), ..f };
        match s {
            Top::Do(h, a) => check(&real, &mut m, *h as usize % 2, a).map_err(|f| what(f, &m.evs))?,
            Top::Process(h) => check(&real, &mut m, *h as usize % 2, &Act::Process).map_err(|f| what(f, &m.evs))?,
            Top::Clock(d) => {
                now += *d as u64;
                crate::clock::set(now);
                m.now = now;
            }
            Top::Fresh(h) => {
                let h = *h as usize % 2;
                real[h] = handle(en, h);
                let upto = m.db.last();
                m.hs[h] = Handle { snap: m.db.log.len(), upto, ..Default::default() };
            }
        }
    }
    o.nontrivial(m.live_calls > 0 && m.calls > 1);
    o.class_if(m.replayed > 0 && m.live_calls > 0, "matches in the store and new ones");
    o.class_if(m.acts_in_calls > 0, "a callback acts");
    o.class_if(c.specs.iter().any(|s| s.follow) && m.calls > m.live_calls + m.replayed, "links followed");
    Ok(())
}
/// a callback that processes while its own watch is being set up
fn process_in_replay(n: &u8, o: &mut Obs) -> Res {
    let en = envs();
    crate::clock::real();
    let lk = handle(en, 0);
    let point = |i: u8| linkspace::lk_linkpoint(&[i], ab(b"replay"), PUBLIC, RootedSpace::empty(), &[], Some(Stamp::new(i as u64))).unwrap();
    lk_save(&lk, &point(0)).expect("save");
    lk_process(&lk);
    let q = lk_query_parse(lk_query(&Q), &["domain:=:[a:replay]", ":qid:x"], ()).expect("query");
    let got = Rc::new(RefCell::new(vec![]));
    let (g2, n) = (got.clone(), *n);
    let r = lk_watch(&lk, &q, linkspace::runtime::cb::cb(move |p: &dyn NetPkt, lk: &Linkspace| {
        if g2.borrow().is_empty() {
            for i in 1..=n {
                lk_save(lk, &point(i)).expect("save");
            }
            lk_process(lk);
        }
        g2.borrow_mut().push(p.data()[0]);
        false
    }))
    .map_err(|e| fail_sig("watch", e.to_string()))?;
    ensure_eq!(r.abs(), 1, "calls before lk_watch returns");
    lk_save(&lk, &point(n + 1)).expect("save");
    lk_process(&lk);
    o.nontrivial(true);
    let mut got = got.borrow().clone();
    got.sort();
    if got != (0..=n + 1).collect::<Vec<_>>() {
        return Err(fail_sig("process-in-replay", format!("{n} points saved and processed by the callback that lk_watch runs on the store: it sees {got:?}")));
    }
    Ok(())
}
fn unused(_: Kind, _: H) {}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L01",
        rule: "a callback was called for a packet that arrived after the watch was set, and more than once in all",
        assumptions: &["the store runs on the in-memory stand-in of LMDB"],
        subs: vec![sub("histories", 12_000, 300_000, case, watches), fixed("process_in_replay", vec![1u8, 2, 5], process_in_replay)],
    }]
}
