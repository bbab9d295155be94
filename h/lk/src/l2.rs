//! Waiting: what lk_process_while returns, when, and that it does not sleep through anything.
use crate::d4::{envs, Envs};
use crate::l1::{handle, lkid};
use fw::*;
use linkspace::prelude::*;
use linkspace::query::{lk_query_parse, lk_query_push};
use linkspace::runtime::cb::{PktHandler, StopReason};
use linkspace::runtime::*;
use linkspace::{lk_linkpoint, lk_query, Linkspace, Query, Q};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Spec {
    domain: u8,
    quit: Option<u8>,
    most: Option<u8>,
    until_us: Option<u16>,
    save: Option<(u8, u8)>,
    on_stop: Option<u8>,
    again: bool,
    replay: bool,
}
#[derive(Clone, Debug)]
pub enum Step {
    Watch(u8),
    Stop(u8),
    Save(u8),
    /// the query to wait for, time to wait, and what others save meanwhile
    Wait { on: Option<u8>, us: u16, feed: Vec<(u16, u8)> },
}
#[derive(Clone, Debug)]
pub struct Case {
    specs: Vec<Spec>,
    steps: Vec<Step>,
}
fn case() -> BoxedStrategy<Case> {
    let spec = (
        (0u8..3, option::weighted(0.3, 0u8..4), option::weighted(0.3, 1u8..4), option::weighted(0.4, 1u16..2500)),
        (option::weighted(0.3, (0u8..3, 0u8..3)), option::weighted(0.4, 0u8..3), any::<bool>(), any::<bool>()),
    )
        .prop_map(|((domain, quit, most, until_us), (save, on_stop, again, replay))| Spec { domain, quit, most, until_us, save, on_stop, again, replay });
    let step = prop_oneof![
        4 => (0u8..4).prop_map(Step::Watch),
        1 => (0u8..4).prop_map(Step::Stop),
        2 => (0u8..3).prop_map(Step::Save),
        6 => (option::weighted(0.7, 0u8..4), 0u16..2000, vec((0u16..700, 0u8..3), 0..4)).prop_map(|(on, us, feed)| Step::Wait { on, us, feed }),
    ];
    (vec(spec, 1..4), vec(step, 1..7), 0u8..4).prop_map(|(specs, mut steps, w)| { steps.insert(0, Step::Watch(w)); Case { specs, steps } }).boxed()
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Call(usize, u64),
    Stop(usize, &'static str),
    Nested(bool),
}
struct Sh {
    log: RefCell<Vec<Ev>>,
    n: Cell<u64>,
    specs: Vec<Spec>,
}
fn point(domain: u8, n: u64) -> NetPktBox {
    let sp = RootedSpace::empty();
    lk_linkpoint(&n.to_be_bytes(), ab(&[b'd', domain]), PUBLIC, sp, &[], Some(Stamp::new(n))).expect("a small point")
}
struct H {
    tag: usize,
    spec: usize,
    calls: u8,
    sh: Rc<Sh>,
}
fn save(lk: &Linkspace, sh: &Sh, domain: u8) {
    sh.n.set(sh.n.get() + 1);
    lk_save(lk, &point(domain, sh.n.get())).expect("save");
}
impl PktHandler for H {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, lk: &Linkspace) -> ControlFlow<()> {
        let n = self.calls;
        self.calls += 1;
        self.sh.log.borrow_mut().push(Ev::Call(self.tag, pkt.get_recv().get()));
        let s = &self.sh.specs[self.spec];
        if let Some((at, d)) = s.save {
            if at == n {
                save(lk, &self.sh, d)
            }
        }
        if s.again && !s.replay {
            let r = lk_process_while(lk, None, Stamp::new(1)).is_err();
            self.sh.log.borrow_mut().push(Ev::Nested(r))
        }
        if s.quit == Some(n) { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
    }
    fn stopped(&mut self, _: Query, lk: &Linkspace, r: StopReason, _: u32, _: u32) {
        let why = match r {
            StopReason::Break => "break",
            StopReason::Finish => "finish",
            StopReason::Replaced => "replaced",
            StopReason::Closed => "closed",
        };
        self.sh.log.borrow_mut().push(Ev::Stop(self.tag, why));
        if let Some(d) = self.sh.specs[self.spec].on_stop {
            save(lk, &self.sh, d)
        }
    }
}
struct Live {
    tag: usize,
    spec: usize,
    since: u64,
    high: u64,
    got: Vec<u64>,
}
fn waits(c: &Case, o: &mut Obs) -> Res {
    let en: &'static Envs = envs();
    crate::clock::real();
    let lk = handle(en, 0);
    let sh = Rc::new(Sh { log: Default::default(), n: Cell::new(0), specs: c.specs.clone() });
    let mut live: Vec<Live> = vec![];
    let mut tags = 0;
    let k = c.specs.len();
    let idof = |s: usize| lkid(s as u8);
    let mut waited = 0;
    let head = |lk: &Linkspace| lk_process(lk).get();
    // what the log says so far about a watch
    let settle = |live: &mut Vec<Live>, evs: &[Ev], what: &str| -> Res {
        for e in evs {
            match e {
                Ev::Call(t, recv) => {
                    let Some(l) = live.iter_mut().find(|l| l.tag == *t) else { return Err(format!("{what}: a call of watch {t} after it stopped: {evs:?}").into()) };
                    ensure!(l.got.last().map_or(l.since, |v| *v) < *recv, "{what}: watch {t} sees {recv} after {:?}", l.got);
                    ensure!(*recv <= l.high, "{what}: watch {t} sees {recv}, its bound is {}", l.high);
                    l.got.push(*recv);
                }
                Ev::Stop(t, why) => {
                    let Some(i) = live.iter().position(|l| l.tag == *t) else { return Err(format!("{what}: watch {t} stopped twice").into()) };
                    let l = live.remove(i);
                    let s = &c.specs[l.spec];
                    let quit = s.quit.is_some_and(|q| l.got.len() == q as usize + 1);
                    let most = s.most.is_some_and(|m| l.got.len() == m as usize);
                    let want: &[&str] = if quit { &["break"] } else if most { &["finish"] } else if s.until_us.is_some() { &["finish", "closed", "replaced"] } else { &["closed", "replaced"] };
                    ensure!(want.contains(why), "{what}: watch {t} with {} calls stopped because of {why:?}, not {want:?}", l.got.len());
                }
                Ev::Nested(err) => ensure!(*err, "{what}: waiting inside of a callback is an error"),
            }
        }
        Ok(())
    };
    for s in &c.steps {
        let what = format!("{s:?}");
        match s {
            Step::Save(d) => save(&lk, &sh, *d),
            Step::Watch(w) => {
                let spec = *w as usize % k;
                let sp = &c.specs[spec];
                let mut q = lk_query_parse(lk_query(&Q), &[], ()).unwrap();
                q = lk_query_push(q, "domain", "=", &*ab::<16>(&[b'd', sp.domain])).map_err(|e| fail_sig("push", e.to_string()))?;
                if let Some(m) = sp.most {
                    q = lk_query_parse(q, &[&format!("i_new:<:[u32:{m}]")], ()).map_err(|e| fail_sig("i_new", e.to_string()))?;
                }
                q = lk_query_parse(q, &["i_db:<:[u32:0]"], ()).map_err(|e| fail_sig("i_db", e.to_string()))?;
                let mut high = u64::MAX;
                if let Some(us) = sp.until_us {
                    let t = now().get() + us as u64;
                    q = lk_query_push(q, "recv", "<", &t.to_be_bytes()).map_err(|e| fail_sig("recv", e.to_string()))?;
                    high = t - 1;
                }
                q = lk_query_push(q, "", "qid", &idof(spec)).map_err(|e| fail_sig("qid", e.to_string()))?;
                let tag = tags;
                tags += 1;
                let since = head(&lk);
                let evs = std::mem::take(&mut *sh.log.borrow_mut());
                settle(&mut live, &evs, &what)?;
                let ret = lk_watch(&lk, &q, H { tag, spec, calls: 0, sh: sh.clone() }).map_err(|e| fail_sig("watch", e.to_string()))?;
                ensure_eq!(ret, 0, "nothing is called before lk_watch returns");
                let evs = std::mem::take(&mut *sh.log.borrow_mut());
                settle(&mut live, &evs, &what)?;
                ensure!(!live.iter().any(|l| l.spec == spec), "{what}: the earlier watch with this id was not told that it stopped");
                let mut on = false;
                lk_list_watches(&lk, &mut |i, _| on |= i == idof(spec));
                if on {
                    live.push(Live { tag, spec, since, high, got: vec![] })
                }
            }
            Step::Stop(w) => {
                let spec = *w as usize % k;
                lk_stop(&lk, &idof(spec), false);
                let evs = std::mem::take(&mut *sh.log.borrow_mut());
                settle(&mut live, &evs, &what)?;
                ensure!(!live.iter().any(|l| l.spec == spec), "{what}: not told that it stopped");
            }
            Step::Wait { on, us, feed } => {
                let on = on.map(|w| w as usize % k);
                let registered: Vec<usize> = live.iter().map(|l| l.spec).collect();
                let mine = on.and_then(|s| live.iter().position(|l| l.spec == s));
                let comes = |d: u8| feed.iter().any(|f| f.1 == d) || live.iter().any(|l| c.specs[l.spec].until_us.is_some() && c.specs[l.spec].on_stop == Some(d));
                // something has to end the wait: then allow it all the time there is
                let sure = match on {
                    None => live.iter().all(|l| c.specs[l.spec].until_us.is_some()),
                    Some(s) => mine.is_some() && (c.specs[s].until_us.is_some() || comes(c.specs[s].domain)),
                };
                let limit = if sure { 20_000_000 } else { *us as u64 + 1 };
                let base = sh.n.get();
                sh.n.set(base + feed.len() as u64);
                let t0 = Instant::now();
                let id = on.map(|s| idof(s));
                let (r, took) = std::thread::scope(|t| {
                    if !feed.is_empty() {
                        t.spawn(|| {
                            for (n, (us, d)) in feed.iter().enumerate() {
                                let t = Instant::now();
                                while t.elapsed() < Duration::from_micros(*us as u64) {
                                    std::hint::spin_loop()
                                }
                                en.e[0].save_dyn_one(&point(*d, base + 1 + n as u64)).expect("save");
                            }
                        });
                    }
                    let r = lk_process_while(&lk, id.as_deref(), Stamp::new(limit));
                    (r, t0.elapsed())
                });
                let evs = std::mem::take(&mut *sh.log.borrow_mut());
                let calls = |tag: usize| evs.iter().filter(|e| matches!(e, Ev::Call(t, _) if *t == tag)).count();
                let tag = mine.map(|i| live[i].tag);
                let seen = tag.map_or(0, calls);
                settle(&mut live, &evs, &what)?;
                let mut list = vec![];
                lk_list_watches(&lk, &mut |i, _| list.push(i.to_vec()));
                let mut want: Vec<_> = live.iter().map(|l| idof(l.spec)).collect();
                want.sort();
                ensure_eq!(list, want, "{what}: watches afterwards");
                waited += (took > Duration::from_micros(50)) as u32;
                match (r, on) {
                    (Err(e), Some(s)) => ensure!(!registered.contains(&s), "{what}: {e}"),
                    (Err(e), None) => return Err(format!("{what}: {e}").into()),
                    (Ok(_), Some(s)) if !registered.contains(&s) => return Err(format!("{what}: waits for a watch that does not exist").into()),
                    (Ok(0), _) => {
                        ensure!(took >= Duration::from_micros(limit), "{what}: gives up after {took:?}");
                        ensure!(!sure, "{what}: slept through what it waited for, {evs:?}");
                        ensure_eq!(seen, 0, "{what}: reports the time is up although the watch was called");
                        if let Some(t) = tag {
                            ensure!(live.iter().any(|l| l.tag == t), "{what}: reports the time is up although the watch ended");
                        }
                        o.class("time is up");
                    }
                    (Ok(1), None) => {
                        ensure!(live.is_empty(), "{what}: reports no watches while {list:?} are there");
                        o.class("no watch left");
                    }
                    (Ok(1), Some(_)) => {
                        ensure!(!live.iter().any(|l| Some(l.tag) == tag), "{what}: reports the watch as removed");
                        o.class("the watch ended");
                    }
                    (Ok(-1), Some(_)) => {
                        ensure!(live.iter().any(|l| Some(l.tag) == tag), "{what}: reports the watch as waiting for more");
                        ensure!(seen > 0, "{what}: reports the watch as called");
                        o.class("the watch was called");
                    }
                    (Ok(v), _) => return Err(format!("{what}: returns {v}").into()),
                }
                o.class_if(sure && *us > 0 && feed.is_empty() && on.is_some_and(|s| c.specs[s].until_us.is_none()), "woken by what another watch saved as it stopped");
            }
        }
    }
    // until callbacks save nothing more
    while { let a = head(&lk); head(&lk) != a } {}
    let evs = std::mem::take(&mut *sh.log.borrow_mut());
    settle(&mut live, &evs, "the end")?;
    let reader = lk_get_log(en);
    for l in &live {
        let s = &c.specs[l.spec];
        if s.until_us.is_none() {
            let want: Vec<u64> = reader.iter().filter(|(r, d)| *r > l.since && *d == s.domain).map(|p| p.0).collect();
            let upto = lk_process(&lk).get();
            let want: Vec<u64> = want.into_iter().filter(|r| *r <= upto).collect();
            ensure_eq!(l.got, want, "what watch {} saw", l.tag);
        }
    }
    o.nontrivial(waited > 0);
    Ok(())
}
fn lk_get_log(en: &Envs) -> Vec<(u64, u8)> {
    let txn = en.e[0].new_read_txn().expect("reader");
    let l = txn.pkts_after(Stamp::ZERO).map(|p| (p.recv.get(), p.pkt.as_point().get_domain()[15])).collect();
    l
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L02",
        rule: "a wait went on for more than 50us",
        assumptions: &["the store runs on the in-memory stand-in of LMDB", "a wait that has to end does so within 20 s"],
        subs: vec![sub("waits", 15_000, 300_000, case, waits)],
    }]
}
