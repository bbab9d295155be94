//! Watches, time texts, header changes, partial hashes and the static names.
use crate::d1::{RSet, OPS};
use crate::d2::{ext, fidx, st, text, Mod, Op, St, FIELDS};
use crate::d4::{build, pool, preds, qs, Db, Pk, P, Q};
use crate::model::{self, H};
use fw::*;
use linkspace_core::eval::{eval, CORE_SCOPE};
use linkspace_core::matcher::{Matcher, WatchEntry};
use linkspace_core::mut_header::{MutFieldExpr, NetHeaderMutate};
use linkspace_core::partial_hash::PartialHash;
use linkspace_core::predicate::pkt_predicates::PktPredicates;
use linkspace_core::predicate::TestOp;
use linkspace_core::query::Query;
use linkspace_core::stamp_fmt::*;
use linkspace_core::stamp_range::StampRange;
use linkspace_pkt::abe::parse_abe_strict_b;
use linkspace_pkt::reroute::RecvPkt;
use linkspace_pkt::{NetPktHeader, NetPktPtr, Stamp, B64};
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::time::Duration;

// ------------------------------------------------------------------ watches
/// the model of a watch
#[derive(Clone, Debug)]
pub struct W {
    pub m: Mod,
    pub new: u32,
    pub query: u32,
    pub tag: usize,
}
pub fn some_from(r: &RSet, n: u32) -> bool {
    r.least(&n.to_be_bytes()).is_some()
}
/// no comparison lets anything from `n` on through
fn closed(r: &RSet, n: u32) -> bool {
    let cmp = RSet { n: 4, stmts: r.stmts.iter().filter(|s| !matches!(s.0, TestOp::Mask0 | TestOp::Mask1)).cloned().collect() };
    !some_from(&cmp, n)
}
impl W {
    pub fn r(&self, f: &str) -> &RSet {
        &self.m.f[fidx(f)]
    }
    pub fn live(&self) -> bool {
        some_from(self.r("i_new"), self.new) && some_from(self.r("i"), self.query)
    }
    pub fn high(&self) -> u64 {
        self.r("recv").range().map_or(0, |r| u64::from_be_bytes(r.1.try_into().unwrap()))
    }
    /// is a match, has to end, may end
    pub fn step(&mut self, pk: &Pk, recv: u64) -> (bool, bool, bool) {
        if recv > self.high() {
            return (false, true, true);
        }
        if !self.r("recv").test(&recv.to_be_bytes()) || !self.m.accepts(&pk.m, &pk.hash) {
            return (false, false, false);
        }
        let ok = self.r("i_new").test(&self.new.to_be_bytes()) && self.r("i").test(&self.query.to_be_bytes());
        self.new += 1;
        self.query += 1;
        let must = closed(self.r("i_new"), self.new) || closed(self.r("i"), self.query);
        (ok, must, !self.live())
    }
}
fn query(p: PktPredicates) -> Query {
    p.into()
}
fn rp(pk: &Pk, recv: u64) -> RecvPkt<&NetPktPtr> {
    RecvPkt { recv: Stamp::new(recv), pkt: pk.ptr() }
}
/// packets received one after the other from `start` on
fn log(ps: &[P], gaps: &[u8], start: u64) -> (Vec<Pk>, Db) {
    let pks = build(ps);
    let mut db = Db::default();
    let mut at = start;
    for i in 0..pks.len() {
        db.log.push((at, i));
        at += 1 + gaps.get(i).map_or(0, |g| *g as u64 % 4);
    }
    (pks, db)
}
type WCase = (Vec<P>, Vec<u8>, Vec<Q>, u32, bool);
fn entry((ps, gaps, q, nth, dynamic): &WCase, o: &mut Obs) -> Res {
    let start = crate::clock::start();
    let (pks, db) = log(ps, gaps, start);
    let (p, m) = preds(q.iter().map(|q| q.st(&pks, &db)))?;
    let mut w = W { m, new: 0, query: *nth, tag: 0 };
    let e = WatchEntry::new(b"x".to_vec(), query(p.clone()), *nth, (), tracing::Span::none());
    ensure_eq!(e.is_ok(), w.live(), "a watch from match {nth} on");
    o.class_if(!w.live(), "nothing to match from the start");
    let Ok(mut e) = e else { return Ok(()) };
    let id = e.watch_id;
    let mut f = query(p.clone()).compile().map_err(|e| fail_sig("compile", e.to_string()))?;
    let mut wf = W { query: 0, ..w.clone() };
    let (mut hits, mut on) = (0, true);
    for (recv, i) in &db.log {
        let (ok, must, may) = w.step(&pks[*i], *recv);
        let got = if *dynamic { e.test_dyn(&RecvPkt { recv: Stamp::new(*recv), pkt: pks[*i].built.clone() }) } else { e.test(rp(&pks[*i], *recv)) };
        ensure_eq!(got.0, ok, "match of packet {i} at {recv}");
        ensure!(!must || got.1.is_break(), "packet {i} at {recv} ends the watch");
        ensure!(may || got.1.is_continue(), "packet {i} at {recv} does not end the watch");
        ensure_eq!(e.last_test, got, "last test");
        ensure_eq!((e.nth_new, e.nth_query), (w.new, w.query), "counters");
        ensure_eq!((e.status().nth_query, e.status().watch_id), (w.query, id), "status");
        hits += ok as u32;
        // the predicate function counts from the first packet
        let (ok, must, may) = wf.step(&pks[*i], *recv);
        if on {
            let got = f(&RecvPkt { recv: Stamp::new(*recv), pkt: pks[*i].built.clone() });
            ensure_eq!(got.0, ok, "function: match of packet {i} at {recv}");
            ensure!(!must || got.1.is_break(), "function: packet {i} at {recv} is the last");
            ensure!(may || got.1.is_continue(), "function: packet {i} at {recv} is not the last");
            on = !may;
        }
        o.class_if(must, "ended");
        if may {
            break;
        }
    }
    o.nontrivial(hits > 0 && !q.is_empty());
    Ok(())
}
#[derive(Clone, Debug)]
enum Do {
    Register(u8, Vec<Q>, u8),
    Stop(u8, bool),
    Get(u8),
    /// packet, and which of the matching watches give up on it
    Packet(u8, u8),
    Pass(u8),
    Gc(u8),
}
fn id(k: u8) -> Vec<u8> {
    const IDS: [&[u8]; 12] = [b"", b"a", b"aa", b"aab", b"ab", b"b", b"ba", b"\0", b"\xff", b"\xff\xff", b"a\0", b"c"];
    IDS[k as usize % 12].to_vec()
}
fn dos() -> BoxedStrategy<Vec<Do>> {
    vec(
        prop_oneof![
            5 => (0u8..12, qs(4), 0u8..3).prop_map(|(k, q, n)| Do::Register(k, q, n)),
            2 => (0u8..12, any::<bool>()).prop_map(|(k, r)| Do::Stop(k, r)),
            1 => (0u8..12).prop_map(Do::Get),
            6 => (any::<u8>(), prop_oneof![2 => Just(255u8), 1 => 0u8..4]).prop_map(|(i, b)| Do::Packet(i, b)),
            1 => any::<u8>().prop_map(Do::Pass),
            1 => any::<u8>().prop_map(Do::Gc),
        ],
        1..20,
    )
    .boxed()
}
type Names = Vec<Vec<u8>>;
fn matcher((ps, steps): &(Vec<P>, Vec<Do>), o: &mut Obs) -> Res {
    let start = crate::clock::start();
    let mut now = start;
    let (pks, db) = log(ps, &[2; 40], start + 10);
    let mut real: Matcher<(Vec<u8>, usize)> = Matcher::default();
    let mut ws: BTreeMap<Vec<u8>, W> = BTreeMap::new();
    let (mut n, mut calls_total, mut dropped) = (0usize, 0, 0);
    for s in steps {
        match s {
            Do::Register(k, q, nth) => {
                let (p, m) = preds(q.iter().map(|q| q.st(&pks, &db)))?;
                n += 1;
                let w = W { m, new: 0, query: *nth as u32, tag: n };
                let Ok(e) = WatchEntry::new(id(*k), query(p), *nth as u32, (id(*k), n), tracing::Span::none()) else {
                    ensure!(!w.live(), "a watch is refused");
                    continue;
                };
                let keep = w.high() > now;
                let old = real.register(e);
                let want = if keep { ws.insert(id(*k), w) } else { ws.remove(&id(*k)) };
                ensure_eq!(old.map(|o| o.ctx), want.map(|w| (id(*k), w.tag)), "what a registration of {:?} replaces", id(*k));
                o.class_if(!keep, "registered too late");
            }
            Do::Stop(k, range) => {
                let mut got = vec![];
                let c = real.deregister(&id(*k), *range, |w| got.push(w.ctx.clone()));
                let gone: Names = ws.keys().filter(|i| if *range { i.starts_with(&id(*k)) } else { **i == id(*k) }).cloned().collect();
                o.class_if(*range && gone.len() > 1, "stopped a range");
                let want: Vec<_> = gone.iter().map(|i| (i.clone(), ws.remove(i).unwrap().tag)).collect();
                ensure_eq!((c, &got), (want.len(), &want), "stopping {:?}, range {range}", id(*k));
                dropped += c;
            }
            Do::Get(k) => {
                let got = real.get(&id(*k)).map(|e| (e.query_id.clone(), e.ctx.1));
                ensure_eq!(got, ws.get(&id(*k)).map(|w| (id(*k), w.tag)), "get {:?}", id(*k));
            }
            Do::Packet(i, quit) => {
                let Some((recv, p)) = db.log.get(*i as usize % db.log.len().max(1)).copied() else { continue };
                let (mut calls, mut drops) = (vec![], vec![]);
                real.trigger(
                    rp(&pks[p], recv),
                    |c| {
                        let stop = calls.len() == *quit as usize;
                        calls.push(c.clone());
                        if stop { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
                    },
                    |w| drops.push(w.ctx.clone()),
                );
                let mut want = vec![];
                let mut must = vec![];
                let mut may = vec![];
                for (id, w) in &mut ws {
                    let (ok, a, b) = w.step(&pks[p], recv);
                    let mut quits = false;
                    if ok {
                        quits = want.len() == *quit as usize;
                        want.push((id.clone(), w.tag));
                    }
                    if a || quits {
                        must.push((id.clone(), w.tag))
                    }
                    if b || quits {
                        may.push((id.clone(), w.tag))
                    }
                }
                ensure_eq!(calls, want, "watches called for packet {p} at {recv}");
                ensure!(must.iter().all(|m| drops.contains(m)), "packet {p} at {recv} ends {must:?}, dropped {drops:?}");
                ensure!(drops.iter().all(|d| may.contains(d)), "packet {p} at {recv} may end {may:?}, dropped {drops:?}");
                for d in &drops {
                    ws.remove(&d.0);
                }
                calls_total += calls.len();
                dropped += drops.len();
            }
            Do::Pass(t) => {
                now += *t as u64 % 32;
                crate::clock::set(now);
            }
            Do::Gc(t) => {
                let at = start + *t as u64 % 40;
                let mut told = vec![];
                let got = real.gc(Stamp::new(at), |w| told.push((w.query_id.clone(), w.ctx.1)));
                let n = ws.len();
                let want: Vec<_> = ws.iter().filter(|(_, w)| w.high() <= at).map(|(i, w)| (i.clone(), w.tag)).collect();
                ensure_eq!(told, want, "collected at {at}");
                ws.retain(|_, w| w.high() > at);
                dropped += n - ws.len();
                o.class_if(n > ws.len(), "collected");
                ensure_eq!(got.map(|s| s.get()), ws.values().map(|w| w.high()).min(), "when to collect next, at {at}");
            }
        }
        let got: Vec<_> = real.entries().iter().map(|e| (e.query_id.clone(), e.ctx.1, e.nth_new, e.nth_query)).collect();
        let want: Vec<_> = ws.iter().map(|(i, w)| (i.clone(), w.tag, w.new, w.query)).collect();
        ensure_eq!(got, want, "watches after {s:?}");
    }
    o.nontrivial(calls_total > 0 && dropped > 0);
    Ok(())
}
// ------------------------------------------------------------------ time
const US: [(char, u64); 9] = [
    ('Y', 31_557_600_000_000),
    ('M', 2_592_000_000_000),
    ('W', 604_800_000_000),
    ('D', 86_400_000_000),
    ('h', 3_600_000_000),
    ('m', 60_000_000),
    ('s', 1_000_000),
    ('l', 1_000),
    ('u', 1),
];
/// microseconds; Err(true): left open
fn dur(t: &[u8]) -> Result<u128, bool> {
    let mut sum = 0u128;
    let mut k = 0;
    for seg in t.split_inclusive(|c| c.is_ascii_alphabetic()) {
        let (u, d) = seg.split_last().unwrap();
        if d.first() == Some(&b'+') && d.len() > 1 {
            return Err(true);
        }
        if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) {
            return Err(false);
        }
        let n: u32 = std::str::from_utf8(d).unwrap().parse().map_err(|_| false)?;
        let i = US.iter().position(|f| f.0 as u32 == *u as u32).ok_or(false)?;
        if i < k {
            return Err(false);
        }
        k = i + 1;
        sum += n as u128 * US[i].1 as u128;
    }
    Ok(sum)
}
/// the digits of a duration in the units from the largest that fits on
fn parts(mut us: u64, precision: usize, units: usize) -> Vec<(u64, char)> {
    let l: Vec<_> = US[..precision].iter().filter(|f| f.1 <= us).take(units).collect();
    l.into_iter()
        .map(|(c, v)| {
            let n = us / v;
            us -= n * v;
            (n, *c)
        })
        .collect()
}
fn delta_text(now: u64, other: u64, precision: usize, units: usize) -> String {
    let (us, sign) = if other > now { (other - now, '+') } else { (now - other, '-') };
    let p = parts(us, precision, units);
    if p.is_empty() {
        return format!("{sign}0{}", US[precision - 1].0);
    }
    p.iter().fold(sign.to_string(), |s, (n, c)| s + &format!(" {n}{c}"))
}
fn stamp_val() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => any::<u64>(),
        2 => (0u32..64, any::<u64>()).prop_map(|(s, v)| v >> s),
        1 => (0u64..5).prop_map(|v| u64::MAX - v),
        1 => 0u64..5,
        3 => (0usize..9, 0u64..600, -2i64..3).prop_map(|(i, n, d)| US[i].1.saturating_mul(n).saturating_add_signed(d)),
        1 => 1_500_000_000_000_000u64..1_900_000_000_000_000,
    ]
    .boxed()
}
fn dur_text() -> BoxedStrategy<Vec<u8>> {
    let count = prop_oneof![4 => (0u32..100).prop_map(|n| n.to_string()), 1 => any::<u32>().prop_map(|n| n.to_string()), 1 => Just("4294967296".into()), 1 => "0{0,3}[0-9]{1,3}", 1 => Just(String::new())];
    let sorted = (vec((0usize..9, count), 0..6), any::<u8>()).prop_map(|(mut v, k)| {
        if k % 5 > 0 {
            v.sort_by_key(|a| a.0);
        }
        if k % 5 > 1 {
            v.dedup_by_key(|a| a.0);
            v.retain(|a| !a.1.is_empty());
        }
        v.iter().map(|(u, n)| format!("{n}{}", US[*u].0)).collect::<String>().into_bytes()
    });
    let soup = vec(proptest::sample::select(&b"YMWDhmsluxH0125+- .:\x80\xff"[..]), 0..8);
    prop_oneof![6 => sorted, 1 => soup, 1 => vec(any::<u8>(), 0..5)].boxed()
}
fn durations((t, us): &(Vec<u8>, u64), o: &mut Obs) -> Res {
    let want = dur(t);
    let got = no_panic(|| parse_duration_str(t).map(|d| d.as_nanos())).map_err(|p| fail_sig("duration text", format!("parsing {t:02x?} panics: {p}")))?;
    match &want {
        Err(true) => {}
        Err(false) => ensure!(got.is_err(), "{:?} is no duration, got {got:?}", String::from_utf8_lossy(t)),
        Ok(v) => {
            ensure!(got.as_ref().is_ok_and(|g| *g == v * 1000), "{:?} is {v} us, got {got:?} ns", String::from_utf8_lossy(t));
            let d: DurationStr = std::str::from_utf8(t).unwrap().parse().map_err(|e| fail_sig("duration", format!("{e}")))?;
            ensure_eq!(d.0.as_micros(), *v, "DurationStr");
            if *v <= u64::MAX as u128 {
                ensure_eq!(d.stamp().get() as u128, *v, "DurationStr as stamp");
            }
        }
    }
    o.nontrivial(want.as_ref().is_ok_and(|v| *v > 0) && *us > 0);
    // printed and read again
    let s = duration_as_stamp_dfmt(Duration::from_micros(*us));
    let p = parts(*us, 9, 9);
    let text = if p.is_empty() { "0u".to_string() } else { p.iter().filter(|p| p.0 > 0).map(|(n, c)| format!("{n}{c}")).collect() };
    ensure_eq!(s, text, "{us} us printed");
    let back = parse_duration_str(&s).map_err(|e| fail_sig("read back", format!("{s}: {e}")))?;
    ensure_eq!(back.as_micros() as u64, *us, "{s} read again");
    Ok(())
}
fn deltas((a, b, precision, units, near): &(u64, u64, usize, usize, Option<i32>), o: &mut Obs) -> Res {
    let b = near.map_or(*b, |d| a.saturating_add_signed(d as i64));
    let (x, y) = (Stamp::new(*a), Stamp::new(b));
    ensure_eq!(delta_stamp_p(x, y, *precision, *units), delta_text(*a, b, *precision, *units), "delta of {a} and {b}");
    ensure_eq!(delta_stamp(x, y), delta_text(*a, b, 9, 2), "delta of {a} and {b}");
    ensure_eq!(StampFmt::U64.stringify(x), a.to_string(), "decimal");
    crate::clock::set(*a);
    let f = StampFmt::delta(*precision, *units);
    let d = StampFmt::default();
    crate::clock::real();
    ensure_eq!(f.stringify(y), delta_text(*a, b, *precision, *units), "delta format");
    ensure_eq!(d.stringify(y), delta_text(*a, b, 9, 2), "default format");
    o.nontrivial(*a != b);
    o.class_if(b > *a, "later");
    Ok(())
}
/// what a text is as a stamp
fn stamp_of(t: &[u8], now: Option<u64>) -> Result<u64, bool> {
    match t {
        b"++" => return Ok(u64::MAX),
        b"--" => return Ok(0),
        _ => {}
    }
    if !t.is_empty() && t.iter().all(|c| c.is_ascii_digit()) {
        if let Ok(v) = std::str::from_utf8(t).unwrap().parse() {
            return Ok(v);
        }
    }
    let now = now.ok_or(false)?;
    match t {
        b"now" => Ok(now),
        [b'+', r @ ..] => dur(r).map(|d| (now as u128 + d).min(u64::MAX as u128) as u64),
        [b'-', r @ ..] => dur(r).map(|d| now.saturating_sub(d.min(u64::MAX as u128) as u64)),
        _ => Err(false),
    }
}
fn stamp_text() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => stamp_val().prop_map(|v| v.to_string().into_bytes()),
        1 => "[0-9]{0,22}".prop_map(|s| s.into_bytes()),
        3 => (any::<bool>(), dur_text()).prop_map(|(p, mut d)| { d.insert(0, if p { b'+' } else { b'-' }); d }),
        3 => proptest::sample::select(vec!["now", "++", "--", "0", "", "+", "-", "+++", "no", "nowx"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => vec(any::<u8>(), 0..4),
    ]
    .boxed()
}
fn stamps((a, b, now, sep): &(Vec<u8>, Vec<u8>, Option<u64>, bool), o: &mut Obs) -> Res {
    let one = |t: &[u8]| -> Result<Result<u64, bool>, Fail> {
        let want = stamp_of(t, *now);
        let got = no_panic(|| stamp_from_str(t, now.map(Stamp::new)).map(|s| s.get()).map_err(|_| false)).map_err(|p| fail_sig("stamp text", format!("{t:02x?} panics: {p}")))?;
        if want != Err(true) {
            ensure_eq!(got, want, "{:?} as a stamp at {now:?}", String::from_utf8_lossy(t));
        }
        Ok(want)
    };
    let (wa, wb) = (one(a)?, one(b)?);
    // a range
    let (Ok(ta), Ok(tb)) = (std::str::from_utf8(a), std::str::from_utf8(b)) else { return Ok(()) };
    if ta.contains("..") || tb.contains("..") || wa == Err(true) || wb == Err(true) {
        return Ok(());
    }
    let t = if *sep { format!("{ta}..{tb}") } else { ta.to_string() };
    let start = if ta.is_empty() { Ok(u64::MAX) } else { wa };
    let end = if !sep || tb.is_empty() { Ok(0) } else { wb };
    let got = StampRange::from_str_at(&t, now.map(Stamp::new));
    match (start, end) {
        (Ok(s), Ok(e)) => {
            let g = got.map_err(|e| fail_sig("range", format!("{t:?} is refused: {e}")))?;
            ensure_eq!((g.start, g.end), (s, e), "{t:?} as a range at {now:?}");
            let text = g.to_string();
            let back: StampRange = text.parse().map_err(|e| fail_sig("range text", format!("{text}: {e}")))?;
            ensure_eq!(back, g, "{text} read again");
            o.nontrivial(*sep && !ta.is_empty() && !tb.is_empty());
        }
        _ => ensure!(got.is_err(), "{t:?} is no range, got {got:?}"),
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct Expr {
    head: u8,
    stamp: u64,
    args: Vec<Vec<u8>>,
    now: u64,
}
fn expr() -> BoxedStrategy<Expr> {
    let arg = prop_oneof![
        6 => (0usize..4, dur_text()).prop_map(|(p, d)| [[&b"+"[..], b"++", b"-", b"--"][p], &d].concat()),
        1 => Just(vec![]),
        2 => proptest::sample::select(vec!["ticks", "val", "delta", "st", "now"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => vec(any::<u8>(), 0..3),
    ];
    (0u8..6, stamp_val(), vec(arg, 0..4), stamp_val()).prop_map(|(head, stamp, args, now)| Expr { head, stamp, args, now }).boxed()
}
fn exprs(x: &Expr, o: &mut Obs) -> Res {
    let args: String = x.args.iter().map(|a| format!(":{}", a.iter().map(|b| format!("\\x{b:02x}")).collect::<String>())).collect();
    let (t, start) = match x.head {
        0 => (format!("[us{args}]"), 0),
        1 => (format!("[now{args}]"), x.now),
        2 => (format!("[epoch{args}]"), 0),
        3 => (format!("[us++{args}]"), u64::MAX),
        _ => (format!("[u64:{}/us{args}]", x.stamp), x.stamp),
    };
    let want = (|| {
        let mut at = start;
        for (i, a) in x.args.iter().enumerate() {
            let last = i + 1 == x.args.len();
            let (op, sat, r) = match &a[..] {
                [] => continue,
                [b'+', b'+', r @ ..] => (true, true, r),
                [b'-', b'-', r @ ..] => (false, true, r),
                [b'+', r @ ..] => (true, false, r),
                [b'-', r @ ..] => (false, false, r),
                _ => {
                    let text = match &a[..] {
                        b"ticks" => delta_text(0, at, 9, 2),
                        b"val" => delta_text(0, at, 9, 9),
                        b"delta" => delta_text(x.now, at, 9, 2),
                        _ => return Err(false),
                    };
                    return if last { Ok(text.into_bytes()) } else { Err(false) };
                }
            };
            let d = dur(r)?;
            let d = match u64::try_from(d) {
                Ok(d) => d,
                // counts as the longest time there is
                Err(_) if sat => u64::MAX,
                Err(_) => return Err(true),
            };
            let v = if op { at.checked_add(d) } else { at.checked_sub(d) };
            at = match v {
                Some(v) => v,
                None if sat => if op { u64::MAX } else { 0 },
                None => return Err(false),
            }
        }
        Ok(at.to_be_bytes().to_vec())
    })();
    let abe = parse_abe_strict_b(t.as_bytes()).map_err(|e| fail_sig("expr", format!("{t}: {e}")))?;
    crate::clock::set(x.now);
    let got = no_panic(|| eval(&CORE_SCOPE, &abe).map_err(|e| e.to_string()).and_then(|l| l.into_exact_bytes().map_err(|l| format!("{l:?}"))));
    crate::clock::real();
    let got = got.map_err(|p| fail_sig("expr", format!("{t} panics: {p}")))?;
    match &want {
        Err(true) => {}
        Err(false) => ensure!(got.is_err(), "{t} is no stamp, got {got:?}"),
        Ok(w) => ensure!(got.as_ref() == Ok(w), "{t} at {}: expected {w:?}, got {got:?}", x.now),
    }
    o.nontrivial(want.is_ok() && x.args.iter().any(|a| a.len() > 2));
    o.class_if(want == Err(false), "refused");
    Ok(())
}
// ------------------------------------------------------------------ header changes
const ROUTE: [(&str, usize); 7] = [("netflags", 3), ("hop", 4), ("stamp", 8), ("ubits0", 16), ("ubits1", 20), ("ubits2", 24), ("ubits3", 28)];
#[derive(Clone, Debug)]
struct Mu {
    h: H,
    sts: Vec<(St, u8)>,
    off: usize,
}
fn mu() -> BoxedStrategy<Mu> {
    let route = (0usize..7, prop_oneof![8 => Just(Op::T(TestOp::Equal)), 1 => (0usize..6).prop_map(|i| Op::T(OPS[i])), 1 => Just(Op::Ge)], any::<[u8; 8]>(), any::<u8>()).prop_map(|(i, op, v, k)| {
        let f = fidx(ROUTE[i].0);
        let n = FIELDS[f].1;
        St::Num(f, op, if k == 0 { v[..n - 1].to_vec() } else { v[..n].to_vec() })
    });
    let one = prop_oneof![12 => route.boxed(), 1 => st(None)];
    (model_h(), vec((one, any::<u8>()), 0..6), 0usize..16).prop_map(|(h, sts, off)| Mu { h, sts, off }).boxed()
}
fn model_h() -> BoxedStrategy<H> {
    (any::<[u8; 3]>(), any::<u8>(), any::<u32>(), any::<u64>(), any::<[u32; 4]>())
        .prop_map(|(prefix, flags, hop, stamp, ubits)| H { prefix, flags, hop, stamp, ubits })
        .boxed()
}
fn bytes(h: &NetPktHeader) -> [u8; 32] {
    B64::from(*h).0
}
/// a header at any place in memory
fn apply(m: &NetHeaderMutate, h: &H, off: usize) -> Result<[u8; 32], Fail> {
    let mut room = [0u8; 64];
    room[off..off + 32].copy_from_slice(&bytes(&h.real()));
    no_panic(|| {
        // headers are packed: any address will do
        let p = unsafe { &mut *(room[off..].as_mut_ptr() as *mut NetPktHeader) };
        m.mutate(p)
    })
    .map_err(|p| fail_sig("mutate", format!("changing a header at offset {off} panics: {p}")))?;
    ensure!(room[..off].iter().chain(&room[off + 32..]).all(|b| *b == 0), "bytes next to the header changed");
    Ok(room[off..off + 32].try_into().unwrap())
}
fn mutates(x: &Mu, o: &mut Obs) -> Res {
    let mut m = NetHeaderMutate::DEFAULT;
    let mut want = x.h.bytes();
    let mut good = 0;
    let mut all = true;
    for (s, _) in &x.sts {
        // what the statement comes down to
        let set = match s {
            St::Num(i, Op::T(TestOp::Equal), v) if v.len() == FIELDS[*i].1 => ROUTE.iter().find(|r| r.0 == FIELDS[*i].0).map(|r| (r.1, v)),
            _ => None,
        };
        let before = m;
        let rules: Result<Vec<_>, _> = ext(s).try_iter().map(|i| i.collect());
        let got = match rules {
            Err(_) => {
                all = false;
                continue;
            }
            // a comparison every value passes says nothing
            Ok(r) if r.is_empty() => continue,
            Ok(r) => r.into_iter().try_for_each(|r| m.try_add_rule(r)),
        };
        ensure_eq!(got.is_ok(), set.is_some(), "{s:?} as a header change: {got:?}");
        match set {
            Some((at, v)) => {
                want[at..at + v.len()].copy_from_slice(v);
                good += 1;
            }
            None => {
                all = false;
                ensure_eq!(m, before, "a refused change");
            }
        }
        ensure_eq!(apply(&m, &x.h, x.off)?, want, "after {s:?}");
    }
    ensure_eq!(apply(&m, &x.h, x.off)?, want, "the header");
    // again from text
    let mut texts: Vec<MutFieldExpr> = vec![];
    for (s, style) in &x.sts {
        match text(s, *style).parse::<MutFieldExpr>() {
            Ok(t) => texts.push(t),
            Err(e) => {
                // an empty operand has no text of its own
                let empty = matches!(s, St::Num(_, _, v) if v.is_empty());
                ensure!(!all || empty, "{s:?} does not parse: {e}");
                return Ok(());
            }
        }
    }
    let l = NetHeaderMutate::from_lst(&texts, &CORE_SCOPE);
    ensure_eq!(l.is_ok(), all, "header changes from texts {:?}", x.sts);
    if let Ok(l) = l {
        ensure_eq!(apply(&l, &x.h, x.off)?, want, "from texts {:?}", x.sts);
        o.class_if(x.sts.len() > good, "vacuous");
    }
    o.nontrivial(good > 1);
    o.class_if(!all, "refused");
    Ok(())
}
// ------------------------------------------------------------------ partial hashes
fn b64(h: &[u8; 32]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    (0..43)
        .map(|i| {
            let v = (0..6).fold(0usize, |v, k| {
                let bit = i * 6 + k;
                v << 1 | if bit < 256 { (h[bit / 8] >> (7 - bit % 8) & 1) as usize } else { 0 }
            });
            A[v] as char
        })
        .collect()
}
type PCase = ([u8; 32], usize, Vec<(usize, u8)>, Vec<([u8; 32], usize)>);
fn partial((h, n, edits, others): &PCase, o: &mut Obs) -> Res {
    let mut t = b64(h).into_bytes();
    t.resize(*n, b'A');
    for (i, c) in edits {
        if let Some(b) = t.get_mut(*i % 45) {
            *b = *c
        }
    }
    let charset = t.iter().all(|c| c.is_ascii_alphanumeric() || b"-_".contains(c));
    let got = no_panic(|| PartialHash::try_from_strlike(&t)).map_err(|p| fail_sig("partial", format!("{t:02x?} panics: {p}")))?;
    if !(4..=43).contains(n) || !charset {
        ensure!(got.is_err(), "{t:02x?} is no partial hash");
        o.class("refused");
        return Ok(());
    }
    let text = std::str::from_utf8(&t).unwrap();
    // 43 characters have two bits to spare
    let fits = *n < 43 || b"AEIMQUYcgkosw048".contains(&t[42]);
    let Ok(p) = got else {
        ensure!(!fits, "{text} is refused");
        o.class("spare bits");
        return Ok(());
    };
    ensure_eq!(p.as_str(), text, "text");
    ensure_eq!(text.parse::<PartialHash>().ok(), Some(p), "from text");
    let mut whole = [*h].to_vec();
    for (h, n) in others {
        // hashes that share a beginning
        let mut o = *h;
        let n = *n % 33;
        o[..n].copy_from_slice(&whole[0][..n]);
        whole.push(o)
    }
    let low = no_panic(|| p.aprox_btree_idx()).map_err(|e| fail_sig("partial", format!("start of {text} panics: {e}")))?;
    let full = no_panic(|| p.complete_try_into()).map_err(|e| fail_sig("partial", format!("{text} completed panics: {e}")))?;
    let mut n_match = 0;
    for h in &whole {
        let s = b64(h);
        let m = s.starts_with(text);
        n_match += m as u32;
        let l = B64(*h);
        ensure_eq!(p.str_matches(&l), m, "{text} and {s}");
        ensure_eq!(p.str_greater_then(&l), text.as_bytes() > &s.as_bytes()[..text.len()], "{text} greater than {s}");
        ensure!(!m || low <= *h, "the start for {text} is past {s}");
        ensure_eq!(PartialHash::from(l).as_str().to_string(), s, "whole hash");
    }
    if fits {
        ensure!(b64(&low).starts_with(text), "the start for {text} is {}", b64(&low));
    }
    ensure_eq!(full.map(|f| b64(&f.0)), (fits && *n == 43).then(|| text.to_string()), "{text} completed");
    o.nontrivial(n_match > 0);
    o.class_if(*n == 43, "whole");
    Ok(())
}
// ------------------------------------------------------------------ static names
fn names((k, i, more, h): &(bool, usize, Vec<String>, [u8; 32]), o: &mut Obs) -> Res {
    use linkspace_core::consts::{PRIVATE, PUBLIC, TEST_GROUP};
    let list: Vec<(&str, [u8; 32])> = if *k { vec![("0", PRIVATE.0), ("pub", PUBLIC.0), ("test", TEST_GROUP.0)] } else { vec![("none", [0; 32])] };
    let f = if *k { "#" } else { "@" };
    let ev = |t: &str| {
        let abe = parse_abe_strict_b(t.as_bytes()).map_err(|e| e.to_string())?;
        eval(&CORE_SCOPE, &abe).map_err(|e| e.to_string()).and_then(|l| l.into_exact_bytes().map_err(|l| format!("{l:?}")))
    };
    let (name, v) = list[i % list.len()];
    let t = format!("[{f}:{name}]");
    ensure_eq!(ev(&t), Ok(v.to_vec()), "{t}");
    // any other name is not for this scope to resolve
    let first = more.first().cloned().unwrap_or_default();
    let long = format!("[{f}:{name}{}]", more.iter().map(|m| format!(":{m}")).collect::<String>());
    if !more.is_empty() {
        ensure!(ev(&long).is_err(), "{long} is not {name}");
    }
    if !list.iter().any(|l| l.0 == first) {
        let t = format!("[{f}:{first}]");
        ensure!(ev(&t).is_err(), "{t} resolves");
    }
    // and back
    let back = |b: &[u8]| {
        let abe = linkspace_pkt::abe::parse_abe_strict_b(format!("[:{}/?:{f}]", b.iter().map(|b| format!("\\x{b:02x}")).collect::<String>()).as_bytes()).map_err(|e| e.to_string())?;
        eval(&CORE_SCOPE, &abe).map_err(|e| e.to_string()).and_then(|l| l.into_exact_bytes().map_err(|l| format!("{l:?}")))
    };
    ensure_eq!(back(&v), Ok(format!("[{f}:{name}]").into_bytes()), "name of {name}");
    if !list.iter().any(|l| l.1 == *h) {
        ensure!(back(h).is_err(), "name of {h:?}");
    }
    o.nontrivial(!more.is_empty());
    Ok(())
}
pub fn props() -> Vec<Property> {
    let b64c = || proptest::sample::select(&b"ABEMZaz09-_+/= .\x80\xff"[..]);
    vec![
        Property {
            id: "D15",
            rule: "entry: a query with a statement matches; matcher: a watch was called and a watch ended",
            assumptions: &["a watch is called fewer than 2^32 times"],
            subs: vec![
                sub("entry", 15_000, 200_000, || (pool(12), vec(any::<u8>(), 0..12), qs(5), prop_oneof![4 => 0u32..4, 1 => 0u32..1_000_000, 1 => 0xffff_0000u32..0xffff_ff00], any::<bool>()), entry),
                sub("matcher", 10_000, 150_000, || (pool(10), dos()), matcher),
            ],
        },
        Property {
            id: "D16",
            rule: "durations and exprs: a valid text with a non-zero amount; deltas: two different stamps; stamps: a range with two ends",
            assumptions: &["the calendar form [now:str] comes from a stand-in of the time crate and is not judged"],
            subs: vec![
                sub("durations", 200_000, 1_000_000, || (dur_text(), stamp_val()), durations),
                sub("deltas", 200_000, 1_000_000, || (stamp_val(), stamp_val(), 1usize..10, 0usize..10, proptest::option::of(any::<i32>())), deltas),
                sub("stamps", 150_000, 1_000_000, || (stamp_text(), stamp_text(), proptest::option::of(stamp_val()), prop::bool::weighted(0.8)), stamps),
                sub("exprs", 200_000, 600_000, expr, exprs),
            ],
        },
        Property {
            id: "D17",
            rule: "two statements change the header",
            assumptions: &[],
            subs: vec![sub("mutate", 200_000, 1_000_000, mu, mutates)],
        },
        Property {
            id: "D18",
            rule: "the text is the beginning of a hash",
            assumptions: &[],
            subs: vec![sub("partial", 200_000, 1_000_000, move || (any::<[u8; 32]>(), prop_oneof![6 => 4usize..44, 1 => 0usize..50, 2 => 40usize..44], prop_oneof![3 => Just(vec![]), 2 => vec((0usize..45, b64c()), 1..3), 1 => vec((40usize..43, b64c()), 1..2)], vec((any::<[u8; 32]>(), 0usize..33), 0..4)), partial)],
        },
        Property {
            id: "D19",
            rule: "the name has further components",
            assumptions: &[],
            subs: vec![sub("names", 10_000, 50_000, || (any::<bool>(), 0usize..3, vec("[a-z0-9]{0,4}|pub|test|0|none", 0..4), prop_oneof![any::<[u8; 32]>(), Just([0; 32])]), names)],
        },
    ]
}
#[allow(unused)]
fn unused(_: model::M) {}
