//! Expressions and queries as the library offers them.
use crate::d2::{text, Mod, St, FIELDS};
use crate::d3::W;
use crate::d4::{pool, qs, Db, P, Q as Stmt};
use crate::gen;
use crate::model::{key, pubkey, small, Kind, H, M};
use crate::refabe::{self, A};
use fw::*;
use linkspace::abe::{lk_eval_loose, lk_try_encode};
use linkspace::point::*;
use linkspace::prelude::*;
use linkspace::query::{lk_hash_query, lk_query_clear, lk_query_compile, lk_query_parse, lk_query_print, lk_query_push};
use linkspace::{lk_encode, lk_eval, lk_query, lk_tokenize_abe, Query, Q};
use linkspace_pkt::reroute::RecvPkt;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

fn show(b: &[u8]) -> String {
    js(&String::from_utf8_lossy(b))
}
// ------------------------------------------------------------------ encode
fn opts() -> BoxedStrategy<Vec<u8>> {
    let one = prop_oneof![
        4 => gen::opts_text(),
        2 => prop::sample::select(vec!["#", "us", "~/", "//", "space", "~space", "@", "##", "b", "u32", "u64", "a", "?", "s", "readhash", "files", "0", ""]).prop_map(|s| s.as_bytes().to_vec()),
    ];
    (vec(one, 0..4), prop_oneof![3 => Just(None), 1 => gen::soup().prop_map(Some)])
        .prop_map(|(v, s)| s.unwrap_or_else(|| v.join(&b'/')))
        .boxed()
}
fn values() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => gen::bytes(40),
        2 => gen::short_bytes(),
        1 => prop_oneof![Just(PUBLIC.0.to_vec()), Just(PRIVATE.0.to_vec()), Just(b"LK1".to_vec())],
        1 => any::<u64>().prop_map(|v| v.to_be_bytes().to_vec()),
        1 => any::<u32>().prop_map(|v| v.to_be_bytes().to_vec()),
        1 => vec(vec(any::<u8>(), 1..5), 0..4).prop_map(|c| crate::model::space_bytes(&c)),
        1 => gen::any_text(),
    ]
    .boxed()
}
/// what lk_encode gives evaluates back to the bytes, whatever the options are
fn encode((bytes, opts, ignore): &(Vec<u8>, Vec<u8>, bool), o: &mut Obs) -> Res {
    let Ok(opts) = std::str::from_utf8(opts) else { return Ok(()) };
    let e = no_panic(|| lk_encode(bytes, opts))?;
    ensure!(e.bytes().all(|b| (0x20..0x7f).contains(&b)), "lk_encode({}, {opts:?}) is not plain ascii: {e:?}", show(bytes));
    let back = no_panic(|| lk_eval(&e, ()))?.map_err(|x| fail_sig("no-eval", format!("lk_encode({}, {opts:?}) = {e} does not evaluate: {x:#}", show(bytes))))?;
    ensure!(back == *bytes, "lk_encode({}, {opts:?}) = {e} evaluates to {}", show(bytes), show(&back));
    let plain = refabe::esc(bytes);
    let t = no_panic(|| lk_try_encode(bytes, opts, *ignore))?;
    match &t {
        Ok(s) => {
            // the lenient form only adds the plain text for want of anything better
            ensure!(*s == e, "lk_try_encode gives {s}, lk_encode {e}");
            o.nontrivial(s.contains('['));
        }
        Err(_) if *ignore => ensure_eq!(&e, &plain, "lk_encode without a fitting option, {opts:?}"),
        Err(_) => {}
    }
    if opts.is_empty() {
        ensure!(t.is_err(), "lk_try_encode without options gives {t:?}");
    }
    if opts.split('/').any(|p| p.is_empty()) && !opts.is_empty() && opts.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'/') && *ignore {
        ensure!(t.is_ok(), "an empty option stands for the plain text, {opts:?} gives {t:?}");
        o.class("falls back on plain text");
    }
    Ok(())
}
// ------------------------------------------------------------------ eval
#[derive(Clone, Debug)]
enum Seg {
    Prog(Vec<A>),
    Text(Vec<u8>),
    Arg(u8),
    ArgB64(u8),
    Field(u8),
}
#[derive(Clone, Debug)]
struct Ev {
    segs: Vec<Seg>,
    argv: Option<Vec<Vec<u8>>>,
    pkt: Option<P>,
    style: Vec<u8>,
    loose: Option<String>,
}
fn ev() -> impl Strategy<Value = Ev> {
    let seg = prop_oneof![
        3 => gen::program(2).prop_map(Seg::Prog),
        3 => gen::short_bytes().prop_map(Seg::Text),
        3 => prop_oneof![3 => 0u8..4, 1 => 0u8..9].prop_map(Seg::Arg),
        1 => (0u8..9).prop_map(Seg::ArgB64),
        3 => (0u8..6).prop_map(Seg::Field),
    ];
    (
        vec(seg, 0..5),
        proptest::option::weighted(0.9, prop_oneof![6 => vec(gen::short_bytes(), 2..9), 2 => vec(gen::short_bytes(), 7..11)]),
        proptest::option::weighted(0.85, pool(2).prop_filter_map("empty", |mut v| v.pop())),
        vec(any::<u8>(), 0..6),
        proptest::option::weighted(0.3, prop_oneof!["\\PC{1,6}", Just("🔗é\n\t\u{7f}".to_string()), "[\\x00-\\x1f\u{7f}-\u{ff}]{1,4}"]),
    )
        .prop_map(|(segs, argv, pkt, style, loose)| Ev { segs, argv, pkt, style, loose })
}
/// the base functions; whether another was called, that may mean something in the larger scope
struct Wide(std::cell::Cell<bool>);
impl Wide {
    fn note<V>(&self, r: refabe::R<V>) -> refabe::R<V> {
        if matches!(r, refabe::R::None) {
            self.0.set(true)
        }
        r
    }
}
impl refabe::RScope for Wide {
    fn func(&self, id: &[u8], a: &[&[u8]], init: bool, top: &dyn refabe::RScope) -> refabe::R {
        self.note(refabe::Basic.func(id, a, init, top))
    }
    fn mac(&self, id: &[u8], a: &[A], top: &dyn refabe::RScope) -> refabe::R {
        self.note(refabe::Basic.mac(id, a, top))
    }
    fn enc(&self, id: &[u8], opts: &[A], bytes: &[u8]) -> refabe::R<String> {
        self.note(refabe::Basic.enc(id, opts, bytes))
    }
}
const FIELD: [&str; 6] = ["hash", "group", "domain", "data", "create", "netflags"];
fn evals(c: &Ev, o: &mut Obs) -> Res {
    let m = c.pkt.as_ref().map(|p| p.m());
    let built = m.as_ref().map(|m| m.with(|n| n.as_netbox()).expect("a small packet"));
    let argv: Option<Vec<&[u8]>> = c.argv.as_ref().map(|v| v.iter().map(|v| &v[..]).collect());
    let mut text = String::new();
    let mut want: Option<Vec<u8>> = Some(vec![]);
    let mut open = false;
    let mut put = |w: &mut Option<Vec<u8>>, v: Option<Vec<u8>>| match (w.as_mut(), v) {
        (Some(w), Some(v)) => w.extend(v),
        _ => *w = None,
    };
    let _ = refabe::take_too_big();
    let wide = Wide(Default::default());
    for s in &c.segs {
        match s {
            Seg::Prog(p) => {
                let t = gen::styled_print(p, &c.style);
                text += &t;
                let r = refabe::parse(t.as_bytes(), false).map_err(|_| refabe::EErr::Other).and_then(|p| refabe::eval(&wide, &p));
                put(&mut want, r.ok().map(|l| refabe::join(&l)));
            }
            Seg::Text(b) => {
                text += &gen::styled(b, &c.style);
                put(&mut want, Some(b.clone()));
            }
            Seg::Arg(k) => {
                text += &format!("[{k}]");
                put(&mut want, argv.as_ref().and_then(|a| a.get(*k as usize)).map(|v| v.to_vec()));
            }
            Seg::ArgB64(k) => {
                text += &format!("[{k}/?b]");
                put(&mut want, argv.as_ref().and_then(|a| a.get(*k as usize)).map(|v| crate::refabe::b64url(v).into_bytes()));
                open = true;
            }
            Seg::Field(f) => {
                let f = FIELD[*f as usize % 6];
                text += &format!("[{f}]");
                let v = m.as_ref().and_then(|m| match f {
                    "hash" => Some(built.as_ref().unwrap().hash().0.to_vec()),
                    "data" => Some(m.data.clone()),
                    "netflags" => Some(vec![m.h.flags]),
                    _ if !m.is_linked() => {
                        open = true;
                        None
                    }
                    "group" => Some(m.group.to_vec()),
                    "domain" => Some(m.domain.to_vec()),
                    _ => Some(m.stamp.to_be_bytes().to_vec()),
                });
                put(&mut want, v);
            }
        }
    }
    if refabe::take_too_big() {
        return Ok(());
    }
    if wide.0.get() {
        open = true;
        want = None;
    }
    let ud = || linkspace::abe::scope::UserData { pkt: built.as_ref().map(|p| p as &dyn NetPkt), argv: argv.as_deref() };
    let got = no_panic(|| lk_eval(&text, ud()))?;
    if argv.as_ref().is_some_and(|a| a.len() > 8) {
        ensure!(got.is_err(), "{} arguments are accepted", argv.as_ref().unwrap().len());
        o.class("too many arguments");
        return Ok(());
    }
    match (&want, &got) {
        (Some(w), Ok(g)) => ensure!(w == g, "lk_eval({text:?}) is {}, not {}", show(g), show(w)),
        (Some(w), Err(e)) if !open => return Err(fail_sig("eval-fails", format!("lk_eval({text:?}) fails, not {}: {e:#}", show(w)))),
        (None, Ok(g)) if !open => return Err(fail_sig("eval-accepts", format!("lk_eval({text:?}) is {}, it has no value", show(g)))),
        _ => {}
    }
    o.nontrivial(want.is_some() && c.segs.len() >= 2);
    o.class_if(want.is_some() && m.is_some() && argv.is_some(), "packet and arguments");
    // anything may stand in a lenient expression
    if let (Some(l), Ok(g)) = (&c.loose, &got) {
        if !l.contains(['\\', '[', ']', ':', '/', '\n']) {
            let t = format!("{l}{text}{l}");
            let loose = no_panic(|| lk_eval_loose(&t, ud()))?.map_err(|e| fail_sig("loose", format!("lk_eval_loose({t:?}) fails: {e:#}")))?;
            ensure!(loose == [l.as_bytes(), g, l.as_bytes()].concat(), "lk_eval_loose({t:?}) is {}", show(&loose));
            if l.bytes().any(|b| !(0x20..0x7f).contains(&b)) {
                ensure!(no_panic(|| lk_eval(&t, ud()))?.is_err(), "lk_eval({t:?}) accepts bytes that are not plain ascii");
                o.class("not plain ascii");
            }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ tokenize
type Tok = (u8, bool, String);
fn r_tokens(t: &str, plain: &[u8]) -> Option<Vec<Tok>> {
    let b = t.as_bytes();
    let (mut out, mut at, mut head, mut inner, mut depth, mut i) = (vec![], 0, 0u8, false, 0usize, 0);
    if b.is_empty() {
        return Some(out);
    }
    while i < b.len() {
        match b[i] {
            b'\\' => {
                i += refabe::lex1(&b[i..])?.ok()?.1;
                continue;
            }
            c if plain.contains(&c) => {}
            c @ (b'/' | b':' | b'\n') => {
                if depth == 0 {
                    out.push((head, inner, t[at..i].to_string()));
                    (head, inner, at) = (c, false, i + 1);
                } else {
                    inner = true
                }
            }
            b'[' => (depth, inner) = (depth + 1, true),
            b']' => {
                depth = depth.checked_sub(1)?;
                inner = true
            }
            0x20..=0x7e => {}
            _ => return None,
        }
        i += 1;
    }
    if depth != 0 {
        return None;
    }
    if at < b.len() {
        out.push((head, inner, t[at..].to_string()));
    }
    Some(out)
}
fn tokens((t, plain, stop): &(Vec<u8>, Vec<u8>, u8), o: &mut Obs) -> Res {
    let Ok(t) = std::str::from_utf8(t) else { return Ok(()) };
    let run = |stop: usize| {
        let mut v: Vec<Tok> = vec![];
        let r = no_panic(|| {
            lk_tokenize_abe(t, plain, |c, inner, s| {
                v.push((c, inner, s.to_string()));
                v.len() < stop
            })
        })?;
        Ok::<_, Fail>((r, v))
    };
    let (r, v) = run(usize::MAX)?;
    match r_tokens(t, plain) {
        None => {
            ensure!(r.is_err(), "lk_tokenize_abe({t:?}, {plain:?}) is {v:?}");
            ensure!(v.is_empty(), "parts are handed out of an invalid expression");
        }
        Some(w) => {
            ensure!(r.is_ok() && v == w, "lk_tokenize_abe({t:?}, {:?}) is {r:?} {v:?}, not {w:?}", String::from_utf8_lossy(plain));
            let n = *stop as usize % 4 + 1;
            let (r, v) = run(n)?;
            ensure!(r.is_ok() && v[..] == w[..n.min(w.len())], "stopped after {n}: {v:?}");
            o.nontrivial(w.len() > 1);
            o.class_if(w.iter().any(|t| t.1), "brackets");
            o.class_if(plain.iter().any(|p| t.as_bytes().contains(p)), "plain delimiters");
        }
    }
    Ok(())
}
fn token_text() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => vec(prop::sample::select(vec!["a", "/", ":", "\n", "[", "]", "[x]", "[:/]", "\\n", "\\[", "\\x41", "[a[b/c]:d]", "é", " "]), 0..10).prop_map(|v| v.concat().into_bytes()),
        1 => gen::any_text(),
    ]
    .boxed()
}
// ------------------------------------------------------------------ queries
#[derive(Clone, Debug)]
struct Qc {
    ps: Vec<P>,
    q: Vec<Stmt>,
    styles: Vec<u8>,
    opts: Vec<(u8, Vec<u8>)>,
    at: u8,
}
fn qc() -> impl Strategy<Value = Qc> {
    (pool(10), qs(6), vec(any::<u8>(), 6..=6), vec((0u8..4, gen::short_bytes()), 0..4), any::<u8>()).prop_map(|(ps, q, styles, opts, at)| Qc { ps, q, styles, opts, at })
}
fn results(q: &Query, pks: &[crate::d4::Pk], at: u64) -> Result<Option<Vec<(bool, bool)>>, Fail> {
    let Ok(mut f) = lk_query_compile(lk_query(q)) else { return Ok(None) };
    let mut out = vec![];
    for (i, p) in pks.iter().enumerate() {
        let r = no_panic(|| f(&RecvPkt { recv: Stamp::new(at + i as u64), pkt: p.built.clone() }))?;
        out.push((r.0, r.1.is_break()));
        if r.1.is_break() {
            break;
        }
    }
    Ok(Some(out))
}
fn queries(c: &Qc, o: &mut Obs) -> Res {
    let pks = crate::l1::build(&c.ps);
    let mut db = Db::default();
    let at0 = 1_000_000_000u64;
    for i in 0..pks.len() {
        db.log.push((at0 + i as u64, i));
    }
    let mut model = Mod::default();
    let mut q = lk_query(&Q);
    let mut pushed = lk_query(&Q);
    let mut opts: Vec<(String, Vec<u8>)> = vec![];
    for (n, s) in c.q.iter().enumerate() {
        let s = s.st(&pks, &db);
        let style = c.styles[n % c.styles.len()];
        let t = text(&s, style);
        let mut m2 = model.clone();
        let ok = m2.add(&s) && m2.valid();
        let r = no_panic(|| lk_query_parse(lk_query(&q), &[&t], ()))?;
        // the value as an argument
        let (with_arg, push) = match &s {
            St::Num(i, op, v) => (
                Some(no_panic(|| lk_query_parse(lk_query(&q), &[&format!("{}:{}:[0]", FIELDS[*i].0, op.text())], &[&v[..]]))?),
                Some(no_panic(|| lk_query_push(lk_query(&pushed), FIELDS[*i].0, op.text(), v))?),
            ),
            _ => (None, None),
        };
        if m2.loose != 0 {
            break;
        }
        match r {
            Err(e) => {
                ensure!(!ok, "{t} is refused: {e:#}");
                ensure!(!matches!(with_arg, Some(Ok(_))), "{t} is refused, with its value as an argument it is not");
                ensure!(!matches!(push, Some(Ok(_))), "{t} is refused by lk_query_parse and taken by lk_query_push");
                o.class("conflict");
                break;
            }
            Ok(new) => {
                ensure!(ok, "{t} is taken, nothing can match");
                if let Some(a) = with_arg {
                    let a = a.map_err(|e| fail_sig("arg", format!("{t} with its value as an argument: {e:#}")))?;
                    ensure_eq!(lk_query_print(&a, false), lk_query_print(&new, false), "{t} with its value as an argument");
                }
                pushed = match push {
                    Some(p) => p.map_err(|e| fail_sig("push", format!("{t} by lk_query_push: {e:#}")))?,
                    None => lk_query_parse(pushed, &[&t], ()).map_err(|e| fail_sig("push", e.to_string()))?,
                };
                model = m2;
                q = new;
            }
        }
        if let Some((k, v)) = c.opts.get(n) {
            let name = ["qid", "mode", "follow", "x"][*k as usize % 4];
            let v = if name == "mode" { crate::d4::modes()[v.len() % 6].to_string().into_bytes() } else { v.clone() };
            q = lk_query_parse(q, &[&format!(":{name}:{}", gen::styled(&v, &c.styles))], ()).map_err(|e| fail_sig("option", format!("{e:#}")))?;
            pushed = lk_query_push(pushed, "", name, &v).map_err(|e| fail_sig("option", format!("{e:#}")))?;
            opts.push((name.into(), v));
        }
    }
    let at = at0 + c.at as u64 % 4;
    for expr in [false, true] {
        ensure_eq!(lk_query_print(&q, expr), lk_query_print(&pushed, expr), "pushed and parsed");
    }
    ensure_eq!(q.to_string(), pushed.to_string(), "pushed and parsed");
    // the last value of an option counts
    for name in ["qid", "mode", "follow", "x"] {
        let want = opts.iter().rev().find(|o| o.0 == name).map(|o| &o.1[..]);
        let got = q.as_impl().get_option(name.as_bytes()).map_err(|e| fail_sig("option", e.to_string()))?;
        ensure_eq!(got, want.map(Some), "option {name}");
    }
    // what it matches
    let mut w = W { m: model.clone(), new: 0, query: 0, tag: 0 };
    let got = results(&q, &pks, at)?;
    ensure_eq!(got.is_some(), w.live(), "a query that can match compiles");
    if let Some(got) = &got {
        for (i, g) in got.iter().enumerate() {
            let (ok, must, may) = w.step(&pks[i], at + i as u64);
            ensure_eq!(g.0, ok, "packet {i} matches {}", lk_query_print(&q, false));
            ensure!((!must || g.1) && (may || !g.1), "packet {i} is the last: {}, has to be {must}, may be {may}", g.1);
            if may {
                break;
            }
        }
        o.nontrivial(got.iter().any(|g| g.0) && got.iter().any(|g| !g.0));
    }
    // in print and back
    for expr in [false, true] {
        let p = lk_query_print(&q, expr);
        let lines: Vec<&str> = p.lines().filter(|l| !l.is_empty()).collect();
        // the topmost line of the options is the latest
        let r = no_panic(|| lk_query_parse(lk_query(&Q), &lines.iter().rev().copied().collect::<Vec<_>>(), ()))?;
        let Some(printed) = model.printed() else { continue };
        let r = r.map_err(|e| fail_sig("reparse", format!("the printed query\n{p}does not parse: {e:#}")))?;
        for n in ["qid", "mode", "follow", "x"] {
            ensure_eq!(r.as_impl().get_option(n.as_bytes()).ok(), q.as_impl().get_option(n.as_bytes()).ok(), "option {n} of the printed query\n{p}");
        }
        if !printed.valid() {
            continue;
        }
        let again = results(&r, &pks, at)?;
        let n = |l: &Option<Vec<(bool, bool)>>| l.as_ref().map(|l| l.iter().map(|e| e.0).collect::<Vec<_>>());
        if printed.f.iter().map(|f| f.stmts.len()).sum::<usize>() == model.f.iter().map(|f| f.stmts.len()).sum::<usize>() {
            ensure_eq!(n(&again), n(&got), "the printed query\n{p}");
        }
    }
    lk_query_clear(&mut pushed);
    ensure_eq!(lk_query_print(&pushed, false), lk_query_print(&Q, false), "cleared");
    // a hash has one packet
    if let Some(p) = pks.get(c.at as usize % pks.len().max(1)) {
        let h = lk_hash_query(B64(p.hash));
        let r = results(&h, &pks, at)?.ok_or_else(|| fail_sig("hash", "a hash query does not compile"))?;
        let first = pks.iter().position(|x| x.hash == p.hash).unwrap();
        ensure!(r.len() == first + 1 && r.iter().enumerate().all(|(i, g)| *g == (i == first, i == first)), "hash query: {r:?}, the packet is at {first}");
    }
    Ok(())
}
// ------------------------------------------------------------------ points
fn points(m: &M, o: &mut Obs) -> Res {
    let mut m = m.clone();
    m.h = H { prefix: *b"LK1", flags: 0, hop: 0, stamp: 0, ubits: [0; 4] };
    if m.kind == Kind::Error {
        return Ok(());
    }
    let links: Vec<Link> = m.links.iter().map(|l| Link { tag: AB(l.0), ptr: B64(l.1) }).collect();
    let sp = m.rspace();
    let (g, d, st) = (B64(m.group), AB(m.domain), Some(Stamp::new(m.stamp)));
    let p = match m.kind {
        Kind::Data => [lk_datapoint(&m.data), lk_datapoint_ref(&m.data).map(|v| v.as_netbox())],
        Kind::Link => [lk_linkpoint(&m.data, d, g, &sp, &links, st), lk_linkpoint_ref(&m.data, d, g, &sp, &links, st).map(|v| v.as_netbox())],
        Kind::Key(k) => [lk_keypoint(key(k), &m.data, d, g, &sp, &links, st), lk_keypoint_ref(key(k), &m.data, d, g, &sp, &links, st).map(|v| v.as_netbox())],
        Kind::Error => unreachable!(),
    };
    let wire = m.wire();
    for (i, p) in p.into_iter().enumerate() {
        let p = p.map_err(|e| fail_sig("build", format!("{e:#}")))?;
        ensure_eq!(p.data(), &m.data[..], "data");
        if m.is_linked() {
            ensure_eq!((p.get_group().0, p.get_domain().0, p.get_create_stamp().get()), (m.group, m.domain, m.stamp), "fields");
            ensure_eq!(p.get_links().iter().map(|l| (l.tag.0, l.ptr.0)).collect::<Vec<_>>(), m.links, "links");
            ensure_eq!(p.pubkey().map(|p| p.0), if let Kind::Key(k) = m.kind { Some(pubkey(k)) } else { None }, "public key");
        }
        // signatures are random
        if !matches!(m.kind, Kind::Key(_)) {
            ensure_eq!(p.hash().0, wire[32..64], "hash ({i})");
        }
        let b: Vec<u8> = p.byte_segments().to_bytes().into();
        crate::model::ref_read(&b, false).map_err(|e| fail_sig("invalid", format!("{e:?}")))?;
        let (q, rest) = lk_read(&b, true).map_err(|e| fail_sig("read", e.to_string()))?;
        ensure!(rest.is_empty() && q.hash() == p.hash(), "read back");
    }
    o.nontrivial(m.is_linked());
    Ok(())
}
fn uniform((b, tail): &([u8; 16], Vec<u8>), o: &mut Obs) -> Res {
    use linkspace::misc::{blake3_hash, bytes2uniform};
    let f = |b: &[u8]| no_panic(|| bytes2uniform(b));
    let x = f(&b[..8])?;
    let n = u64::from_be_bytes(b[..8].try_into().unwrap());
    ensure!((0.0..1.0).contains(&x), "{x} is not in [0,1)");
    ensure!(x == (n >> 12) as f64 / (1u64 << 52) as f64, "{x} is not the first 52 bits of {b:?}");
    ensure!(x == f(&[&b[..8], tail].concat())?, "only the first bytes count");
    ensure_eq!(blake3_hash(tail).0, <[u8; 32]>::from(blake3::hash(tail)), "hash");
    o.nontrivial(n > 0);
    Ok(())
}
// ------------------------------------------------------------------ as documented
fn documented(n: &u8, o: &mut Obs) -> Res {
    o.nontrivial(true);
    let e = |t: &str| lk_eval(t, ()).map_err(|x| fail_sig("documented", format!("{t}: {x:#}")));
    let eq = |t: &str, w: &[u8]| -> Res {
        let g = e(t)?;
        ensure!(g == w, "{t} evaluates to {}, the documentation has {}", show(&g), show(w));
        Ok(())
    };
    match n {
        0 => {
            eq("abc", b"abc")?;
            eq(r#"\0\x01\xff"#, &[0, 1, 255])?;
            eq("ab[u8:99]", b"abc")?;
            eq("The '' function returns its first [:argument]", b"The '' function returns its first argument")?;
            eq("Bytes[: are][: joined]", b"Bytes are joined")?;
            eq("Nest expressions [u8:65] == [u8:[:65]] == \x41", b"Nest expressions A == A == A")?;
            eq("Use result as first argument with '/' [u8:65] == [:65/u8] == \x41", b"Use result as first argument with '/' A == A == A")?;
            eq(r#"\n\t\:\/\\\[\]"#, b"\n\t:/\\[]")?;
            eq(r#"[?:\0\0\0[u8:8]:u32]"#, b"[u32:8]")?;
            eq(r#"[:\0\0\0[u8:8]/?:u32]"#, b"[u32:8]")?;
            eq(r#"[/?:\0\0\0[u8:8]/u32/#/b]"#, b"[u32:8]")?;
            ensure_eq!(lk_encode(e("[u32:8]")?, "/:"), r#"\0\0\0\x08"#, "documented");
            ensure_eq!(lk_encode(e("[u32:8]")?, "u32"), "[u32:8]", "documented");
            ensure_eq!(lk_encode(&*PUBLIC, "u32/#/b"), "[#:pub]", "documented");
        }
        1 => {
            let d = lk_datapoint(b"Some data").map_err(|e| fail_sig("documented", e.to_string()))?;
            ensure_eq!(d.hash().to_string(), "ATE6XG70_mx-kV2GCZUIkNijcPa8gd1-C3OYu1pXqcU", "documented hash of a data point");
            let d = lk_datapoint(b"this is a datapoint").unwrap();
            let links = [Link { tag: ab(b"a datapoint"), ptr: d.hash() }, Link { tag: ab(b"another tag"), ptr: PUBLIC }];
            let p = lk_linkpoint(b"extra data for the linkpoint", ab(b"mydomain"), PUBLIC, &rspace_buf(&[b"hello", b"world"]), &links, Some(Stamp::new(0))).unwrap();
            ensure_eq!(p.hash().to_string(), "IdnnQjgxJLGxLZGKdaXWVxc82-U8KyJoyKK3sKlD8Lc", "documented hash of a link point");
            ensure_eq!(*p.get_group(), PUBLIC, "group");
        }
        2 => {
            let p = lk_linkpoint(&[], ab(b"mydomain"), PUBLIC, RootedSpace::empty(), &[], None).unwrap();
            let p: &dyn NetPkt = &p;
            let e = |t: &str| lk_eval(t, p).map_err(|x| fail_sig("documented", format!("{t}: {x:#}")));
            ensure_eq!(e("[hash]")?, p.hash().0, "[hash]");
            ensure_eq!(e("[hash:str]")?, p.hash().b64().into_bytes(), "[hash:str]");
            ensure_eq!(e("[hash:str]")?, e("[hash/?b]")?, "[hash/?b]");
            let r = lk_eval("You can provide an argv [0] [1]", &[b"like" as &[u8], b"this"]).unwrap();
            ensure_eq!(r, b"You can provide an argv like this", "argv");
        }
        3 => {
            ensure_eq!(lk_eval_loose("abc 🔗🔗", ()).map_err(|e| fail_sig("documented", e.to_string()))?, "abc 🔗🔗".as_bytes(), "documented");
            ensure_eq!(lk_eval_loose("[a:🔗] [:🔗/?u]", ()).map_err(|e| fail_sig("documented", e.to_string()))?, "\0\0\0\0\0\0\0\0\0\0\0\0🔗 4036990103".as_bytes(), "documented");
        }
        4 => {
            let mut v = vec![];
            lk_tokenize_abe("this:is/the:example[::]\n[::]newline[:/]", b"/", |c, b, s| {
                v.push((c, b, s.to_string()));
                true
            })
            .unwrap();
            let w: Vec<Tok> = vec![(0, false, "this".into()), (b':', false, "is/the".into()), (b':', true, "example[::]".into()), (b'\n', true, "[::]newline[:/]".into())];
            ensure_eq!(v, w, "documented");
        }
        5 => {
            let mut q = lk_query_parse(lk_query(&Q), &["group:=:[#:pub]", "domain:=:[a:hello]", "prefix:=:/some/space", ":qid:default"], ()).map_err(|e| fail_sig("documented", e.to_string()))?;
            q = lk_query_parse(q, &["prefix:=:/some/[0]"], &[b"space" as &[u8]]).map_err(|e| fail_sig("documented", e.to_string()))?;
            ensure!(lk_query_parse(lk_query(&q), &["depth:=:[u8:0]"], ()).is_err(), "conflicting predicates");
            q = lk_query_push(q, "create", "<", &*now()).map_err(|e| fail_sig("documented", e.to_string()))?;
            lk_query_push(q, "create", "<", &e("[now:-1D]")?).map_err(|e| fail_sig("documented", e.to_string()))?;
        }
        _ => unreachable!(),
    }
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L04",
        rule: "an encoding other than plain text; an expression of at least two parts with a value; at least two parts; a query that accepts one packet and refuses another; a point with links",
        assumptions: &["padding to more than 1 MiB is out of bounds", "statements of which the implied type bits are left open end the query"],
        subs: vec![
            sub("encode", 25_000, 400_000, || (values(), opts(), any::<bool>()), encode),
            sub("eval", 25_000, 200_000, ev, evals),
            sub("tokens", 60_000, 400_000, || (token_text(), vec(prop::sample::select(b"/:\n/".to_vec()), 0..4), any::<u8>()), tokens),
            sub("queries", 8_000, 200_000, qc, queries),
            sub("points", 2_000, 40_000, small, points),
            sub("uniform", 5_000, 100_000, || (any::<[u8; 16]>(), gen::bytes(80)), uniform),
            fixed("documented", (0u8..6).collect(), documented),
        ],
    }]
}
