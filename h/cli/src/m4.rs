//! Expressions, formats, keys and pull requests by command line.
use crate::d2::{fidx, text, Mod, Op, St, FIELDS};
use crate::d4::{answer, modes, pool, qs, Db, Pk, P, Q};
use crate::gen;
use crate::m2::{build, dest_args, dests, qy, stream, Dest, Qy, Sinks};
use crate::m3::{init, SHIM};
use crate::model::{self, Kind, M};
use crate::refabe::{self, A};
use crate::run::*;
use fw::*;
use linkspace_common::prelude::NetPkt as _;
use linkspace_core::prelude::{Query, CORE_SCOPE};

use linkspace_argon2_identity as id;
use linkspace_core::predicate::TestOp;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::BTreeMap;

fn show(b: &[u8]) -> String {
    js(&String::from_utf8_lossy(b))
}
/// the base functions; whether another was called, that may mean something in the larger scope
#[derive(Default)]
struct Wide(std::cell::Cell<bool>);
impl Wide {
    fn note<V>(&self, r: refabe::R<V>) -> refabe::R<V> {
        if matches!(r, refabe::R::None) {
            self.0.set(true)
        }
        r
    }
}
impl refabe::RScope for Wide {
    fn func(&self, id: &[u8], a: &[&[u8]], init: bool, top: &dyn refabe::RScope) -> refabe::R {
        self.note(refabe::Basic.func(id, a, init, top))
    }
    fn mac(&self, id: &[u8], a: &[A], top: &dyn refabe::RScope) -> refabe::R {
        self.note(refabe::Basic.mac(id, a, top))
    }
    fn enc(&self, id: &[u8], opts: &[A], bytes: &[u8]) -> refabe::R<String> {
        self.note(refabe::Basic.enc(id, opts, bytes))
    }
}
#[derive(Clone, Debug)]
enum Seg {
    Prog(Vec<A>),
    Text(Vec<u8>),
    Arg(u8),
    Slice(Vec<Vec<u8>>),
    Field(u8),
    /// ':' or '/'
    Ctr(bool),
}
fn seg() -> BoxedStrategy<Seg> {
    prop_oneof![
        3 => gen::program(2).prop_map(Seg::Prog),
        3 => gen::short_bytes().prop_map(Seg::Text),
        2 => any::<bool>().prop_map(Seg::Ctr),
        2 => prop_oneof![3 => 0u8..4, 1 => 0u8..11].prop_map(Seg::Arg),
        1 => vec(gen::idx_text(), 0..4).prop_map(Seg::Slice),
        2 => (0u8..6).prop_map(Seg::Field),
    ]
    .boxed()
}
const FIELD: [&str; 6] = ["hash", "data", "netflags", "group", "domain", "create"];
fn field(m: &M, hash: &[u8; 32], f: u8) -> Option<Vec<u8>> {
    Some(match FIELD[f as usize % 6] {
        "hash" => hash.to_vec(),
        "data" => m.data.clone(),
        "netflags" => vec![m.h.flags],
        _ if !m.is_linked() => return None,
        "group" => m.group.to_vec(),
        "domain" => m.domain.to_vec(),
        _ => m.stamp.to_be_bytes().to_vec(),
    })
}
enum Val {
    /// other parts of the program say what it is
    Open,
    Fails,
    Is(Vec<refabe::Comp>),
}
fn ctr_text(b: bool) -> (&'static str, u8) {
    if b {
        (":", b':')
    } else {
        ("/", b'/')
    }
}
fn print(segs: &[Seg], style: &[u8]) -> String {
    segs.iter()
        .map(|s| match s {
            Seg::Prog(p) => gen::styled_print(p, style),
            Seg::Text(b) => gen::styled(b, style),
            Seg::Arg(k) => format!("[{k}]"),
            Seg::Slice(v) => format!("[argv{}]", v.iter().map(|x| format!(":{}", gen::styled(x, style))).collect::<String>()),
            Seg::Field(f) => format!("[{}]", FIELD[*f as usize % 6]),
            Seg::Ctr(b) => ctr_text(*b).0.to_string(),
        })
        .collect()
}
fn value(segs: &[Seg], style: &[u8], args: Option<&[Vec<u8>]>, pkt: Option<(&M, &[u8; 32])>) -> Val {
    let wide = Wide::default();
    let _ = refabe::take_too_big();
    let mut out: Vec<refabe::It> = vec![];
    let mut fails = false;
    let mut open = false;
    for s in segs {
        let v = match s {
            Seg::Prog(p) => {
                let t = gen::styled_print(p, style);
                match refabe::parse(t.as_bytes(), false).map_err(|_| refabe::EErr::Other).and_then(|p| refabe::eval(&wide, &p)) {
                    Ok(l) => {
                        for (c, b) in l {
                            out.extend(c.map(refabe::It::C));
                            out.push(refabe::It::B(b))
                        }
                        continue;
                    }
                    Err(_) => None,
                }
            }
            Seg::Text(b) if b.is_empty() => continue,
            Seg::Text(b) => Some(b.clone()),
            Seg::Ctr(b) => {
                out.push(refabe::It::C(ctr_text(*b).1));
                continue;
            }
            Seg::Arg(k) => args.and_then(|a| a.get(*k as usize)).cloned(),
            Seg::Slice(v) => match args {
                Some(a) => refabe::ref_slice_idx(a.len(), &v.iter().map(|x| &x[..]).collect::<Vec<_>>()).map(|l| l.into_iter().flat_map(|i| a[i].clone()).collect()),
                None => None,
            },
            Seg::Field(f) => {
                let v = pkt.and_then(|(m, h)| field(m, h, *f));
                open |= v.is_none() && pkt.is_some();
                v
            }
        };
        match v {
            Some(b) => out.push(refabe::It::B(b)),
            None => fails = true,
        }
    }
    if refabe::take_too_big() || wide.0.get() || open {
        return Val::Open;
    }
    if fails {
        return Val::Fails;
    }
    Val::Is(refabe::collect_items(out))
}
// ------------------------------------------------------------------ eval
#[derive(Clone, Debug)]
struct Ev {
    segs: Vec<Seg>,
    style: Vec<u8>,
    /// expressions or bytes, how they are given, whether they are evaluated
    argv: Option<(Vec<Vec<Seg>>, u8, bool)>,
    json: bool,
    strict: bool,
    loose: Option<String>,
}
fn ev() -> BoxedStrategy<Ev> {
    let arg = prop_oneof![3 => gen::word().prop_map(|w| vec![Seg::Text(w)]), 1 => vec(prop_oneof![gen::short_bytes().prop_map(Seg::Text), (0u8..4).prop_map(Seg::Arg)], 0..3)];
    (
        vec(seg(), 0..5),
        vec(any::<u8>(), 0..6),
        proptest::option::weighted(0.6, (vec(arg, 0..12), 0u8..3, any::<bool>())),
        any::<bool>(),
        proptest::bool::weighted(0.4),
        proptest::option::weighted(0.2, prop_oneof!["\\PC{1,6}", Just("🔗é\t\u{7f}".to_string()), "[\\x01-\\x1f\u{7f}-\u{ff}]{1,4}"]),
    )
        .prop_map(|(mut segs, style, argv, json, strict, loose)| {
            // what is not there is a value of no use; now and then
            let n = argv.as_ref().map_or(0, |a| a.0.len());
            for (i, s) in segs.iter_mut().enumerate() {
                match s {
                    Seg::Arg(k) if *k as usize >= n && (n == 0 || *k != 10) => *s = if n == 0 { Seg::Text(vec![*k, i as u8]) } else { Seg::Arg(*k % n as u8) },
                    Seg::Field(k) if style.len() != 5 => *s = Seg::Text(vec![*k]),
                    _ => {}
                }
            }
            (segs, style, argv, json, strict, loose)
        })
        .prop_map(|(segs, style, argv, json, strict, loose)| Ev { segs, style, argv, json, strict, loose })
        .boxed()
}
fn json_text(l: &[refabe::Comp]) -> String {
    let one = |(c, b): &refabe::Comp| {
        let c = c.map_or("null".to_string(), |c| format!("\"{}\"", c as char));
        let b = match std::str::from_utf8(b) {
            Ok(s) => {
                let mut o = String::from("\"");
                for c in s.chars() {
                    match c {
                        '"' => o += "\\\"",
                        '\\' => o += "\\\\",
                        '\n' => o += "\\n",
                        '\r' => o += "\\r",
                        '\t' => o += "\\t",
                        '\u{8}' => o += "\\b",
                        '\u{c}' => o += "\\f",
                        c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
                        c => o.push(c),
                    }
                }
                o + "\""
            }
            Err(_) => format!("[{}]", b.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",")),
        };
        format!("[{c},{b}]")
    };
    format!("[{}]\n", l.iter().map(one).collect::<Vec<_>>().join(","))
}
fn evals(c: &Ev, o: &mut Obs) -> Res {
    let d = Dir::new();
    let mut t = print(&c.segs, &c.style);
    let mut odd = false;
    if let Some(l) = &c.loose {
        if l.contains(['\\', '[', ']', ':', '/', '\n', '\0']) {
            return Ok(());
        }
        odd = l.bytes().any(|b| !(0x20..0x7f).contains(&b));
        t = format!("{l}{t}{l}");
    }
    if t.starts_with('-') || t.is_empty() {
        return Ok(());
    }
    let mut args = a(&["eval"]);
    if c.json {
        args.push("--json".into())
    }
    if c.strict {
        args.push(if c.style.len() % 2 == 0 { "--strict".into() } else { "--no-loose".to_string() })
    }
    args.push(t.clone());
    let mut argv: Option<Vec<Vec<u8>>> = None;
    let mut fails = false;
    let mut input = vec![];
    if let Some((l, how, eval)) = &c.argv {
        args.push("argv".into());
        let mut vals: Vec<Vec<u8>> = vec![];
        let mut texts: Vec<Vec<u8>> = vec![];
        for s in l {
            let (t, v) = if *eval {
                // earlier ones may be named
                match value(s, &[2, 2, 2], Some(&vals), None) {
                    Val::Is(l) => (print(s, &[2, 2, 2]).into_bytes(), Some(refabe::join(&l))),
                    Val::Fails => (print(s, &[2, 2, 2]).into_bytes(), None),
                    Val::Open => return Ok(()),
                }
            } else {
                let b: Vec<u8> = s.iter().flat_map(|s| if let Seg::Text(b) = s { b.clone() } else { vec![] }).collect();
                (b.clone(), Some(b))
            };
            if t.contains(&b',') || t.contains(&0) && *how == 1 || (*how == 1 && std::str::from_utf8(&t).is_err()) {
                continue;
            }
            texts.push(t);
            match v {
                Some(v) => vals.push(v),
                None => {
                    fails = true;
                    break;
                }
            }
        }
        let mut all = texts.join(&b',');
        if texts.last().is_some_and(|l| l.is_empty()) {
            all.push(b',');
        }
        match how {
            0 => input = all,
            1 => args.extend([format!("--data-str={}", String::from_utf8(all).unwrap())]),
            _ => args.extend(["--data".to_string(), d.file("in", &all)]),
        }
        args.extend(a(&["--data-delim", ","]));
        if *eval {
            args.push("--data-eval".into())
        }
        argv = Some(vals);
    }
    let want = match value(&c.segs, &c.style, Some(argv.as_deref().unwrap_or(&[])), None) {
        Val::Open => {
            o.class("of a larger scope");
            None
        }
        Val::Fails => Some(None),
        Val::Is(l) => Some(Some(l)),
    };
    let r = lk(&d, &args, &input)?;
    let want = match want {
        // whatever it is
        None if !(fails || (odd && c.strict)) => return Ok(()),
        Some(Some(l)) if !(fails || (odd && c.strict)) => l,
        _ => {
            ensure!(!r.ok, "lk {args:?} gives {}, it has no value", show(&r.out));
            ensure!(r.out.is_empty(), "lk {args:?} fails after it wrote {}", show(&r.out));
            o.class("no value");
            return Ok(());
        }
    };
    ensure!(r.ok, "lk {args:?} failed, not {want:?}: {}", r.err);
    let want = match &c.loose {
        Some(l) => {
            let mut it = vec![refabe::It::B(l.as_bytes().to_vec())];
            for (c, b) in want {
                it.extend(c.map(refabe::It::C));
                it.push(refabe::It::B(b));
            }
            it.push(refabe::It::B(l.as_bytes().to_vec()));
            refabe::collect_items(it)
        }
        None => want,
    };
    let w = if c.json { json_text(&want).into_bytes() } else { refabe::join(&want) };
    ensure!(w == r.out, "lk {args:?} gives {}, not {}", show(&r.out), show(&w));
    o.nontrivial(c.segs.len() > 1);
    o.class_if(c.json, "json");
    o.class_if(argv.is_some_and(|v| !v.is_empty()) && c.segs.iter().any(|s| matches!(s, Seg::Arg(_) | Seg::Slice(_))), "with arguments");
    o.class_if(odd, "not plain ascii");
    Ok(())
}
// ------------------------------------------------------------------ encode
fn encode((bytes, opts, ignore): &(Vec<u8>, Vec<Vec<u8>>, u8), o: &mut Obs) -> Res {
    let opts = opts.join(&b'/');
    let Ok(opts) = std::str::from_utf8(&opts) else { return Ok(()) };
    if opts.starts_with('-') || opts.contains('\0') || opts.is_empty() {
        return Ok(());
    }
    let d = Dir::new();
    let mut args = a(&["encode"]);
    match ignore {
        1 => args.push("-i".into()),
        2 => args.push("-ii".into()),
        3 => args.extend(a(&["--ignore-err", "--ignore-err"])),
        _ => {}
    }
    args.push(opts.into());
    let ignore = (*ignore).min(2);
    let wide = Wide::default();
    let _ = refabe::take_too_big();
    let mut want = refabe::encode(&wide, bytes, opts.as_bytes(), ignore > 0);
    if want.is_none() && ignore == 2 {
        want = Some(refabe::esc(bytes));
    }
    let r = lk(&d, &args, bytes)?;
    let got = r.ok.then(|| String::from_utf8_lossy(&r.out).into_owned());
    if refabe::take_too_big() {
        return Ok(());
    }
    if wide.0.get() {
        ensure!(ignore < 2 || got.is_some(), "lk {args:?} on {} failed: {}", show(bytes), r.err);
    } else {
        ensure_eq!(got, want, "lk {args:?} on {}: {}", show(bytes), r.err);
    }
    if !r.ok {
        ensure!(r.out.is_empty(), "lk {args:?} failed after it wrote {}", show(&r.out));
        return Ok(());
    }
    // back again
    let t = got.unwrap();
    if t.starts_with('-') || t.is_empty() {
        return Ok(());
    }
    let back = good(&d, &a(&["eval", "--strict", &t]), &[])?;
    ensure!(back == *bytes, "lk {args:?} on {} gives {t:?}, which evaluates to {}", show(bytes), show(&back));
    o.nontrivial(t.contains('['));
    Ok(())
}
// ------------------------------------------------------------------ formats
#[derive(Clone, Debug)]
struct Pf {
    fmts: Vec<(Vec<Seg>, Vec<u8>)>,
    delim: Option<Vec<Seg>>,
    error: Option<Vec<Seg>>,
    join: bool,
    inspect: bool,
    silent: bool,
    f: Option<Vec<Dest>>,
    read: Option<bool>,
    write: Option<bool>,
    hop: bool,
    env: bool,
}
fn pf() -> BoxedStrategy<(Vec<P>, Pf)> {
    let one = || prop_oneof![1 => gen::program(1).prop_map(Seg::Prog), 3 => gen::short_bytes().prop_map(Seg::Text), 1 => any::<bool>().prop_map(Seg::Ctr), 4 => (0u8..3).prop_map(Seg::Field), 2 => (3u8..6).prop_map(Seg::Field)];
    let text = || vec(prop_oneof![3 => gen::short_bytes().prop_map(Seg::Text), 1 => any::<bool>().prop_map(Seg::Ctr)], 0..2);
    let fmts = vec((vec(one(), 0..4), vec(any::<u8>(), 0..4)), 1..4);
    let b = || prop_oneof![3 => Just(None), 1 => Just(Some(true)), 1 => Just(Some(false))];
    let c = (fmts, proptest::option::of(text()), proptest::option::of(text()), any::<(bool, bool, bool, bool, bool)>(), dests(3), b(), b()).prop_map(|(fmts, delim, error, (join, inspect, silent, hop, env), f, read, write)| Pf { fmts, delim, error, join, inspect, silent, f, read, write, hop, env });
    (pool(8), c).boxed()
}
fn pktf((ps, c): &(Vec<P>, Pf), o: &mut Obs) -> Res {
    let d = Dir::new();
    let mut pks = build(ps);
    pks.retain(|p| p.m.kind != Kind::Error);
    let mut args = a(&["--hop", &c.hop.to_string()]);
    for (v, n) in [(c.read, "--private-read"), (c.write, "--private-write")] {
        if let Some(v) = v {
            args.extend(a(&[n, &v.to_string()]));
        }
    }
    args.push("pktf".into());
    let texts: Vec<String> = c.fmts.iter().map(|(s, st)| print(s, st)).collect();
    if texts.iter().any(|t| t.starts_with('-') || t.is_empty()) {
        return Ok(());
    }
    let plain = |s: &[Seg]| -> Option<(String, Vec<u8>)> {
        match value(s, &[1, 2, 3], None, None) {
            Val::Is(l) => Some((print(s, &[1, 2, 3]), refabe::join(&l))),
            _ => None,
        }
    };
    let mut delim = b"\n".to_vec();
    if let Some((t, v)) = c.delim.as_ref().and_then(|s| plain(s)) {
        args.push(format!("--delimiter={t}"));
        delim = v;
    }
    let mut error = None;
    if let Some((t, v)) = c.error.as_ref().and_then(|s| plain(s)) {
        args.push(format!("--error={t}"));
        error = Some(v);
    }
    for (b, n) in [(c.join, "--join-delimiter"), (c.inspect, "--inspect"), (c.silent || c.inspect, "--silent")] {
        if b {
            args.push(n.into())
        }
    }
    args.extend(dest_args("--forward", &c.f, &d));
    let mut env = vec![];
    if c.env && texts.len() == 1 {
        env.push(("LK_PKTF", texts[0].as_str()));
    } else {
        args.extend(texts.iter().cloned());
    }
    let mut fwd = c.f.clone().unwrap_or(vec![Dest::Null]);
    if c.inspect {
        fwd.push(Dest::Stdout);
    }
    let mut s = Sinks::default();
    let mut txt = vec![];
    let mut ok = true;
    let (mut n, mut bad, mut forms) = (0, 0, 0u8);
    for p in &pks {
        let private = p.m.is_linked() && p.m.group == [0; 32];
        if private && c.read == Some(false) {
            ok = false;
            break;
        }
        if private && c.write == Some(false) {
            continue;
        }
        let mut m = p.m.clone();
        if c.hop {
            m.h.hop = m.h.hop.saturating_add(1);
        }
        let k = match m.kind {
            Kind::Data => 0,
            Kind::Link => 1,
            _ => 2,
        };
        let f = &c.fmts[k.min(c.fmts.len() - 1)];
        forms |= 1 << k.min(c.fmts.len() - 1);
        let v = match value(&f.0, &f.1, None, Some((&m, &p.hash))) {
            Val::Open => {
                o.class("of a larger scope");
                return Ok(());
            }
            Val::Is(l) => refabe::join(&l),
            Val::Fails => {
                bad += 1;
                match &error {
                    Some(e) => e.clone(),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
        };
        let mut line = vec![];
        if c.join && n > 0 {
            line.extend(&delim);
        }
        line.extend(v);
        if !c.join {
            line.extend(&delim);
        }
        if c.inspect {
            txt.extend(line);
        } else {
            s.text(&line);
        }
        // what it looks like is shown, the packet itself goes nowhere unless that is allowed
        if !private || c.write == Some(true) {
            s.write(&fwd, &m.wire());
        }
        n += 1;
    }
    let r = lk_env(&d, &args, &stream(&pks), &env)?;
    let what = format!("{env:?} lk {args:?}");
    ensure_eq!(r.ok, ok, "{what}: {}", r.err);
    s.check(&what, &d, &r.out)?;
    if c.inspect {
        let t = String::from_utf8_lossy(&txt);
        ensure!(if ok { r.err == t } else { r.err.starts_with(&*t) }, "{what}: printed {:?}, not {t:?}", r.err);
    }
    o.nontrivial(n > 1);
    o.class_if(forms.count_ones() > 1, "several forms");
    o.class_if(bad > 0 && ok, "the text for errors");
    o.class_if(!ok, "ended by an error");
    o.class_if(c.inspect && n > 0, "to stderr");
    Ok(())
}
// ------------------------------------------------------------------ keys
#[derive(Clone, Debug)]
struct Kop {
    name: u8,
    pass: u8,
    new: Option<u8>,
    from: Option<(bool, u8)>,
    flags: u16,
    style: u8,
}
fn kops() -> BoxedStrategy<Vec<Kop>> {
    let k = (prop_oneof![3 => 0u8..3, 1 => 0u8..5], prop_oneof![4 => Just(0u8), 2 => 0u8..5], proptest::option::weighted(0.2, 0u8..5), proptest::option::weighted(0.25, any::<(bool, u8)>()), prop_oneof![2 => Just(0u16), 3 => any::<u16>()], any::<u8>()).prop_map(|(name, pass, new, from, flags, style)| Kop { name, pass, new, from, flags, style });
    vec(k, 1..9).boxed()
}
const NAMES: [&str; 5] = ["me:local", "a:local", "b c:local", "b:local", "[u8:7]:local"];
const PASS: [&[u8]; 5] = [b"pw", b"", b"\x00\xff:/[", "p\u{e9}".as_bytes(), b"[u8:3]"];
fn pass_text(p: u8, utf8: bool) -> Option<String> {
    let p = PASS[p as usize % 5];
    if utf8 {
        return (!p.contains(&0)).then(|| String::from_utf8(p.to_vec()).ok()).flatten();
    }
    Some(esc(p))
}
fn pass_args(p: u8, style: u8) -> Vec<String> {
    match pass_text(p, true) {
        Some(t) if style % 3 == 0 => vec!["--utf8-password".into(), format!("--password={t}")],
        _ => vec![format!("--password={}", pass_text(p, false).unwrap())],
    }
}
/// a stored key: its text, the password, the public key
type Key = (String, u8, [u8; 32]);
fn opens(enckey: &str, pass: u8) -> Option<[u8; 32]> {
    let k = id::decrypt(enckey, PASS[pass as usize % 5]).ok()?;
    Some(k.pubkey_bytes())
}
fn keys(ops: &Vec<Kop>, o: &mut Obs) -> Res {
    let d = Dir::new();
    init(&d)?;
    let mut store: BTreeMap<u8, Key> = BTreeMap::new();
    let mut all: Vec<Key> = vec![];
    let (mut made, mut found, mut refused, mut signed) = (0, 0, 0, 0);
    for (at, k) in ops.iter().enumerate() {
        let flag = |i: u16| k.flags & (1 << i) != 0 && k.flags & (1 << (i + 8)) != 0;
        let name = k.name % 5;
        let pass = k.pass % 5;
        let named = |env: &mut Vec<(&'static str, &'static str)>| -> Vec<String> {
            let n = NAMES[name as usize];
            match k.style % 4 {
                0 if name == 0 => vec![],
                1 => {
                    env.push(("LK_KEYNAME", n));
                    vec![]
                }
                _ => a(&["--key", n]),
            }
        };
        let mut env = vec![];
        if flag(0) || flag(1) {
            // a point signed by it
            let mut args = a(&["keypoint"]);
            args.extend(named(&mut env));
            args.extend(pass_args(pass, k.style));
            args.extend(a(&[&format!("d:{}", hash_text(&[5; 32], 0))]));
            let r = lk_env(&d, &args, &[], &env)?;
            let want = store.get(&name).filter(|s| s.1 == pass);
            let what = format!("step {at}: {env:?} lk {args:?}");
            ensure_eq!(r.ok, want.is_some(), "{what}: {}", r.err);
            let l = split(&what, &r.out)?;
            match want {
                Some(w) => {
                    ensure_eq!(l.len(), 1, "{what}: number of points");
                    let v = model::ref_read(&l[0], false).map_err(|e| Fail::from(format!("{what}: {e:?}")))?;
                    let s = v.signed.clone().ok_or_else(|| Fail::from(format!("{what}: not signed")))?;
                    ensure_eq!(&l[0][s][..32], &w.2[..], "{what}: the key");
                    signed += 1;
                }
                None => {
                    ensure!(l.is_empty(), "{what}: a point without the key");
                    refused += 1;
                }
            }
            continue;
        }
        let mut args = a(&["key", "--decrypt-cost", "0"]);
        let no_lk = flag(2);
        let (overwrite, no_check, some, none, no_enc, no_pub) = (flag(3) && !no_lk, flag(4), flag(5) && !no_lk, flag(6) && !no_lk, k.style % 7 == 0, k.style % 11 == 0);
        if !no_lk {
            args.extend(named(&mut env));
        }
        for (b, n) in [(no_lk, "--no-lk"), (overwrite, "--overwrite"), (no_check, "--no-check"), (some, "--error-some"), (none, "--error-none"), (no_enc, "--no-enckey"), (no_pub, "--no-pubkey")] {
            if b {
                args.push(n.into())
            }
        }
        args.extend(pass_args(pass, k.style));
        let given: Option<Key> = match &k.from {
            // one of before, or one of ours
            Some((true, i)) if !all.is_empty() => Some(all[*i as usize % all.len()].clone()),
            Some((_, i)) => Some((enckey(*i).to_string(), 0, model::pubkey(i % 4))),
            None => None,
        };
        if let Some(g) = &given {
            args.extend(a(&["--enckey", &g.0]));
        }
        if overwrite && k.new.is_some() && given.is_none() {
            // which of the two it asks for is not settled
            continue;
        }
        let utf8 = args.iter().any(|a| a == "--utf8-password");
        let new = k.new.and_then(|n| pass_text(n % 5, utf8).map(|t| (n % 5, t)));
        if let Some((_, t)) = &new {
            args.push(format!("--new-pass-str={t}"));
        }
        let what = format!("step {at}: {env:?} lk {args:?}");
        let r = lk_env(&d, &args, &[], &env)?;
        let out = String::from_utf8(r.out).map_err(|e| Fail::from(format!("{what}: {e}")))?;
        let lines: Vec<&str> = out.lines().collect();
        // the rule
        let in_store = if no_lk { None } else { store.get(&name).cloned() };
        let cur = given.clone().or(in_store.clone());
        // the options on what is there are about the store, and only asked if the key is to come from it
        let looks = given.is_none() && !no_lk;
        let ok = if looks && in_store.is_none() && none || looks && in_store.is_some() && some {
            false
        } else if let Some(_) = &new {
            // has to be opened first
            cur.as_ref().is_some_and(|c| c.1 == pass) && !(given.is_some() && !no_lk && !overwrite)
        } else if overwrite {
            given.as_ref().is_none_or_(|g| no_check || g.1 == pass)
        } else if given.is_some() && !no_lk {
            false
        } else {
            cur.as_ref().is_none_or_(|c| no_check || c.1 == pass)
        };
        ensure_eq!(r.ok, ok, "{what} with {:?} under the name: {}", in_store.as_ref().map(|k| PASS[k.1 as usize]), r.err);
        if !ok {
            ensure!(lines.is_empty(), "{what} fails and prints {out}");
            refused += 1;
            continue;
        }
        ensure_eq!(lines.len(), !no_enc as usize + !no_pub as usize, "{what}: lines printed: {out}");
        let enc = (!no_enc).then(|| lines[0].to_string());
        let publ = if no_pub { None } else { Some(refabe::b64url_dec(lines[lines.len() - 1].as_bytes()).filter(|p| p.len() == 32).ok_or_else(|| Fail::from(format!("{what}: no public key: {out}")))?) };
        let want_pass = new.as_ref().map_or(pass, |n| n.0);
        let creates = if overwrite { given.is_none() } else { cur.is_none() };
        if let Some(e) = &enc {
            if creates || new.is_some() {
                let p = opens(e, want_pass).ok_or_else(|| Fail::from(format!("{what}: the key printed does not open with the password")))?;
                ensure!(publ.as_ref().map_or(true, |q| q[..] == p[..]), "{what}: the two lines are of different keys");
                ensure!(opens(e, (want_pass + 1) % 5).is_none(), "{what}: the key opens with another password");
                if creates {
                    ensure!(all.iter().all(|k| k.2 != p), "{what}: a key of before");
                }
            }
        }
        let was = if creates { None } else { cur.clone() };
        if let Some(c) = &was {
            if let Some(e) = &enc {
                ensure!(new.is_some() || *e == c.0, "{what}: prints {e}, was {}", c.0);
            }
            if let Some(p) = &publ {
                ensure_eq!(&p[..], &c.2[..], "{what}: public key");
            }
            found += 1;
        }
        // what is under the name now
        let sets = overwrite || (creates && !no_lk);
        made += creates as usize;
        let key = if sets || creates {
            // it has to be known to go on
            let mut e2 = vec![];
            let (e, p) = match (enc, no_lk) {
                (Some(e), _) => (e, None),
                (None, true) => continue,
                (None, false) => {
                    // asked for
                    let mut args = a(&["key", "--no-check"]);
                    args.extend(named(&mut e2));
                    let t = good_env(&d, &args, &e2)?;
                    let t = String::from_utf8_lossy(&t).into_owned();
                    (t.lines().next().unwrap_or_default().to_string(), t.lines().nth(1).map(String::from))
                }
            };
            let pk = id::pubkey(&e).map_err(|e| Fail::from(format!("{what}: {e:#}")))?;
            if let Some(p) = p {
                ensure_eq!(p, b64(&pk), "{what}: the key under the name");
            }
            if let Some(p) = &publ {
                ensure_eq!(&p[..], &pk[..], "{what}: the key under the name");
            }
            let pass = if creates || new.is_some() { want_pass } else { given.as_ref().unwrap().1 };
            (e, pass, pk)
        } else {
            continue;
        };
        if sets {
            store.insert(name, key.clone());
        }
        all.push(key);
    }
    o.nontrivial(made > 0 && (found > 0 || signed > 0));
    o.class_if(refused > 0, "refused");
    o.class_if(signed > 0, "signed");
    Ok(())
}
fn good_env(d: &Dir, args: &[String], env: &[(&str, &str)]) -> Result<Vec<u8>, Fail> {
    let r = lk_env(d, args, &[], env)?;
    ensure!(r.ok, "{env:?} lk {args:?} failed: {}", r.err);
    Ok(r.out)
}
trait NoneOr<T> {
    fn is_none_or_(&self, f: impl Fn(&T) -> bool) -> bool;
}
impl<T> NoneOr<T> for Option<&T> {
    fn is_none_or_(&self, f: impl Fn(&T) -> bool) -> bool {
        match self {
            None => true,
            Some(v) => f(v),
        }
    }
}
// ------------------------------------------------------------------ pull, and queries out of packets
#[derive(Clone, Debug)]
struct Pl {
    q: Qy,
    qid: Option<Vec<u8>>,
    follow: bool,
    db: bool,
}
fn pl() -> BoxedStrategy<(Vec<P>, Pl)> {
    let id = prop_oneof![4 => gen::word(), 2 => vec(any::<u8>(), 1..8), 1 => Just(vec![b'q'; 300]), 1 => Just(vec![])];
    (pool(5), (qy(), proptest::option::of(id), any::<bool>(), any::<bool>()).prop_map(|(q, qid, follow, db)| Pl { q, qid, follow, db })).boxed()
}
fn pull((ps, c): &(Vec<P>, Pl), o: &mut Obs) -> Res {
    let d = Dir::new();
    let begin = init(&d)?;
    let pks = build(ps);
    let mut db = Db::default();
    db.save(&pks, &(0..pks.len()).map(|i| (i, true)).collect::<Vec<_>>(), 1);
    let b = c.q.build(&pks, &db, true);
    let mut args = a(&["pull"]);
    if !c.db {
        args.extend(a(&["--write", "stdout"]));
    }
    if let Some(id) = &c.qid {
        args.push(format!("--qid={}", esc(id)));
    }
    if c.follow {
        args.push("--follow".into());
    }
    args.extend(b.args.iter().cloned());
    let r = lk_env(&d, &args, &[], &b.env())?;
    let what = format!("lk {args:?}");
    let stored = split("the store", &good(&d, &a(&["--private", "watch-log", "--asc", "--bare", "--db-only"]), &[])?)?;
    ensure!(stored.len() >= begin.len() && stored.iter().zip(&begin).all(|(s, p)| *s == p.wire), "{what}: other packets in the store");
    let new = &stored[begin.len()..];
    let id = c.qid.clone().unwrap_or(b"default".to_vec());
    let named = c.q.short.is_some() && !pks.is_empty();
    let (dom, grp) = (&b.m.f[crate::d2::fidx("domain")], &b.m.f[crate::d2::fidx("group")]);
    let room = !id.is_empty() && id.len() <= 200 && 5 + 33 + 17 + id.len() + 1 <= 242;
    if b.none || !named || !room {
        ensure!(!r.ok, "{what}: no error");
        ensure!(new.is_empty() && r.out.is_empty(), "{what}: fails and makes a request");
        o.class("refused");
        return Ok(());
    }
    let _ = (dom, grp);
    ensure!(r.ok, "{what} failed: {}", r.err);
    let out = split(&what, &r.out)?;
    ensure_eq!((out.len(), new.len()), if c.db { (0, 1) } else { (1, 0) }, "{what}: requests printed and stored");
    let wire = out.first().unwrap_or_else(|| &new[0]);
    let v = model::ref_read(wire, false).map_err(|e| Fail::from(format!("{what}: {e:?}")))?;
    ensure_eq!(v.ty, 3, "{what}: a linkpoint");
    ensure_eq!(v.group, [0; 32], "{what}: group");
    ensure_eq!(&v.domain[..], &b"\xff\xff\xff\xff\xff\xff\xff\xffexchange"[..], "{what}: domain");
    ensure!(v.links.is_empty(), "{what}: links");
    let p = &pks[c.q.short.as_ref().unwrap().base as usize % pks.len()].m;
    ensure_eq!(v.comps, vec![b"pull".to_vec(), p.group.to_vec(), p.domain.to_vec(), id.clone()], "{what}: space");
    // the query in it
    let txt = std::str::from_utf8(&wire[v.data.clone()]).map_err(|e| Fail::from(format!("{what}: {e}")))?;
    let mut q = Query::default();
    no_panic(|| q.parse(txt.as_bytes(), &CORE_SCOPE))?.map_err(|e| fail_sig("parse", format!("{what}: {txt:?}: {e:#}")))?;
    ensure_eq!(q.qid().ok().flatten().flatten(), Some(&id[..]), "{what}: id in {txt:?}");
    ensure_eq!(q.get_option(b"follow").ok().flatten().is_some(), c.follow, "{what}: follow in {txt:?}");
    selects(&what, txt, &q, &b.m, &pks)?;
    o.nontrivial(true);
    Ok(())
}
/// whether a query out of a text is the one meant
fn selects(what: &str, txt: &str, q: &Query, m: &Mod, pks: &[crate::d4::Pk]) -> Res {
    let Some(pm) = m.printed() else { return Ok(()) };
    let p = crate::m2::plain(&q.predicates);
    for (i, pk) in pks.iter().enumerate() {
        let mut t = no_panic(|| linkspace_core::prelude::WatchEntry::<()>::new(Default::default(), { let mut q = Query::default(); q.predicates = plain2(&p); q }, 0, (), tracing::Span::none()))?
            .map_err(|e| fail_sig("watch", format!("{what}: {txt:?} selects nothing: {e:?}")))?;
        let got = t.test(linkspace_core::prelude::reroute::RecvPkt { recv: 5u64.into(), pkt: pk.ptr() }).0;
        ensure_eq!(got, pm.accepts(&pk.m, &pk.hash), "{what}: {txt:?} on packet {i} {:?}", pk.m);
    }
    for f in ["i", "i_new", "i_db", "i_branch"] {
        for n in 0..8u32 {
            ensure_eq!(crate::d2::member(&q.predicates, crate::d2::fidx(f), &n.to_be_bytes()), pm.f[crate::d2::fidx(f)].test(&n.to_be_bytes()), "{what}: {txt:?}: {f} = {n}");
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct Mq {
    /// statements, style, mode, whether it has an id, whether it is a query at all
    queries: Vec<(Vec<Q>, u8, Option<u8>, bool, bool)>,
    or: Vec<Vec<Q>>,
    full: bool,
    print: Option<bool>,
    linger: bool,
}
fn mq() -> BoxedStrategy<(Vec<P>, Mq)> {
    let one = (qs(3), any::<u8>(), proptest::option::of(0u8..6), proptest::bool::weighted(0.9), proptest::bool::weighted(0.9));
    let c = (vec(one, 0..5), prop_oneof![1 => Just(vec![]), 2 => vec(qs(3), 1..4)], any::<bool>(), proptest::option::weighted(0.15, any::<bool>()), any::<bool>()).prop_map(|(queries, or, full, print, linger)| Mq { queries, or, full, print, linger });
    (pool(12), c).boxed()
}
fn multi((ps, c): &(Vec<P>, Mq), o: &mut Obs) -> Res {
    let d = Dir::new();
    let begin = init(&d)?;
    let mut pks = build(ps);
    pks.retain(|p| p.m.kind != Kind::Error);
    let own: Vec<_> = pks.clone_all();
    good(&d, &a(&["--private", "--hop", "false", "save"]), &stream(&own))?;
    let mut db = Db::default();
    let mut all = begin;
    all.extend(own);
    db.save(&all, &(0..all.len()).map(|i| (i, true)).collect::<Vec<_>>(), 1);
    let mut args = a(&["--private", "multi-watch"]);
    // a text of statements; false: they are none, or one that is not settled
    let put = |m: &mut Mod, q: &[Q], style: u8, lines: &mut Vec<String>| -> Option<bool> {
        for (i, q) in q.iter().enumerate() {
            let s = q.st(&all, &db);
            if let St::Num(f, ..) = &s {
                if FIELDS[*f].0 == "recv" {
                    continue;
                }
            }
            lines.push(text(&s, style.wrapping_add(i as u8)));
            let mut m2 = m.clone();
            let ok = m2.add(&s) && m2.valid();
            if m2.loose != 0 {
                return None;
            }
            if !ok {
                return Some(false);
            }
            *m = m2;
        }
        Some(true)
    };
    for q in &c.or {
        let mut lines = vec![];
        let mut m = Mod::default();
        if put(&mut m, q, 3, &mut lines).is_none() {
            return Ok(());
        }
        args.push(format!("--or={}", lines.join("\n")));
    }
    if c.full {
        args.push("--full-scope".into());
    }
    if c.linger {
        args.push("--linger".into());
    }
    let queries = if c.print.is_some() { &c.queries[..c.queries.len().min(1)] } else { &c.queries[..] };
    if let Some(p) = c.print {
        args.push(if p { "--print-expr".into() } else { "--print-text".to_string() });
    }
    let mut input = vec![];
    let mut want: Vec<u8> = vec![];
    let mut shown: Option<Mod> = None;
    let (mut answered, mut chosen, mut none) = (0, 0, 0);
    for (q, style, mode, id, is) in queries {
        let mut lines = vec!["i_new:<:[u32:0]".to_string()];
        let mut m = Mod::default();
        assert!(m.add(&St::Num(fidx("i_new"), Op::T(TestOp::Less), vec![0; 4])));
        let mut live = match put(&mut m, q, *style, &mut lines) {
            None => return Ok(()),
            Some(b) => b,
        };
        if *id {
            lines.push(":qid:x".into());
        }
        if let Some(i) = mode {
            lines.push(format!(":mode:{}", modes()[*i as usize % 6]));
        }
        if !is {
            lines.push("not a statement".into());
            live = false;
        }
        // the first set of further ones that can be met as a whole
        if live && !c.or.is_empty() {
            let mut found = None;
            for (i, or) in c.or.iter().enumerate() {
                let mut m2 = m.clone();
                match put(&mut m2, or, 3, &mut vec![]) {
                    None => return Ok(()),
                    Some(true) => {
                        found = Some((i, m2));
                        break;
                    }
                    Some(false) => {}
                }
            }
            match found {
                Some((i, m2)) => {
                    chosen += (i > 0) as usize;
                    m = m2
                }
                None => live = false,
            }
        }
        let p = crate::m3::pk(M { kind: Kind::Data, h: crate::m1::head0(), group: [0; 32], domain: [0; 16], stamp: 0, comps: vec![], links: vec![], data: lines.join("\n").into_bytes() });
        input.extend(&p.wire);
        if live && c.print.is_some() {
            shown = Some(m.clone());
        }
        if live && *id && c.print.is_none() {
            let l = answer(&m, mode.map_or(modes()[0], |i| modes()[i as usize % 6]), &all, &db, 0).0;
            answered += !l.is_empty() as usize;
            want.extend(l.iter().flat_map(|e| all[e.1].wire.clone()));
        } else {
            none += 1;
        }
    }
    let r = lk(&d, &args, &input)?;
    let what = format!("lk {args:?} of {:?}", String::from_utf8_lossy(&input.iter().copied().filter(|b| (9..127).contains(b)).collect::<Vec<_>>()));
    ensure!(r.ok, "{what} failed: {}", r.err);
    if c.print.is_some() {
        let txt = String::from_utf8_lossy(&r.out);
        match &shown {
            None => ensure!(txt.is_empty(), "{what}: prints {txt:?}"),
            Some(m) => {
                let mut q = Query::default();
                if m.printed().is_some() {
                    no_panic(|| q.parse(txt.as_bytes(), &CORE_SCOPE))?.map_err(|e| fail_sig("parse", format!("{what}: {txt:?}: {e:#}")))?;
                    selects(&what, &txt, &q, m, &all)?;
                    o.class("printed");
                }
            }
        }
        return Ok(());
    }
    ensure!(r.out == want, "{what}: got {:?}, want {:?}", split("", &r.out)?.iter().map(|w| b64(&w[32..64])[..6].to_string()).collect::<Vec<_>>(), split("", &want)?.iter().map(|w| b64(&w[32..64])[..6].to_string()).collect::<Vec<_>>());
    o.nontrivial(answered > 0);
    o.class_if(answered > 1, "several queries");
    o.class_if(chosen > 0, "not the first of the sets");
    o.class_if(none > 0 && answered > 0, "queries that are none in between");
    Ok(())
}
trait CloneAll {
    fn clone_all(&self) -> Vec<Pk>;
}
impl CloneAll for Vec<Pk> {
    fn clone_all(&self) -> Vec<Pk> {
        self.iter().map(|p| crate::m3::pk(p.m.clone())).collect()
    }
}
fn plain2(p: &linkspace_core::prelude::PktPredicates) -> linkspace_core::prelude::PktPredicates {
    p.clone()
}
pub fn props() -> Vec<Property> {
    let opts = || vec(prop_oneof![4 => gen::opts_text(), 2 => prop::sample::select(vec!["#", "@", "us", "", "b", "u32", "a", "~space", "##"]).prop_map(|s: &str| s.as_bytes().to_vec())], 1..4);
    let val = || prop_oneof![4 => gen::bytes(40), 2 => gen::short_bytes(), 1 => any::<u64>().prop_map(|v| v.to_be_bytes().to_vec()), 1 => any::<u32>().prop_map(|v| v.to_be_bytes().to_vec()), 1 => gen::any_text()];
    vec![
        Property {
            id: "M09",
            rule: "an expression of several parts has a value; an encoding uses a function; two packets are formatted",
            assumptions: SHIM,
            subs: vec![
                sub("eval", 6_000, 200_000, ev, evals),
                sub("encode", 2_000, 60_000, move || (val(), opts(), 0u8..4), encode),
                sub("format", 5_000, 150_000, pf, pktf),
            ],
        },
        Property { id: "M11", rule: "a key was made, and used or shown again", assumptions: SHIM, subs: vec![sub("keys", 1_500, 40_000, kops, keys)] },
        Property { id: "M12", rule: "a request was made; a query was answered", assumptions: SHIM, subs: vec![sub("pull", 2_500, 80_000, pl, pull), sub("multi", 2_500, 80_000, mq, multi)] },
    ]
}
