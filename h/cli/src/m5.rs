//! The programs for names and for handshakes.
use crate::m3::{init, SHIM};
use crate::model::{self, Kind, H, M};
use crate::run::*;
use fw::*;
use linkspace_common::prelude::NetPkt as _;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant, SystemTime};

fn now() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_micros() as u64
}
const H0: H = H { prefix: [0; 3], flags: 0, hop: 0, stamp: 0, ubits: [0; 4] };
fn ab(b: &[u8]) -> [u8; 16] {
    let mut o = [0; 16];
    o[16 - b.len()..].copy_from_slice(b);
    o
}
// ------------------------------------------------------------------ names
#[derive(Clone, Debug)]
enum Nop {
    Claim {
        name: Vec<u8>,
        group: Option<u8>,
        /// a key: as it is, encrypted, or that of another name
        key: Option<(u8, u8)>,
        no_auth: bool,
        auth: Vec<(Vec<u8>, u8)>,
        until: u8,
        allow_empty: bool,
        save: u8,
        style: u8,
    },
    Get { name: Option<Vec<u8>>, chain: bool, style: u8 },
    Ls { name: Vec<u8>, style: u8 },
    Vote { name: Vec<u8>, claim: u8, key: u8 },
}
/// the parts of a name
fn parts(n: &[u8]) -> Vec<Vec<u8>> {
    const P: [&[u8]; 8] = [b"local", b"a", b"b", b"me", b"x y", b"\xc3\xa9", b":/", b"Local"];
    n.iter().map(|i| P[*i as usize % 8].to_vec()).collect()
}
fn name_text(n: &[u8], style: u8) -> String {
    parts(n).iter().map(|c| if style % 2 == 0 { soft(c) } else { esc(c) }).collect::<Vec<_>>().join(":")
}
fn nm() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        // <one>:local
        4 => prop_oneof![3 => 1u8..3, 1 => 0u8..8].prop_map(|a| vec![a, 0]),
        1 => (1u8..4, 1u8..3).prop_map(|(a, b)| vec![a, b, 0]),
        2 => vec(1u8..3, 1..3),
        1 => vec(0u8..8, 1..5),
        1 => Just(vec![0]),
    ]
    .boxed()
}
fn nop() -> BoxedStrategy<Nop> {
    let tag = prop_oneof![vec(97u8..100, 1..9), Just(b"a b".to_vec()), Just(b"x^".to_vec())];
    prop_oneof![
        5 => ((prop_oneof![12 => nm(), 1 => vec(0u8..3, 7..9)], proptest::option::weighted(0.5, 0u8..4), proptest::option::weighted(0.6, (0u8..3, 0u8..4)), any::<bool>()), vec((tag, 0u8..4), 0..3), prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => 2u8..6], any::<bool>(), 0u8..8, any::<u8>())
            .prop_map(|((name, group, key, no_auth), auth, until, allow_empty, save, style)| Nop::Claim { name, group, key, no_auth, auth, until, allow_empty, save, style }),
        2 => (proptest::option::weighted(0.9, nm()), any::<bool>(), any::<u8>()).prop_map(|(name, chain, style)| Nop::Get { name, chain, style }),
        2 => (nm(), any::<u8>()).prop_map(|(name, style)| Nop::Ls { name, style }),
        1 => (nm(), any::<u8>(), 0u8..4).prop_map(|(name, claim, key)| Nop::Vote { name, claim, key }),
    ]
    .boxed()
}
struct Cl {
    name: Vec<u8>,
    wire: Vec<u8>,
    until: u64,
    links: Vec<([u8; 16], [u8; 32])>,
    pubkey: Option<[u8; 32]>,
    stored: bool,
}
fn gval(g: u8) -> [u8; 32] {
    [0x21 + g; 32]
}
fn lns(d: &Dir, args: &[String]) -> Result<Ran, Fail> {
    prog("lns", d, args, &[], &[])
}
fn names(ops: &Vec<Nop>, o: &mut Obs) -> Res {
    let d = Dir::new();
    init(&d)?;
    let root = linkspace_core::LNS_ROOTS.iter().next().unwrap().as_netbox().byte_segments().to_bytes().to_vec();
    let mut m: Vec<Cl> = vec![];
    let is_local = |n: &[u8]| n.last().is_some_and(|l| l % 8 == 0);
    let mut voted = false;
    let mut got = 0;
    let end = [Nop::Get { name: Some(vec![1, 0]), chain: false, style: 0 }, Nop::Get { name: Some(vec![2, 0]), chain: true, style: 1 }, Nop::Ls { name: vec![0], style: 0 }, Nop::Ls { name: vec![1], style: 1 }];
    for (i, op) in ops.iter().chain(&end).enumerate() {
        match op {
            Nop::Claim { name, group, key, no_auth, auth, until, allow_empty, save, style } => {
                let mut args = a(&["create-claim"]);
                let mut links = vec![];
                let mut data = vec![];
                if let Some(g) = group {
                    args.extend(a(&["--group", &hash_text(&gval(*g), *style)]));
                    links.push((ab(b"group#"), gval(*g)));
                }
                let mut pk = None;
                match key {
                    Some((0, k)) => {
                        args.extend(a(&["--pubkey", &hash_text(&model::pubkey(*k), 1 + style % 2)]));
                        pk = Some(model::pubkey(*k));
                    }
                    Some((1, k)) => {
                        args.extend(a(&["--enckey", enckey(*k)]));
                        pk = Some(model::pubkey(*k));
                        data = format!("{}\n", enckey(*k)).into_bytes();
                    }
                    Some((_, k)) => {
                        let from = vec![1 + k % 3, 0];
                        args.extend(a(&["--copy-from", &name_text(&from, *style)]));
                        pk = m.iter().filter(|c| c.stored && c.name == from).last().and_then(|c| c.pubkey);
                        o.class_if(pk.is_some(), "a key copied from a name");
                    }
                    None => {}
                }
                if let Some(p) = pk {
                    links.push((ab(b"pubkey@"), p));
                    if !no_auth {
                        links.push((ab(b"pubkey^"), p));
                    }
                }
                let mut bad = false;
                for (t, p) in auth {
                    args.extend(a(&["--auth", &link_text(&(ab(t), gval(*p)), *style)]));
                    bad |= t.len() >= 8;
                    if t.len() < 8 {
                        links.push((ab(&[&t[..], b"^"].concat()), gval(*p)));
                    }
                }
                for (b, n) in [(*no_auth, "--no-auth"), (*allow_empty, "--allow-empty")] {
                    if b {
                        args.push(n.into())
                    }
                }
                if links.is_empty() && *allow_empty {
                    links.push(([0; 16], [0; 32]))
                }
                let t0 = now();
                let end = match until % 6 {
                    0 | 3 => u64::MAX,
                    1 => 0,
                    2 => t0 + 3_600_000_000,
                    4 => 1,
                    _ => 0x1234_5678,
                };
                let week = 7 * 86_400_000_000u64;
                if until % 6 != 1 {
                    args.extend(a(&["--until", &format!("[u64:{end}]")]));
                }
                if save % 4 == 1 {
                    args.extend(a(&["--write", "db"]));
                }
                args.push(name_text(name, *style));
                let what = format!("step {i}: lns {args:?}");
                let r = lns(&d, &args)?;
                let t1 = now();
                let p = parts(name);
                let created = if is_local(name) { t0 } else { 0 };
                let ok = !bad && p.len() <= 7 && !links.is_empty() && (until % 6 == 1 || end > created);
                ensure_eq!(r.ok, ok, "{what}: {}", r.err);
                o.class_if(!ok, "refused");
                if !ok {
                    ensure!(r.out.is_empty(), "{what}: refused, and {} bytes of output", r.out.len());
                    continue;
                }
                let wire = if save % 4 == 1 {
                    ensure!(r.out.is_empty(), "{what}: {} bytes of output", r.out.len());
                    // what was added to the store last
                    let l = split("the store", &good(&d, &a(&["--private", "watch-log", "--bare", "--db-only", "--max", "1"]), &[])?)?;
                    l.into_iter().next().unwrap_or_default()
                } else {
                    r.out.clone()
                };
                let v = split(&what, &wire)?;
                ensure_eq!(v.len(), 1, "{what}: number of points");
                let v = model::ref_read(&wire, false).map_err(|e| Fail::from(format!("{what}: {e:?}")))?;
                let stamp = if is_local(name) { v.stamp } else { 0 };
                if is_local(name) {
                    ensure!(stamp >= t0 && stamp <= t1, "{what}: made at {stamp}, not in {t0}..{t1}");
                }
                let end = if until % 6 == 1 {
                    let e = v.links.first().map_or(0, |l| u64::from_be_bytes(l.0[..8].try_into().unwrap()));
                    ensure!(e >= t0 + week && e <= t1 + week, "{what}: until {e}, which is not in a week");
                    e
                } else {
                    end
                };
                links[0].0[..8].copy_from_slice(&end.to_be_bytes());
                let mut comps = p.clone();
                comps.push(b"claims".to_vec());
                comps.reverse();
                let group = if is_local(name) { [0; 32] } else { linkspace_pkt::PUBLIC.0 };
                let want = M { kind: Kind::Link, h: H0, group, domain: ab(b"lns"), stamp, comps, links: links.clone(), data: data.clone() };
                ensure!(point(&wire) == point(&want.wire()), "{what}: the claim is {v:?}, not {want:?}");
                let mut stored = save % 4 == 1;
                if save % 4 >= 2 {
                    good(&d, &a(&["--private", "save"]), &wire)?;
                    stored = true;
                }
                match m.iter_mut().find(|c| point(&c.wire) == point(&wire)) {
                    Some(c) => c.stored |= stored,
                    None => m.push(Cl { name: name.iter().map(|n| n % 8).collect(), wire, until: end, links, pubkey: pk, stored }),
                }
            }
            Nop::Get { name, chain, style } => {
                let mut args = a(&["get"]);
                if *chain {
                    args.push("--chain".into())
                }
                let (want, ok) = match name {
                    None => (Some(root.clone()), true),
                    Some(n) => {
                        args.push(name_text(n, *style));
                        let key: Vec<u8> = n.iter().map(|n| n % 8).collect();
                        let c = m.iter().filter(|c| c.stored && c.name == key).last().filter(|_| is_local(n));
                        match c {
                            Some(c) => (Some(c.wire.clone()), true),
                            None if is_local(n) => (None, false),
                            // nobody can vote for a public name here
                            None => (Some(root.clone()), false),
                        }
                    }
                };
                let what = format!("step {i}: lns {args:?}");
                let r = lns(&d, &args)?;
                ensure_eq!(r.ok, ok, "{what}: {}", r.err);
                let l = split(&what, &r.out)?;
                match want {
                    Some(w) => {
                        got += ok as u32;
                        ensure_eq!(l.iter().map(|w| b64(&w[32..64])).collect::<Vec<_>>(), vec![b64(&w[32..64])], "{what}: the claims");
                    }
                    None => ensure!(l.iter().all(|w| !m.iter().any(|c| point(&c.wire) == point(w))), "{what}: a claim for a name without one"),
                }
            }
            Nop::Ls { name, style } => {
                let args = a(&["ls", &name_text(name, *style)]);
                let what = format!("step {i}: lns {args:?}");
                let r = lns(&d, &args)?;
                ensure!(r.ok, "{what}: {}", r.err);
                let t = now();
                let key: Vec<u8> = name.iter().map(|n| n % 8).collect();
                let mut want: Vec<(String, String, Vec<String>)> = m
                    .iter()
                    .filter(|c| c.stored && c.until > t && c.name.ends_with(&key))
                    .map(|c| (b64(&c.wire[32..64]), parts(&c.name).iter().map(|p| linkspace_pkt::AB(&p[..]).to_string()).collect::<Vec<_>>().join(":"), c.links.iter().map(|l| b64(&l.1)).collect()))
                    .collect();
                let mut have: Vec<(String, String, Vec<String>)> = vec![];
                for l in String::from_utf8_lossy(&r.out).lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    match f.len() {
                        4 => have.push((f[0].into(), f[1].into(), vec![])),
                        2 => have.last_mut().ok_or_else(|| Fail::from(format!("{what}: {l:?}")))?.2.push(f[0].into()),
                        _ => ensure!(l.is_empty(), "{what}: {l:?}"),
                    }
                }
                want.sort();
                have.sort();
                o.class_if(want.len() > 1, "several listed");
                ensure_eq!(have, want, "{what}");
            }
            Nop::Vote { name, claim, key } => {
                if is_local(name) {
                    continue;
                }
                let hash: [u8; 32] = match m.len() {
                    0 => [1; 32],
                    n => m[*claim as usize % n].wire[32..64].try_into().unwrap(),
                };
                let mut args = a(&["vote", &name_text(name, 0), &hash_text(&hash, 1)]);
                args.extend(key_args(*key));
                let r = lns(&d, &args)?;
                voted = true;
                // the keys of the root are not ours, and no name below it is live
                ensure!(!r.ok && r.out.is_empty(), "step {i}: lns {args:?}: a vote by a key without a say");
            }
        }
    }
    o.class_if(voted, "a vote refused");
    o.nontrivial(got > 0 && m.iter().filter(|c| c.stored).count() > 1);
    Ok(())
}
// ------------------------------------------------------------------ handshakes
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    No,
    Signer(u8),
    Unsigned,
    /// seconds
    Age(i64),
    Domain,
    Group(u8),
    Space,
    NoLink,
    OtherLink,
    /// another tag, or more links: still fine
    Links,
    /// nothing arrives
    Gone,
    /// bytes that are no packet
    Broken,
}
fn bad() -> BoxedStrategy<Bad> {
    prop_oneof![
        28 => Just(Bad::No),
        2 => (0u8..4).prop_map(Bad::Signer),
        1 => Just(Bad::Unsigned),
        2 => prop::sample::select(vec![-1000i64, -300, -4, 0, 40, 1000]).prop_map(Bad::Age),
        1 => Just(Bad::Domain),
        1 => (0u8..4).prop_map(Bad::Group),
        1 => Just(Bad::Space),
        1 => Just(Bad::NoLink),
        1 => Just(Bad::OtherLink),
        1 => Just(Bad::Links),
        1 => Just(Bad::Gone),
        1 => Just(Bad::Broken),
    ]
    .boxed()
}
#[derive(Clone, Debug)]
struct Hs {
    client: u8,
    server: u8,
    /// who runs each step, in place of the one who should
    by: [Option<u8>; 3],
    bad: [Bad; 3],
    long: bool,
    file: bool,
}
fn hs() -> BoxedStrategy<Hs> {
    let who = || proptest::option::weighted(0.06, 0u8..4);
    (0u8..4, 0u8..4, [who(), who(), who()], [bad(), bad(), bad()], any::<bool>(), any::<bool>()).prop_map(|(client, server, by, bad, long, file)| Hs { client, server, by, bad, long, file }).boxed()
}
fn xor(a: [u8; 32], b: [u8; 32]) -> [u8; 32] {
    std::array::from_fn(|i| a[i] ^ b[i])
}
const DOMAIN: [u8; 16] = *b"\0\0\0\0\0\0\xFFhandshake";
/// what a message says, to the extent it matters
#[derive(Clone, Debug)]
struct Msg {
    wire: Vec<u8>,
    m: M,
    age: i64,
}
impl Msg {
    fn signer(&self) -> Option<[u8; 32]> {
        match self.m.kind {
            Kind::Key(k) => Some(model::pubkey(k)),
            _ => None,
        }
    }
    fn hash(&self) -> [u8; 32] {
        self.wire[32..64].try_into().unwrap()
    }
    fn is_private(&self) -> bool {
        self.m.group == [0; 32]
    }
}
fn spoil(mut m: M, bad: Bad) -> M {
    match bad {
        Bad::Signer(k) => m.kind = Kind::Key(k),
        Bad::Unsigned => m.kind = Kind::Link,
        Bad::Age(s) => m.stamp = (m.stamp as i64 - s * 1_000_000) as u64,
        Bad::Domain => m.domain[15] ^= 1,
        Bad::Group(0) => m.group = linkspace_pkt::PUBLIC.0,
        Bad::Group(1) => m.group = [0; 32],
        Bad::Group(k) => m.group = model::pubkey(k),
        Bad::Space => m.comps.push(b"x".to_vec()),
        Bad::NoLink => m.links.clear(),
        Bad::OtherLink => {
            if let Some(l) = m.links.first_mut() {
                l.1[31] ^= 1
            }
        }
        Bad::Links => {
            m.links.insert(0, (ab(b"auth"), [9; 32]));
            m.links.last_mut().unwrap().0 = ab(b"other");
        }
        _ => {}
    }
    m
}
/// runs one step; the message it makes has to be the one the model expects
fn step(d: &Dir, h: &Hs, what: &str, by: u8, phase: &str, input: &[u8], want: Option<M>, ok: bool) -> Result<Option<Msg>, Fail> {
    let mut args = vec![];
    if h.file {
        args.extend(a(&["--write", &format!("file:{}", d.path(phase)), "--forward", &format!("file:{}", d.path("fwd"))]));
    }
    args.extend(key_args(by));
    if h.long {
        args.extend(a(&["--max-diff-secs", "600"]));
    }
    args.push(phase.into());
    let t0 = now();
    let r = prog("handshake", d, &args, input, &[])?;
    let t1 = now();
    let what = format!("{what}: handshake {args:?}");
    ensure_eq!(r.ok, ok, "{what}: {}", r.err);
    let out = if h.file {
        ensure!(r.out.is_empty(), "{what}: {} bytes on stdout", r.out.len());
        d.read(phase)
    } else {
        r.out
    };
    if !ok || want.is_none() {
        ensure!(out.is_empty(), "{what}: {} bytes of output", out.len());
        return Ok(None);
    }
    let l = split(&what, &out)?;
    ensure_eq!(l.len(), 1, "{what}: number of messages");
    let v = model::ref_read(&l[0], false).map_err(|e| Fail::from(format!("{what}: {e:?}")))?;
    ensure!(v.stamp >= t0 && v.stamp <= t1, "{what}: made at {}, not in {t0}..{t1}", v.stamp);
    let mut m = want.unwrap();
    m.stamp = v.stamp;
    ensure_eq!((v.group, v.domain, &v.comps, &v.links, v.signed.clone().map(|s| l[0][s][..32].to_vec())), (m.group, m.domain, &m.comps, &m.links, Some(model::pubkey(by).to_vec())), "{what}: the message");
    Ok(Some(Msg { wire: l[0].clone(), m, age: 0 }))
}
fn shake(h: &Hs, o: &mut Obs) -> Res {
    let d = Dir::new();
    let base = |k: u8, group, links| M { kind: Kind::Key(k), h: H0, group, domain: DOMAIN, stamp: 0, comps: vec![b"sentinal".to_vec()], links, data: vec![] };
    // the message that arrives in place of the one sent, if it can be read
    let arrive = |m: Msg, bad: Bad| -> (Vec<u8>, Option<Msg>) {
        match bad {
            Bad::No => (m.wire.clone(), Some(m)),
            Bad::Gone => (vec![], None),
            Bad::Broken => {
                let mut w = m.wire.clone();
                w[40] ^= 1;
                (w, None)
            }
            bad => {
                let n = spoil(m.m.clone(), bad);
                let wire = n.wire();
                let age = if let Bad::Age(s) = bad { s } else { 0 };
                let r = Msg { wire: wire.clone(), m: n, age };
                (wire, (!r.is_private()).then_some(r))
            }
        }
    };
    let limit = if h.long { 600 } else { 15 };
    let in_time = |m: &Msg| m.age.abs() < limit;
    let id = |i: usize, k: u8| h.by[i].unwrap_or(k);
    o.class_if(h.client == h.server, "one key on both sides");
    o.nontrivial(h.bad.iter().any(|b| *b != Bad::No) || h.client != h.server);

    let c = h.client;
    let p0 = step(&d, h, "client", c, "phase0", &[], Some(base(c, model::pubkey(c), vec![])), true)?.unwrap();
    let (mut input, p0) = arrive(p0, h.bad[0]);
    let s = id(0, h.server);
    let ok = p0.as_ref().is_some_and(|p| p.signer().is_some_and(|k| k != model::pubkey(s)) && in_time(p));
    let want = p0.as_ref().filter(|_| ok).map(|p| base(s, xor(p.signer().unwrap(), model::pubkey(s)), vec![(ab(b"auth"), p.hash())]));
    let Some(p1) = step(&d, h, "server", s, "phase1", &input, want, ok)? else {
        o.class("refused by the server");
        return Ok(());
    };
    let p0 = p0.unwrap();
    let (w1, p1) = arrive(p1, h.bad[1]);
    input.extend(w1);
    let c = id(1, c);
    let me = model::pubkey(c);
    let ok = p1.as_ref().is_some_and(|p| {
        let Some(k) = p.signer() else { return false };
        p0.signer() == Some(me) && in_time(p) && p.m.links.iter().any(|l| l.1 == p0.hash()) && p.m.domain == DOMAIN && p.m.group == xor(me, k) && p.m.comps == [b"sentinal".to_vec()]
    });
    let want = p1.as_ref().filter(|_| ok).map(|p| base(c, p.m.group, vec![(ab(b"signed"), p.hash())]));
    let Some(p2) = step(&d, h, "client", c, "phase2", &input, want, ok)? else {
        o.class("refused by the client");
        return Ok(());
    };
    let p1 = p1.unwrap();
    let (w2, p2) = arrive(p2, h.bad[2]);
    input.extend(w2);
    let s = id(2, s);
    let me = model::pubkey(s);
    let ok = p2.as_ref().is_some_and(|p| {
        let Some(k) = p.signer() else { return false };
        p1.signer() == Some(me) && p0.signer() == Some(k) && p.m.links.iter().any(|l| l.1 == p1.hash()) && p.m.domain == DOMAIN && p.m.group == xor(me, k) && p.m.comps == [b"sentinal".to_vec()]
    });
    step(&d, h, "server", s, "phase3", &input, None, ok)?;
    o.class(if ok { "complete" } else { "refused at the end" });
    if ok && h.file {
        // the input of each step was copied
        let got: Vec<Vec<u8>> = split("forwarded", &d.read("fwd"))?.iter().map(|w| point(w).to_vec()).collect();
        let p2 = p2.unwrap();
        let last: Vec<Vec<u8>> = [&p0, &p1, &p2].iter().map(|m| point(&m.wire).to_vec()).collect();
        ensure!(got.ends_with(&last), "{} messages were forwarded, and not the three", got.len());
        ensure!(split("forwarded", &d.read("fwd"))?.iter().all(|w| w[4..8] == [0, 0, 0, 1]), "a message that made no hop");
    }
    Ok(())
}
/// both sides at once, each reading what the other writes
fn both((client, server, pw, key_long): &(u8, u8, u8, bool), o: &mut Obs) -> Res {
    let d = Dir::new();
    let run = |who: &str, k: u8, wrong: bool, inp: Stdio, out: Stdio| {
        let mut args = a(&["--enckey", enckey(k), "--password", if wrong { "no" } else { "pw" }, "--forward", &format!("file:{}", d.path(who))]);
        if *key_long {
            args.extend(a(&["--max-diff-secs", "900"]));
        }
        args.push(who.into());
        Command::new(prog_path("handshake")).args(&args).env_clear().env("TMPDIR", &d.0).env("HOME", &d.0).env("LK_DIR", d.0.join("lk")).current_dir(&d.0).stdin(inp).stdout(out).stderr(Stdio::null()).spawn().unwrap_or_else(|e| {
            println!("ERROR: could not run handshake: {e}");
            unsafe { libc::_exit(3) }
        })
    };
    let mut pipe = [0i32; 2];
    ensure!(unsafe { libc::pipe2(pipe.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "no pipe");
    use std::os::fd::{FromRawFd, OwnedFd};
    let (r, w) = unsafe { (OwnedFd::from_raw_fd(pipe[0]), OwnedFd::from_raw_fd(pipe[1])) };
    let mut s = run("serve", *server, pw % 8 == 1, Stdio::from(r), Stdio::piped());
    let out = s.stdout.take().unwrap();
    let mut c = run("connect", *client, pw % 8 == 2, Stdio::from(out), Stdio::from(w));
    let start = Instant::now();
    let mut wait = |p: &mut std::process::Child| loop {
        if let Ok(Some(st)) = p.try_wait() {
            return Ok(st);
        }
        if start.elapsed() > Duration::from_secs(120) {
            let _ = p.kill();
            let _ = p.wait();
            return Err(Fail::from("a side is still running after two minutes".to_string()));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let a1 = wait(&mut c);
    let a2 = wait(&mut s);
    let (c, s) = (a1?, a2?);
    let ok = client != server && pw % 8 != 1 && pw % 8 != 2;
    ensure!(c.code() != Some(101) && s.code() != Some(101), "client {client} {c}, server {server} {s}: a panic");
    ensure_eq!((c.success(), s.success()), (ok, ok), "client {client}, server {server}, password {pw}");
    if ok {
        let at_server = split("what the client sent", &d.read("serve"))?;
        let at_client = split("what the server sent", &d.read("connect"))?;
        ensure_eq!((at_server.len(), at_client.len()), (2, 1), "messages of the client, and of the server");
        let view = |w: &Vec<u8>| {
            let v = model::ref_read(w, false).map_err(|e| Fail::from(format!("{e:?}")))?;
            let by: Option<[u8; 32]> = v.signed.clone().map(|s| w[s][..32].try_into().unwrap());
            Ok::<_, Fail>((v, by))
        };
        let ((p0, b0), (p1, b1), (p2, b2)) = (view(&at_server[0])?, view(&at_client[0])?, view(&at_server[1])?);
        let (ck, sk) = (model::pubkey(*client), model::pubkey(*server));
        ensure_eq!((b0, b1, b2), (Some(ck), Some(sk), Some(ck)), "who signed");
        ensure_eq!((p1.group, p2.group), (xor(ck, sk), xor(ck, sk)), "the group of the two");
        ensure!(p1.links.iter().any(|l| l.1 == at_server[0][32..64]) && p2.links.iter().any(|l| l.1 == at_client[0][32..64]), "each signs for the message of the other");
        ensure!([&p0, &p1, &p2].iter().all(|p| p.domain == DOMAIN), "the domain");
    }
    o.nontrivial(ok);
    o.class_if(!ok, "refused");
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![
        Property { id: "M13", rule: "a claim was found by its name, and another is stored", assumptions: SHIM, subs: vec![sub("names", 1_500, 40_000, || vec(nop(), 1..14), names)] },
        Property {
            id: "M14",
            rule: "two keys, or a message replaced on its way; both sides succeed",
            assumptions: SHIM,
            subs: vec![sub("phases", 2_500, 60_000, hs, shake), sub("both", 1_500, 40_000, || (0u8..4, 0u8..4, any::<u8>(), any::<bool>()), both)],
        },
    ]
}
