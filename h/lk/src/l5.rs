//! Names and the keys they stand for.
use crate::clock;
use crate::d4::{envs, Envs};
use crate::model::{key, pubkey};
use fw::*;
use linkspace::abe::scope as lscope;
use linkspace::key::{lk_key_decrypt, lk_key_pubkey};
use linkspace::prelude::*;
use linkspace::varscope::{lk_eval, lk_key, lk_try_encode};
use linkspace::Linkspace;
use linkspace_common::protocols::lns::{self, claim::{vote, Claim, LiveClaim}, name::{Name, NameError, NameExpr}, public_claim::{walk_live_claims, Issue}};
use linkspace_common::runtime::Linkspace as Rt;
use linkspace_core::prelude::{core_scope};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::BTreeMap;

macro_rules! fail { ($($a:tt)*) => { return Err(Fail::from(format!($($a)*))) } }
fn np<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    no_panic(f).map_err(|e| Fail::from(format!("{what} panicked: {e}")))
}
// ------------------------------------------------------------------ names
fn comp() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "local", "Local", "local ", "loca", "me", "0", "#", ":", "a/b", "\\", "[", "é"]).prop_map(|s| s.as_bytes().to_vec()),
        3 => vec(prop_oneof![any::<u8>(), prop::sample::select(b":/[]\\\n\0".to_vec())], 0..6),
        1 => (1usize..240).prop_map(|n| vec![b'x'; n]),
    ]
    .boxed()
}
fn comps() -> BoxedStrategy<Vec<Vec<u8>>> {
    prop_oneof![
        6 => vec(comp(), 0..9),
        2 => (vec(comp(), 0..3)).prop_map(|mut v| { v.push(b"local".to_vec()); v }),
        // close to the size limit
        1 => (vec(30usize..60, 1..7), 226usize..240).prop_map(|(mut v, want)| {
            let mut have: usize = v.iter().map(|n| n + 1).sum();
            let mut i = 0;
            while have < want && i < 10_000 { let k = i % v.len(); if v[k] < 200 { v[k] += 1; have += 1 } i += 1 }
            while have > want && i < 20_000 { let k = i % v.len(); if v[k] > 1 { v[k] -= 1; have -= 1 } i += 1 }
            v.into_iter().map(|n| vec![b'y'; n]).collect()
        }),
    ]
    .boxed()
}
fn fits(c: &[Vec<u8>]) -> bool {
    !c.is_empty() && c.len() <= 7 && c.iter().all(|c| !c.is_empty() && c.len() <= 200) && c.iter().map(|c| c.len() + 1).sum::<usize>() <= 234
}
fn refs(c: &[Vec<u8>]) -> Vec<&[u8]> {
    c.iter().map(|c| c.as_slice()).collect()
}
fn abtxt(c: &[Vec<u8>]) -> String {
    c.iter().map(|c| linkspace::prelude::AB(c.as_slice()).to_string()).collect::<Vec<_>>().join(":")
}
fn names(c: &Vec<Vec<u8>>, o: &mut Obs) -> Res {
    let got = np("Name::from", || Name::from(&refs(c)))?;
    ensure_eq!(got.is_ok(), fits(c), "Name::from({:?}): {got:?}", c.iter().map(|c| js(&String::from_utf8_lossy(c))).collect::<Vec<_>>());
    o.class_if(!fits(c), "refused");
    if c.is_empty() {
        ensure_eq!(got, Err(NameError::MinLen), "no parts");
    }
    let text = abtxt(c);
    // as a space, last part first
    if let Ok(sp) = SpaceBuf::try_from_iter(c.iter().rev()) {
        let got = np("Name::from_space", || Name::from_space(&sp))?;
        ensure_eq!(got.is_ok(), fits(c), "Name::from_space({sp}): {got:?}");
        if c.is_empty() {
            ensure_eq!(got, Err(NameError::MinLen), "no parts");
        }
        if let Ok(n) = got {
            ensure_eq!(n.to_string(), abtxt(c), "the name of the space {sp}");
            ensure_eq!(n.name_type() == lns::name::NameType::Local, c.last().unwrap() == b"local", "{n} is local");
        }
    } else {
        ensure!(!fits(c), "a name that is no space");
    }
    // as an expression
    let expr: Result<NameExpr, _> = np("parse", || text.parse())?;
    let by_text = match expr {
        Ok(e) => np("eval", || e.eval(&core_scope()))?.ok(),
        Err(_) => None,
    };
    let Ok(name) = got else {
        ensure!(c.last().is_some_and(|l| l.is_empty()) || by_text.is_none(), "the expression {text} gives the name {by_text:?}");
        return Ok(());
    };
    o.nontrivial(c.len() > 1);
    ensure!(by_text.as_ref() == Some(&name), "the expression {text} gives {by_text:?}, not {name}");
    ensure_eq!(name.to_string(), text, "the printed name");
    let local = c.last().unwrap() == b"local";
    o.class_if(local, "local");
    ensure_eq!(name.claim_group() == PRIVATE, local, "{name} is private");
    ensure_eq!(name.claim_group() == PUBLIC, !local, "{name} is public");
    for (below, n) in [(vec![b"local".to_vec()], Name::local()), (vec![], Name::root())] {
        ensure_eq!(n.space().iter().map(|c| c.to_vec()).collect::<Vec<_>>(), below, "Name::local and Name::root");
        ensure_eq!(n == name, c == &below, "{n} and {name}");
    }
    let mut want: Vec<Vec<u8>> = c.clone();
    want.reverse();
    let have: Vec<Vec<u8>> = name.space().iter().map(|c| c.to_vec()).collect();
    ensure_eq!(&have, &want, "the space of {name}");
    let claim: Vec<Vec<u8>> = name.claim_space().iter().map(|c| c.to_vec()).collect();
    ensure_eq!(claim[0].as_slice(), &b"claims"[..], "the space of a claim");
    ensure_eq!(&claim[1..], &want[..], "the space of a claim for {name}");
    let back = Name::from_space(name.space());
    ensure!(back.as_ref() == Ok(&name), "from_space({}) gives {back:?}", name.space());
    // with a slash in it, it is no name
    if c.len() > 1 {
        let slashed = format!("{}/{}", abtxt(&c[..1]), abtxt(&c[1..]));
        if let Ok(e) = slashed.parse::<NameExpr>() {
            ensure!(np("eval", || e.eval(&core_scope()))?.is_err(), "{slashed} is no name");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ keys of local names
/// encrypted keys: (key, password, text)
pub fn pass(i: u8) -> &'static [u8] {
    [&b""[..], b"secret", b"other\n", b"\0"][i as usize % 4]
}
pub fn enc(k: u8, p: u8) -> &'static str {
    static E: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let e = E.get_or_init(|| {
        (0..16u8).map(|i| linkspace_argon2_identity::encrypt(key(i / 4), pass(i % 4), Some(linkspace_argon2_identity::INSECURE_COST))).collect()
    });
    &e[(k as usize % 4) * 4 + p as usize % 4]
}
fn local(n: u8) -> Vec<Vec<u8>> {
    let s: &[&str] = match n % 8 {
        0 => &["me", "local"],
        1 => &["you", "local"],
        2 => &["m", "local"],
        3 => &["local"],
        4 => &["a:b/c", "local"],
        5 => &["local", "local"],
        6 => &["x", "me", "local"],
        _ => &["me", "pub"],
    };
    s.iter().map(|s| s.as_bytes().to_vec()).collect()
}
#[derive(Clone, Debug)]
enum Op {
    Setup { name: u8, key: u8, pass: u8, over: bool },
    Open { name: u8, pass: u8, create: bool, env: u8 },
    Named(u8),
    Back(u8),
    Clock(u16),
    Handle,
}
fn op() -> BoxedStrategy<Op> {
    let n = || prop_oneof![4 => 0u8..3, 2 => 0u8..6, 1 => 0u8..8];
    prop_oneof![
        5 => (n(), 0u8..3, 0u8..4, proptest::bool::weighted(0.7)).prop_map(|(name, key, pass, over)| Op::Setup { name, key, pass, over }),
        2 => (n(), 0u8..4, any::<bool>(), 0u8..4).prop_map(|(name, pass, create, env)| Op::Open { name, pass, create, env }),
        2 => n().prop_map(Op::Named),
        3 => (0u8..4).prop_map(Op::Back),
        1 => (0u16..2000).prop_map(Op::Clock),
        1 => Just(Op::Handle),
    ]
    .boxed()
}
fn keys((ops, how): &(Vec<Op>, bool), o: &mut Obs) -> Res {
    let en: &'static Envs = envs();
    let mut at = clock::start();
    let mut h = 0;
    // per name: public key, password, and its place in time
    let mut m: BTreeMap<u8, ([u8; 32], u8, usize)> = BTreeMap::new();
    let mut over = 0;
    let res = (|| -> Res {
        for (i, op) in ops.iter().enumerate() {
            at += 3;
            clock::set(at);
            let rt = Rt::new_opt_rt(en.e[h].clone(), Default::default());
            let lk = Linkspace::from(rt.clone());
            let sc = || lscope::lk_scope(Some(&lk), ().into(), false).unwrap();
            match op {
                Op::Clock(d) => at += *d as u64,
                Op::Handle => h = 1 - h,
                Op::Setup { name, key: k, pass: p, over: ov } => {
                    let c = local(*name);
                    let nm = Name::from(&refs(&c)).unwrap();
                    let r = np("setup_special_keyclaim", || lns::setup_special_keyclaim(&rt, nm, enc(*k, *p), *ov))?;
                    let ok = c.last().unwrap() == b"local" && c.len() <= 2 && (*ov || !m.contains_key(name));
                    ensure_eq!(r.is_ok(), ok, "op {i}: set key {k} for {} (overwrite {ov}): {r:?}", abtxt(&c));
                    if ok {
                        ensure_eq!(r.unwrap().0, pubkey(*k), "op {i}: the key set");
                        if m.insert(*name, (pubkey(*k), *p, i)).is_some() {
                            over += 1
                        }
                    }
                }
                Op::Open { name, pass: p, create, env: _ } => {
                    let c = local(*name);
                    let text = abtxt(&c);
                    // a difficult password takes long to set
                    let create = *create && (*p % 4 == 0 || m.contains_key(name));
                    let r = np("lk_key", || lk_key(sc(), &lk, Some(pass(*p)), Some(&text), create))?;
                    match m.get(name) {
                        Some((k, pw, _)) => {
                            ensure_eq!(r.is_ok(), pass(*pw) == pass(*p), "op {i}: lk_key({text}) with {} password: {:?}", if pass(*pw) == pass(*p) { "the right" } else { "a wrong" }, r.as_ref().map(|k| k.pubkey()));
                            if let Ok(r) = r {
                                ensure_eq!(&r.pubkey().0, k, "op {i}: lk_key({text})");
                                o.class("opened");
                            }
                        }
                        None if create && c.last().unwrap() == b"local" && c.len() <= 2 => {
                            let Ok(r) = r else { fail!("op {i}: lk_key({text}) did not create a key: {:?}", r.err()) };
                            m.insert(*name, (r.pubkey().0, *p, i));
                            o.class("created");
                        }
                        None => ensure!(r.is_err(), "op {i}: lk_key({text}) without a key gave one"),
                    }
                }
                Op::Named(name) => named(&lk, &rt, *name, &m, i)?,
                Op::Back(k) => {
                    let mut ks: Vec<[u8; 32]> = vec![pubkey(*k)];
                    ks.extend(m.values().map(|v| v.0));
                    for k in ks {
                        back(&lk, &k, &m, i, *how)?
                    }
                }
            }
        }
        at += 3;
        clock::set(at);
        let rt = Rt::new_opt_rt(en.e[h].clone(), Default::default());
        let lk = Linkspace::from(rt.clone());
        for n in 0..8 {
            named(&lk, &rt, n, &m, ops.len())?
        }
        for k in 0..4 {
            back(&lk, &pubkey(k), &m, ops.len(), *how)?
        }
        Ok(())
    })();
    clock::real();
    o.nontrivial(over > 0);
    o.class_if(m.len() > 1, "several names");
    res
}
fn named(lk: &Linkspace, rt: &Rt, name: u8, m: &BTreeMap<u8, ([u8; 32], u8, usize)>, i: usize) -> Res {
    let c = local(name);
    let text = abtxt(&c);
    let nm = Name::from(&refs(&c)).unwrap();
    let want = m.get(&name).map(|v| v.0);
    let got = np("lookup_pubkey", || lns::lookup_pubkey(rt, &nm))?;
    let Ok(got) = got else { fail!("op {i}: lookup_pubkey({text}): {:?}", got.err()) };
    ensure_eq!(got.map(|k| k.0), want, "op {i}: the key of {text}");
    for f in ["@", "private@"] {
        let sc = || lscope::lk_scope(Some(lk), ().into(), false).unwrap();
        let e = format!("[{f}:{text}]");
        let got = np("lk_eval", || lk_eval(sc(), &e, false))?;
        ensure_eq!(got.as_ref().ok().map(|v| v.as_slice()), want.as_ref().map(|v| v.as_slice()), "op {i}: {e} ({:?})", got.as_ref().err().map(|e| e.to_string()));
        ensure!(np("lk_eval", || lk_eval(sc(), &format!("[{}:{text}]", f.replace('@', "#")), false))?.is_err(), "op {i}: a group for {text}, which has none");
    }
    let en = np("lookup_enckey", || lns::lookup_enckey(rt, &nm))?;
    let Ok(en) = en else { fail!("op {i}: lookup_enckey({text}): {:?}", en.err()) };
    ensure_eq!(en.as_ref().map(|k| k.0 .0), want, "op {i}: the encrypted key of {text}");
    if let (Some((_, t)), Some((_, p, _))) = (en, m.get(&name)) {
        ensure_eq!(lk_key_pubkey(&t).ok().map(|k| k.0), want, "op {i}: lk_key_pubkey");
        ensure!(lk_key_decrypt(&t, pass(*p)).is_ok(), "op {i}: the encrypted key of {text} is not the one set");
    }
    Ok(())
}
/// from the key to a name
fn back(lk: &Linkspace, k: &[u8; 32], m: &BTreeMap<u8, ([u8; 32], u8, usize)>, i: usize, private: bool) -> Res {
    let sc = || lscope::lk_scope(Some(lk), ().into(), false).unwrap();
    let last = m.iter().filter(|(_, v)| v.0 == *k).max_by_key(|(_, v)| v.2).map(|(n, _)| abtxt(&local(*n)));
    let f = if private { "private@" } else { "@" };
    let e = np("lk_try_encode", || lk_try_encode(sc(), k, f, false))?;
    let e = e.map_err(|e| e.to_string());
    match &last {
        Some(n) => ensure_eq!(e.as_ref().ok().cloned(), Some(format!("[@:{n}]")), "op {i}: key {} encoded ({e:?})", B64(*k)),
        None => ensure!(e.as_ref().map_or(true, |t| !t.starts_with("[@:")), "op {i}: key {} has no name, and is encoded as {e:?}", B64(*k)),
    }
    let q = format!("[?{f}:{}]", B64(*k));
    let got = np("lk_eval", || lk_eval(sc(), &q, false))?;
    ensure_eq!(got.as_ref().ok().map(|v| String::from_utf8_lossy(v).into_owned()), last, "op {i}: {q} ({:?})", got.as_ref().err().map(|e| e.to_string()));
    Ok(())
}

// ------------------------------------------------------------------ votes
fn voter(i: u8) -> &'static linkspace::SigningKey {
    static K: std::sync::OnceLock<Vec<linkspace::SigningKey>> = std::sync::OnceLock::new();
    &K.get_or_init(|| {
        (0..8u8).map(|i| { let mut b = [0x31 + i; 32]; b[0] = 1 + i; linkspace::SigningKey::try_from(b).unwrap() }).collect()
    })[i as usize]
}
fn vkey(i: u8) -> [u8; 32] {
    voter(i).pubkey_bytes()
}
#[derive(Clone, Debug)]
struct Vt {
    by: u8,
    at: u8,
    /// 0..3: a claim, 3: one that is not in the store, 4: a point that is no claim
    on: u8,
    tag: bool,
    /// 0: where it belongs
    place: u8,
}
#[derive(Clone, Debug)]
struct Level {
    /// the authorities named by each claim
    claims: Vec<Vec<u8>>,
    votes: Vec<Vt>,
}
fn auths() -> BoxedStrategy<Vec<u8>> {
    Just((0u8..6).collect::<Vec<_>>()).prop_shuffle().prop_flat_map(|v| (0usize..7).prop_map(move |n| v[..n].to_vec())).boxed()
}
fn level() -> BoxedStrategy<Level> {
    let vt = (0u8..6, 0u8..12, prop_oneof![12 => 0u8..3, 1 => Just(3u8), 1 => Just(4u8)], proptest::bool::weighted(0.95), prop_oneof![8 => Just(0u8), 1 => 1u8..6]).prop_map(|(by, at, on, tag, place)| Vt { by, at, on, tag, place });
    (vec(auths(), 3), vec(vt, 0..12)).prop_map(|(claims, votes)| Level { claims, votes }).boxed()
}
fn claim(comps: &[&[u8]], auths: &[u8], salt: u64) -> Claim {
    let mut links: Vec<Link> = vec![Link::new("", [salt as u8; 32])];
    for (i, a) in auths.iter().enumerate() {
        let mut t = [0u8; 16];
        t[15] = b'^';
        t[14] = i as u8;
        links.push(Link { tag: AB(t), ptr: vkey(*a).into() });
        if i % 2 == 1 {
            links.push(Link { tag: AB(*b"^           no  "), ptr: vkey(7).into() });
        }
    }
    let mut name: Vec<&[u8]> = comps.to_vec();
    name.reverse();
    Claim::new(Name::from(&name).unwrap(), Stamp::from(u64::MAX - 5), &mut links, b"").unwrap()
}
fn votes((root, levels, ask): &(Vec<u8>, Vec<Level>, u8), o: &mut Obs) -> Res {
    let en: &'static Envs = envs();
    let base = clock::start() - 500_000;
    let res = (|| -> Res {
        let path: [&[u8]; 4] = [b"top", b"a", b"b", b"cc"];
        let top = claim(&path[..1], root, 9);
        let mut all: Vec<NetPktBox> = vec![];
        // per level and claim: hash and authorities
        let mut cl: Vec<Vec<([u8; 32], Vec<u8>)>> = vec![];
        // per level and voter: the latest vote, (time, what for if it is a vote at all, its hash)
        let mut say: Vec<BTreeMap<u8, (u64, Option<u8>, [u8; 32])>> = vec![];
        for (i, l) in levels.iter().enumerate() {
            let at = &path[..i + 2];
            let cs: Vec<Claim> = l.claims.iter().enumerate().map(|(k, a)| claim(at, a, k as u64)).chain([claim(at, &[], 77)]).collect();
            let odd = linkspace_pkt::datapoint(format!("no claim {i}").as_bytes(), ()).as_netbox();
            for c in &cs[..3] {
                all.push(c.pkt.as_netbox());
            }
            all.push(odd.as_netbox());
            let mut s: BTreeMap<u8, (u64, Option<u8>, [u8; 32])> = BTreeMap::new();
            let mut used: Vec<(u8, u8)> = vec![];
            for v in &l.votes {
                if v.place == 0 {
                    if used.contains(&(v.by, v.at)) {
                        continue;
                    }
                    used.push((v.by, v.at));
                }
                let stamp = base + v.at as u64 * 10;
                clock::set(stamp);
                let to = if v.on == 4 { odd.hash() } else { cs[v.on as usize].pkt.hash() };
                let pkt = if v.place == 0 && v.tag && v.on < 4 && v.at % 2 == 0 {
                    let p = np("vote", || vote(&cs[v.on as usize], voter(v.by), b""))?.map_err(|e| Fail::from(format!("vote: {e}")))?;
                    ensure_eq!(p.get_create_stamp().get(), stamp, "the time of a vote");
                    p
                } else {
                    let mut sp: Vec<&[u8]> = vec![b"claims"];
                    sp.extend(at);
                    match v.place {
                        1 => sp.push(b"z"),
                        2 => *sp.last_mut().unwrap() = b"z",
                        3 => sp[0] = b"claim",
                        _ => {}
                    }
                    let group = if v.place == 4 { PRIVATE } else { PUBLIC };
                    let domain = if v.place == 5 { AB(*b"\0\0\0\0\0\0\0\0\0\0\0\0\0lnt") } else { lns::LNS };
                    let sp = linkspace_pkt::rspace_buf(&sp);
                    let links = [Link::new(if v.tag { "vote" } else { "voted" }, to), Link::new("vote", cs[0].pkt.hash())];
                    linkspace_pkt::keypoint(group, domain, &sp, &links, b"x", Stamp::from(stamp), voter(v.by), ()).as_netbox()
                };
                if v.place == 0 {
                    let e = (stamp, v.tag.then_some(v.on), pkt.hash().0);
                    let x = s.entry(v.by).or_insert(e);
                    if x.0 <= stamp {
                        *x = e
                    }
                }
                all.push(pkt);
            }
            cl.push(cs.iter().zip(l.claims.iter().cloned().chain([vec![]])).map(|(c, a)| (c.pkt.hash().0, a)).chain([(odd.hash().0, vec![])]).collect());
            say.push(s);
        }
        clock::set(base + 1_000_000);
        en.e[0].save_dyn_iter(all.iter().map(|p| p as &dyn linkspace_pkt::NetPkt)).map_err(|e| Fail::from(format!("save: {e}")))?;

        let lk = Rt::new_opt_rt(en.e[0].clone(), Default::default());
        // what is expected
        let depth = (*ask as usize % 4).min(levels.len());
        let mut live: Vec<[u8; 32]> = vec![top.pkt.hash().0];
        let mut cur = root.clone();
        let mut end = "";
        let mut sigs: Vec<Vec<[u8; 32]>> = vec![vec![]];
        for i in 0..depth {
            let mut n: BTreeMap<u8, Vec<(u64, [u8; 32])>> = BTreeMap::new();
            for a in &cur {
                if let Some((t, Some(on), h)) = say[i].get(a) {
                    n.entry(*on).or_default().push((*t, *h))
                }
            }
            let score = |v: &Vec<(u64, [u8; 32])>| (v.len(), std::cmp::Reverse(v.iter().map(|v| v.0).max().unwrap()));
            let Some(best) = n.values().map(score).max() else { end = "nobody"; break };
            let w: Vec<u8> = n.iter().filter(|(_, v)| score(v) == best).map(|(k, _)| *k).collect();
            if w.len() > 1 {
                end = "tie";
                o.class_if(n.len() > 2, "a tie among three");
                break;
            }
            o.nontrivial(n.len() > 1);
            o.class_if(n.values().filter(|v| v.len() == best.0).count() > 1, "decided by time");
            if w[0] >= 3 {
                end = "unknown";
                break;
            }
            let (h, a) = &cl[i][w[0] as usize];
            live.push(*h);
            sigs.push(n[&w[0]].iter().map(|v| v.1).collect());
            cur = a.clone();
        }
        o.class(match end { "" => "resolved", e => e });
        o.class_if(live.len() > 2, "two levels");

        let mut issues: Vec<String> = vec![];
        let mut none: Vec<[u8; 32]> = vec![];
        let reader = lk.get_reader();
        let mut nm: Vec<&[u8]> = path[1..depth + 1].to_vec();
        nm.reverse();
        let space = if depth == 0 { SpaceBuf::new() } else { Name::from(&nm).unwrap().space().into_spacebuf() };
        let parent = LiveClaim { claim: top, signatures: vec![], parent: None };
        let r = np("walk_live_claims", || {
            walk_live_claims(&reader, parent, &mut space.iter(), &mut |i| {
                match i {
                    Issue::NoVote { auth, .. } => none.push(auth.0),
                    Issue::Tie(t) => issues.push(format!("tie {}", t.len() > 1)),
                    Issue::UnknownClaimIsLive(_) => issues.push("unknown".into()),
                    _ => {}
                }
                Ok(())
            })
        })?;
        let r = r.map_err(|e| Fail::from(format!("walk: {e}")))?;
        let (ok, got) = match &r {
            Ok(l) => (true, l),
            Err(l) => (false, l),
        };
        let chain: Vec<[u8; 32]> = got.list().iter().rev().map(|c| c.claim.pkt.hash().0).collect();
        let name_of = |h: &[u8; 32]| cl.iter().enumerate().find_map(|(i, c)| c.iter().position(|c| c.0 == *h).map(|k| format!("{i}.{k}"))).unwrap_or("top".into());
        ensure_eq!(chain.iter().map(name_of).collect::<Vec<_>>(), live.iter().map(name_of).collect::<Vec<_>>(), "claims live ({end}, issues {issues:?}, no votes of {:?})", none.iter().map(|n| n[0]).collect::<Vec<_>>());
        ensure_eq!(ok, end.is_empty(), "the name resolved ({end:?}, issues {issues:?}, no votes of {:?})", none.iter().map(|n| n[0]).collect::<Vec<_>>());
        let want: Vec<String> = match end {
            "tie" => vec!["tie true".into()],
            "unknown" => vec!["unknown".into()],
            _ => vec![],
        };
        ensure_eq!(issues, want, "issues");
        for a in &none {
            ensure!((0..6).any(|k| vkey(k) == *a && say.iter().any(|s| !s.contains_key(&k))), "a vote reported missing is there");
        }
        if end == "nobody" {
            for a in &cur {
                if !say[live.len() - 1].contains_key(a) {
                    ensure!(none.contains(&vkey(*a)), "authority {a} has not voted, and this was not reported");
                }
            }
        }
        for (c, want) in got.list().iter().rev().zip(&sigs) {
            let have: Vec<[u8; 32]> = c.signatures.iter().map(|s| s.hash().0).collect();
            ensure!(have.iter().all(|h| want.contains(h)), "a signature that is no vote for the claim");
            ensure!(want.is_empty() || !have.is_empty(), "a live claim without a vote");
        }
        Ok(())
    })();
    clock::real();
    res
}
// ------------------------------------------------------------------ groups and the entries from a value to its names
#[derive(Clone, Debug)]
enum GOp {
    Save { name: u8, links: Vec<(u8, u8)>, short: bool, store: bool },
    /// change the entry of a value: what to take out, and what to add (first, which claim, how long)
    Entry { key: bool, ptr: u8, remove: Option<u8>, add: Option<(bool, u8, u8)> },
    Ask(u8, u8),
    Clock(u16),
    Handle,
}
fn gop() -> BoxedStrategy<GOp> {
    prop_oneof![
        5 => (prop_oneof![4 => 0u8..3, 1 => 0u8..8], vec((0u8..5, 0u8..4), 1..5), proptest::bool::weighted(0.2), proptest::bool::weighted(0.9)).prop_map(|(name, links, short, store)| GOp::Save { name, links, short, store }),
        6 => (proptest::bool::weighted(0.3), 0u8..3, proptest::option::weighted(0.4, any::<u8>()), proptest::option::weighted(0.9, (any::<bool>(), any::<u8>(), 0u8..4))).prop_map(|(key, ptr, remove, add)| GOp::Entry { key, ptr, remove, add }),
        2 => (0u8..8, 0u8..4).prop_map(|(a, b)| GOp::Ask(a, b)),
        1 => prop_oneof![0u16..100, 0u16..4000].prop_map(GOp::Clock),
        1 => Just(GOp::Handle),
    ]
    .boxed()
}
struct GClaim {
    name: u8,
    hash: [u8; 32],
    until: u64,
    links: Vec<(u8, u8)>,
    stored: bool,
}
const GTAG: [&[u8]; 5] = [b"group#", b"pubkey@", b"group^", b"xgroup#", b"pubkey"];
fn gfind(l: &[(u8, u8)], end: &[u8]) -> Option<[u8; 32]> {
    l.iter().find(|(t, _)| GTAG[*t as usize].ends_with(end)).map(|(_, p)| gptr(*p))
}
fn gptr(p: u8) -> [u8; 32] {
    [0x61 + p; 32]
}
#[derive(Default)]
struct GM {
    claims: Vec<GClaim>,
    /// per tag and value: until and claim
    entries: BTreeMap<(bool, u8), Vec<(u64, [u8; 32])>>,
}
impl GM {
    /// the claim in use for a name: the last one, for local names
    fn of(&self, name: u8) -> Option<&GClaim> {
        self.claims.iter().filter(|c| c.stored && c.name == name && name != 7).last()
    }
    fn back(&self, key: bool, ptr: u8, now: u64) -> Option<u8> {
        let e = self.entries.get(&(key, ptr))?;
        let c = e.iter().filter(|l| l.0 > now).find_map(|l| self.claims.iter().find(|c| c.stored && c.hash == l.1))?;
        (gfind(&self.of(c.name)?.links, gtag(key)) == Some(gptr(ptr))).then_some(c.name)
    }
}
fn gtag(key: bool) -> &'static [u8] {
    if key { b"pubkey@" } else { b"group#" }
}
fn gask(lk: &Linkspace, rt: &Rt, m: &GM, name: u8, ptr: u8, now: u64, i: usize, o: &mut Obs) -> Res {
    let c = local(name);
    let text = abtxt(&c);
    let nm = Name::from(&refs(&c)).unwrap();
    let sc = || lscope::lk_scope(Some(lk), ().into(), false).unwrap();
    let cur = m.of(name);
    let got = np("lookup_claim", || lns::lookup_claim(rt, &nm))?.map_err(|e| Fail::from(format!("op {i}: lookup_claim({text}): {e}")))?;
    ensure_eq!(got.as_ref().map(|c| B64(c.pkt.hash().0)), cur.map(|c| B64(c.hash)), "op {i}: the claim of {text}");
    let group = cur.and_then(|c| gfind(&c.links, b"group#"));
    let pubk = cur.and_then(|c| gfind(&c.links, b"pubkey@"));
    let g = np("lookup_group", || lns::lookup_group(rt, &nm))?.map_err(|e| Fail::from(format!("op {i}: lookup_group({text}): {e}")))?;
    ensure_eq!(g.map(|g| g.0), group, "op {i}: the group of {text}");
    let k = np("lookup_pubkey", || lns::lookup_pubkey(rt, &nm))?.map_err(|e| Fail::from(format!("op {i}: lookup_pubkey({text}): {e}")))?;
    ensure_eq!(k.map(|g| g.0), pubk, "op {i}: the key of {text}");
    for (f, want) in [("#", group), ("private#", group), ("@", pubk), ("private@", pubk)] {
        // [#:local] and the like may have other readings: names of two parts and more have none
        if c.len() < 2 {
            continue;
        }
        let e = format!("[{f}:{text}]");
        let got = np("lk_eval", || lk_eval(sc(), &e, false))?;
        ensure_eq!(got.as_ref().ok().map(|v| v.to_vec()), want.map(|w| w.to_vec()), "op {i}: {e} ({:?})", got.as_ref().err().map(|e| e.to_string()));
    }
    for f in ["lns", "private-lns"] {
        let e = format!("[/{f}:{text}/[hash:str]]");
        let got = np("lk_eval", || lk_eval(sc(), &e, false))?;
        ensure_eq!(got.as_ref().ok().map(|v| String::from_utf8_lossy(v).into_owned()), cur.map(|c| B64(c.hash).to_string()), "op {i}: {e} ({:?})", got.as_ref().err().map(|e| e.to_string()));
    }
    // all claims below a name
    let reader = rt.get_reader();
    let mut all: Vec<String> = vec![];
    for c in lns::utils::list_all_potential_claims_with_prefix(&reader, &nm) {
        all.push(c.map_err(|e| Fail::from(format!("op {i}: claims below {text}: {e}")))?.pkt.hash().to_string());
    }
    all.sort();
    let mut want: Vec<String> = m.claims.iter().filter(|k| k.stored && k.until > now && { let l = local(k.name); l.ends_with(&c) }).map(|k| B64(k.hash).to_string()).collect();
    want.sort();
    o.class_if(want.len() > 2, "several claims below a name");
    ensure_eq!(all, want, "op {i}: the claims below {text}");

    for key in [false, true] {
        let p = gptr(ptr);
        let r = reader_entry(rt, key, ptr)?;
        ensure_eq!(r, m.entries.get(&(key, ptr)).cloned(), "op {i}: the entry of {}", B64(p));
        let want = m.back(key, ptr, now);
        let got = np("reverse_lookup", || lns::reverse_lookup(rt, gtag(key), p.into()))?;
        let got = got.into_ok();
        match want {
            Some(n) => {
                o.class("found by its value");
                let c = got.map_err(|e| Fail::from(format!("op {i}: reverse_lookup: {e}")))?;
                ensure_eq!(c.map(|c| B64(c.pkt.hash().0)), Some(B64(m.of(n).unwrap().hash)), "op {i}: reverse_lookup of {}", B64(p));
            }
            None => ensure!(!matches!(&got, Ok(Some(_))), "op {i}: reverse_lookup of {} gives {:?}", B64(p), got.ok().flatten().map(|c| c.name)),
        }
        let want = want.map(|n| abtxt(&local(n)));
        let h = if key { "@" } else { "#" };
        for f in [h.to_string(), format!("private{h}")] {
            let q = format!("[?{f}:{}]", B64(p));
            let got = np("lk_eval", || lk_eval(sc(), &q, false))?;
            ensure_eq!(got.as_ref().ok().map(|v| String::from_utf8_lossy(v).into_owned()), want, "op {i}: {q} ({:?})", got.as_ref().err().map(|e| e.to_string()));
            let e = np("lk_try_encode", || lk_try_encode(sc(), &p, &f, false))?.map_err(|e| e.to_string());
            match &want {
                Some(n) => ensure_eq!(e.as_ref().ok().cloned(), Some(format!("[{h}:{n}]")), "op {i}: {} encoded ({e:?})", B64(p)),
                None => ensure!(e.as_ref().map_or(true, |t| !t.starts_with(&format!("[{h}:"))), "op {i}: {} has no name, and is encoded as {e:?}", B64(p)),
            }
        }
    }
    Ok(())
}
fn reader_entry(rt: &Rt, key: bool, ptr: u8) -> Result<Option<Vec<(u64, [u8; 32])>>, Fail> {
    let reader = rt.get_reader();
    let e = np("ptr_lookup_entry", || lns::admin::ptr_lookup_entry(&reader, gtag(key), gptr(ptr).into(), None).into_ok())?.map_err(|e| Fail::from(format!("ptr_lookup_entry: {e}")))?;
    Ok(e.map(|p| p.get_links().iter().map(|l| (lns::as_stamp_tag(l.tag).0.get(), l.ptr.0)).collect()))
}
fn groups((ops, admin): &(Vec<GOp>, bool), o: &mut Obs) -> Res {
    let en: &'static Envs = envs();
    let mut at = clock::start();
    let mut h = 0;
    let mut m = GM::default();
    let res = (|| -> Res {
        for (i, op) in ops.iter().chain([0u8, 1, 2, 3, 5, 7].iter().map(|n| GOp::Ask(*n, n % 3)).collect::<Vec<_>>().iter()).enumerate() {
            at += 3;
            clock::set(at);
            let rt = Rt::new_opt_rt(en.e[h].clone(), Default::default());
            let lk = Linkspace::from(rt.clone());
            match op {
                GOp::Clock(d) => at += *d as u64,
                GOp::Handle => h = 1 - h,
                GOp::Ask(n, p) => gask(&lk, &rt, &m, *n, *p, at, i, o)?,
                GOp::Save { name, links, short, store } => {
                    let until = if *short { at + 500 } else { u64::MAX };
                    let mut ls: Vec<Link> = links.iter().map(|(t, p)| Link::new(GTAG[*t as usize], gptr(*p))).collect();
                    let c = np("Claim::new", || Claim::new(Name::from(&refs(&local(*name))).unwrap(), Stamp::from(until), &mut ls, b""))?.map_err(|e| Fail::from(format!("Claim::new: {e}")))?;
                    if *store {
                        en.e[h].save_dyn_iter([&c.pkt as &dyn linkspace_pkt::NetPkt].into_iter()).map_err(|e| Fail::from(format!("save: {e}")))?;
                    }
                    // a public claim has no time of its own: the same may come again
                    if let Some(old) = m.claims.iter_mut().find(|k| k.hash == c.pkt.hash().0) {
                        old.stored |= *store;
                    } else {
                        m.claims.push(GClaim { name: *name, hash: c.pkt.hash().0, until, links: links.clone(), stored: *store });
                    }
                }
                GOp::Entry { key: k, ptr, remove, add } => {
                    let pick = |x: u8| match m.claims.len() { 0 => [x; 32], n => m.claims[x as usize % n].hash };
                    let old = m.entries.get(&(*k, *ptr)).cloned().unwrap_or_default();
                    let rm = remove.map(|r| match old.len() { 0 => pick(r), n => old[r as usize % n].1 });
                    let add = add.map(|(first, c, t)| (first, [at + 40, at + 400, at + 5000, u64::MAX][t as usize % 4], pick(c)));
                    let lks: Vec<Link> = old.iter().map(|(u, c)| Link { tag: lns::stamp_tag(Stamp::from(*u), [0; 8]), ptr: (*c).into() }).collect();
                    let path = linkspace_pkt::rspace_buf(&[b"by-tag", gtag(*k), &gptr(*ptr)]);
                    let new = add.map(|(f, u, c)| (f, Link { tag: lns::stamp_tag(Stamp::from(u), [0; 8]), ptr: c.into() }));
                    let pkt = np("mut_ptrlookup_entry", || lns::admin::mut_ptrlookup_entry(&lks, &path, rm.map(|r| r.into()), new, admin.then(|| voter(1)), Stamp::from(at)))?;
                    let mut want: Vec<(u64, [u8; 32])> = old.iter().filter(|l| Some(l.1) != rm && l.0 > at).copied().collect();
                    o.class_if(old.iter().any(|l| l.0 <= at), "an expired entry");
                    o.class_if(want.len() > 1, "several claims for a value");
                    match add {
                        Some((true, u, c)) => want.insert(0, (u, c)),
                        Some((false, u, c)) => want.push((u, c)),
                        None => {}
                    }
                    let got: Vec<(u64, [u8; 32])> = linkspace_pkt::NetPkt::as_netbox(&pkt).get_links().iter().map(|l| (lns::as_stamp_tag(l.tag).0.get(), l.ptr.0)).collect();
                    ensure_eq!(got, want, "op {i}: the entry made for {} (without {:?})", B64(gptr(*ptr)), rm.map(B64));
                    ensure_eq!(pkt.get_pubkey().0 == vkey(1), *admin, "op {i}: who signed it");
                    en.e[h].save_dyn_iter([&pkt as &dyn linkspace_pkt::NetPkt].into_iter()).map_err(|e| Fail::from(format!("save: {e}")))?;
                    m.entries.insert((*k, *ptr), want);
                }
            }
        }
        Ok(())
    })();
    clock::real();
    o.nontrivial(m.claims.len() > 1 && m.entries.values().any(|e| !e.is_empty()));
    res
}
// ------------------------------------------------------------------ claims
fn enc_data() -> BoxedStrategy<Vec<u8>> {
    (0u8..4, 0u8..4, vec(any::<u8>(), 0..6), 0u8..6).prop_map(|(k, p, rest, how)| {
        let mut e = enc(k, p).as_bytes().to_vec();
        match how {
            0 => e,
            1 => { e.push(b'\n'); e.extend(rest); e }
            2 => { e.extend(rest); e }
            3 => { e.pop(); e }
            4 => [rest, e].concat(),
            _ => rest,
        }
    }).boxed()
}
fn claims((c, links, until, data): &(Vec<Vec<u8>>, Vec<(u8, u8)>, u8, Vec<u8>), o: &mut Obs) -> Res {
    let Ok(name) = Name::from(&refs(c)) else { return Ok(()) };
    let until = [0u64, 1, 1 << 40, u64::MAX - 1, u64::MAX][*until as usize % 5];
    let tags: [&[u8]; 7] = [b"pubkey@", b"group#", b"pubkey^", b"enckey", b"^", b"xgroup#", b"a"];
    let mut ls: Vec<Link> = links.iter().map(|(t, p)| Link::new(tags[*t as usize % 7], [*p; 32])).collect();
    clock::set(1 << 41);
    let r = np("Claim::new", || Claim::new(name.clone(), Stamp::from(until), &mut ls, data));
    let created = if c.last().unwrap() == b"local" { 1u64 << 41 } else { 0 };
    clock::real();
    let r = r?;
    ensure_eq!(r.is_ok(), !links.is_empty() && until > created, "Claim::new: {:?}", r.as_ref().err().map(|e| e.to_string()));
    let Ok(cl) = r else { return Ok(()) };
    o.nontrivial(links.len() > 1);
    // the first link keeps eight bytes of its tag
    let tag = |t: u8| tags[t as usize % 7];
    let find = |end: &[u8]| links.iter().find(|(t, _)| tag(*t).ends_with(end)).map(|(_, p)| [*p; 32]);
    ensure_eq!(cl.until().get(), until, "until");
    ensure_eq!(cl.pubkey().map(|p| p.0), find(b"pubkey@"), "pubkey");
    ensure_eq!(cl.group().map(|p| p.0), find(b"group#"), "group");
    let auth: Vec<[u8; 32]> = links.iter().filter(|(t, _)| tag(*t).ends_with(b"^")).map(|(_, p)| [*p; 32]).collect();
    ensure_eq!(cl.authorities().map(|p| p.0).collect::<Vec<_>>(), auth, "authorities");
    ensure!(cl.name == name, "the name of the claim");
    let again = Claim::from(cl.pkt.as_netbox()).map_err(|e| Fail::from(format!("read back: {e}")))?;
    ensure!(again.name == name && again.pkt.hash() == cl.pkt.hash(), "read back");
    // encrypted key
    let first: Vec<u8> = data.iter().take(130).take_while(|b| **b != b'\n').copied().collect();
    let want = std::str::from_utf8(&first).ok().and_then(|t| lk_key_pubkey(t).ok().map(|k| (k, t.to_string())));
    o.class_if(want.is_some(), "with an encrypted key");
    match (np("enckey", || cl.enckey().map_err(|l| l.map(|l| l.ptr.0)))?, want) {
        (Ok(a), Some(b)) => ensure!(a == b, "the encrypted key"),
        (Err(l), None) => ensure_eq!(l, find(b"enckey"), "the link to the encrypted key"),
        (a, b) => fail!("the encrypted key: {a:?}, not {b:?}"),
    }
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L05",
        rule: "a name of more than one part; a key that replaced one; a vote decided",
        assumptions: &["the store runs on the in-memory stand-in of LMDB", "each operation happens at a time of its own"],
        subs: vec![
            sub("names", 40_000, 400_000, comps, names),
            sub("keys", 6_000, 100_000, || (vec(op(), 1..14), any::<bool>()), keys),
            sub("votes", 5_000, 200_000, || (auths(), vec(level(), 1..4), any::<u8>()), votes),
            sub("groups", 4_000, 150_000, || (vec(gop(), 1..14), proptest::bool::weighted(0.3)), groups),
            sub("claims", 20_000, 100_000, || (comps(), vec((any::<u8>(), 0u8..4), 0..6), any::<u8>(), enc_data()), claims),
        ],
    }]
}
