//! Two instances that exchange the points of a group through pipes, as the scripts of the example do.
use crate::d4::{pool, Pk, P};
use crate::m2::stream;
use crate::m3::{init, pk, SHIM};
use crate::model::{self, Kind};
use crate::run::*;
use fw::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::{BTreeMap, BTreeSet};

const G: [u8; 32] = *b"the group that is exchanged here";
#[derive(Clone, Debug)]
struct Round {
    /// points that come to be at the client, and at the server
    client: Vec<u8>,
    server: Vec<u8>,
    up: bool,
    pull: Option<Ask>,
}
#[derive(Clone, Debug)]
struct Ask {
    base: u8,
    /// components of its space
    len: u8,
    follow: bool,
    id: u8,
    signed: bool,
}
#[derive(Clone, Debug)]
struct Ex {
    ps: Vec<P>,
    group: u16,
    rounds: Vec<Round>,
}
fn ex() -> BoxedStrategy<Ex> {
    let sel = || vec(0u8..16, 0..8);
    let ask = (any::<u8>(), 0u8..4, any::<bool>(), 0u8..2, proptest::bool::weighted(0.2)).prop_map(|(base, len, follow, id, signed)| Ask { base, len, follow, id, signed });
    let round = (sel(), sel(), any::<bool>(), proptest::option::weighted(0.7, ask)).prop_map(|(client, server, up, pull)| Round { client, server, up, pull });
    (pool(16), any::<u16>(), vec(round, 1..4)).prop_map(|(ps, group, rounds)| Ex { ps, group, rounds }).boxed()
}
struct Side {
    d: Dir,
    /// what it holds, by hash, and whether it came to be here
    has: BTreeMap<[u8; 32], bool>,
}
impl Side {
    fn new() -> Result<Side, Fail> {
        let d = Dir::new();
        let begin = init(&d)?;
        Ok(Side { d, has: begin.iter().map(|p| (p.hash, p.m.h.hop == 0)).collect() })
    }
    fn run(&self, args: &[&str], input: &[u8]) -> Result<Vec<u8>, Fail> {
        good(&self.d, &a(args), input)
    }
    /// the packets of the group that are stored, in the order of arrival
    fn log(&self) -> Result<Vec<Vec<u8>>, Fail> {
        split("the store", &self.run(&["--private", "watch-log", "--asc", "--bare", "--db-only"], &[])?)
    }
    fn last(&self, which: &str, key: &str) -> Result<String, Fail> {
        let p = self.run(&["--private", "watch", "--db-only", "--max", "1", &format!(":[#:0]:/{which}/{key}")], &[])?;
        let t = self.run(&["--private", "pktf", "[create:str]"], &p)?;
        Ok(String::from_utf8_lossy(&t).trim().to_string())
    }
    /// saves what the other side sent, and notes it
    fn receive(&mut self, what: &str, bytes: &[u8], key: &str) -> Result<usize, Fail> {
        let sent = split(what, bytes)?;
        let out = self.run(&["save", "--new", "db", "--new", "stdout", "--old", &format!("file:{}", self.d.path("old"))], bytes)?;
        let new = split("new packets", &out)?;
        let old = split("old packets", &self.d.read("old"))?;
        let _ = std::fs::remove_file(self.d.path("old"));
        let (mut wn, mut wo) = (vec![], vec![]);
        for w in &sent {
            let h: [u8; 32] = w[32..64].try_into().unwrap();
            if self.has.contains_key(&h) {
                wo.push(point(w))
            } else {
                self.has.insert(h, false);
                wn.push(point(w))
            }
        }
        ensure_eq!((new.iter().map(|w| point(w)).collect::<Vec<_>>(), old.iter().map(|w| point(w)).collect::<Vec<_>>()), (wn, wo), "{what}: new and old ones");
        ensure!(new.iter().all(|w| u32::from_be_bytes(w[4..8].try_into().unwrap()) > 0), "{what}: a packet that came from elsewhere has no hop");
        // what came in is noted, each note links some
        self.run(&["--private", "collect", &format!(":[#:0]:/rxlog/{key}"), "--min-interval", "1m", "--forward", "null", "--write", "db"], &out)?;
        let n = new.len();
        self.noted(what, "rxlog", key, &new)?;
        Ok(n)
    }
    /// the newest notes link these packets
    fn noted(&mut self, what: &str, which: &str, key: &str, of: &[Vec<u8>]) -> Res {
        // dedup does its best: a packet may pass twice
        let mut left: BTreeMap<[u8; 32], usize> = BTreeMap::new();
        for w in of {
            *left.entry(w[32..64].try_into().unwrap()).or_default() += 1;
        }
        let log = self.log()?;
        for w in log.iter() {
            let v = model::ref_read(w, false).map_err(|e| Fail::from(format!("{e:?}")))?;
            let h: [u8; 32] = w[32..64].try_into().unwrap();
            if v.comps.first().is_some_and(|c| c == which.as_bytes()) && !self.has.contains_key(&h) {
                ensure!(v.comps.len() == 2 && v.comps[1] == model_key(key) && v.group == [0; 32], "{what}: a note elsewhere");
                for l in &v.links {
                    let n = left.get_mut(&l.1);
                    ensure!(n.as_ref().is_some_and(|n| **n > 0), "{what}: {which} links what did not pass, or too often");
                    *n.unwrap() -= 1;
                }
                self.has.insert(h, true);
            }
        }
        let missing = left.values().filter(|n| **n > 0).count();
        ensure!(missing == 0, "{what}: {missing} packets are not in the {which}");
        Ok(())
    }
    fn same(&self, what: &str) -> Res {
        let log: BTreeSet<[u8; 32]> = self.log()?.iter().map(|w| w[32..64].try_into().unwrap()).collect();
        let want: BTreeSet<[u8; 32]> = self.has.keys().copied().collect();
        ensure!(log == want, "{what}: {} packets are stored that should not be, {} are missing", log.difference(&want).count(), want.difference(&log).count());
        Ok(())
    }
}
fn model_key(t: &str) -> Vec<u8> {
    use base64::prelude::*;
    BASE64_URL_SAFE_NO_PAD.decode(t.trim_start_matches("[b:").trim_end_matches(']')).unwrap_or_default()
}
fn exchange(c: &Ex, o: &mut Obs) -> Res {
    // the points there are, most of them of the group, some seen before elsewhere
    let mut pks: Vec<Pk> = vec![];
    for (i, p) in c.ps.iter().enumerate() {
        let mut m = p.m();
        if m.kind == Kind::Error {
            continue;
        }
        m.h = crate::m1::head0();
        m.h.hop = [0, 0, 0, 2][(c.group as usize + i) % 4];
        if m.is_linked() && (c.group >> (i % 16)) & 3 != 3 {
            m.group = G;
        }
        let n = m.data.len();
        for (j, l) in m.links.iter_mut().enumerate() {
            if !pks.is_empty() && (n + j) % 4 != 0 {
                l.1 = pks[(n + 3 * j) % pks.len()].hash;
            }
        }
        pks.push(pk(m));
    }
    let mut by: BTreeMap<[u8; 32], usize> = BTreeMap::new();
    for (i, p) in pks.iter().enumerate() {
        by.entry(p.hash).or_insert(i);
    }
    let (mut cl, mut sv) = (Side::new()?, Side::new()?);
    let (ck, sk) = (format!("[b:{}]", b64(&model::pubkey(0))), format!("[b:{}]", b64(&model::pubkey(1))));
    let g = format!("[b:{}]", b64(&G));
    for which in ["rxlog", "txlog"] {
        for (s, k) in [(&mut cl, &sk), (&mut sv, &ck)] {
            s.run(&["link", "--create", "[u64:0]", &format!(":[#:0]:/{which}/{k}"), "--write", "db"], &[])?;
            for w in s.log()? {
                s.has.entry(w[32..64].try_into().unwrap()).or_insert(true);
            }
        }
    }
    let private = |h: &[u8; 32]| by.get(h).is_some_and(|i| pks[*i].m.is_linked() && pks[*i].m.group == [0; 32]);
    let (mut sent, mut got, mut asked) = (0, 0, 0);
    // when each came to the client, for what is new since the last time
    let mut since: BTreeSet<[u8; 32]> = BTreeSet::new();
    // requests are points of the group too
    let mut reqs: BTreeSet<[u8; 32]> = BTreeSet::new();
    for (n, r) in c.rounds.iter().enumerate() {
        for (s, sel, at_client) in [(&mut cl, &r.client, true), (&mut sv, &r.server, false)] {
            let l: Vec<&Pk> = sel.iter().filter(|_| !pks.is_empty()).map(|i| &pks[*i as usize % pks.len()]).collect();
            s.run(&["--private", "--hop", "false", "save"], &stream(l.iter().copied()))?;
            for p in l {
                if let std::collections::btree_map::Entry::Vacant(e) = s.has.entry(p.hash) {
                    e.insert(p.m.h.hop == 0);
                    if at_client {
                        since.insert(p.hash);
                    }
                }
            }
        }
        if r.up {
            let what = format!("round {n}, sending");
            let last = cl.last("txlog", &sk)?;
            let new = cl.run(&["watch", "--db-only", "--bare", "--mode", "log-asc", "--", &format!("group:=:{g}"), "hop:=:[u32:0]", &format!("recv:>:[u64:{last}]")], &[])?;
            let want: Vec<&Pk> = since.iter().map(|h| &pks[by[h]]).filter(|p| p.m.is_linked() && p.m.group == G && cl.has[&p.hash]).collect();
            let l = split(&what, &new)?;
            let news: BTreeSet<&[u8]> = l.iter().map(|w| &w[32..64]).collect();
            ensure_eq!(news, want.iter().map(|p| &p.hash[..]).chain(reqs.iter().map(|h| &h[..])).collect(), "{what}: points since the last time ({last})");
            let with = cl.run(&["get-links", "skip"], &new)?;
            let all = cl.run(&["dedup"], &with)?;
            let mut set: BTreeSet<[u8; 32]> = want.iter().map(|p| p.hash).chain(reqs.iter().copied()).collect();
            for p in &want {
                set.extend(p.m.links.iter().map(|l| l.1).filter(|h| cl.has.contains_key(h) && !private(h)));
            }
            let out: Vec<[u8; 32]> = split(&what, &all)?.iter().map(|w| w[32..64].try_into().unwrap()).collect();
            ensure_eq!(out.iter().copied().collect::<BTreeSet<_>>(), set, "{what}: what is sent");
            // a link that is sent comes before the point with it
            for p in &want {
                let at = |h: &[u8; 32]| out.iter().position(|x| x == h);
                ensure!(p.m.links.iter().filter_map(|l| at(&l.1)).all(|l| l < at(&p.hash).unwrap() || want.iter().any(|w| w.hash == out[l])), "{what}: a linked packet comes late");
            }
            cl.run(&["--private", "collect", &format!(":[#:0]:/txlog/{sk}"), "--min-interval", "1m", "--forward", "null", "--write", "db"], &all)?;
            cl.noted(&what, "txlog", &sk, &split(&what, &all)?)?;
            sent += sv.receive(&what, &all, &ck)?;
            since.clear();
            reqs.clear();
        }
        if let (Some(q), false) = (&r.pull, pks.is_empty()) {
            let what = format!("round {n}, pulling");
            let p = &pks[q.base as usize % pks.len()].m;
            let comps = &p.comps[..p.comps.len().min(q.len as usize)];
            let dgs = format!("{}:{g}:{}:**", domain_text(&p.domain, q.base / 4), space_text(comps, q.base / 16));
            let qid = format!("--qid=ask{}", q.id);
            let mut args = vec!["pull", &qid];
            if q.follow {
                args.push("--follow");
            }
            if q.signed {
                args.push("--signed");
            }
            args.push(&dgs);
            cl.run(&args, &[])?;
            asked += 1;
            // requests are private, until they are put into the group, signed
            let mut asks = cl.run(&["--private", "watch", "--db-only", "--max", "1", "--mode", "log-desc", &format!("[f:exchange]:[#:0]:/pull/{g}:**")], &[])?;
            ensure_eq!(split(&what, &asks)?.len(), 1, "{what}: requests in the store");
            let key = key_args(0);
            let rw: Vec<&str> = ["--private", "rewrite", "--group", &g, "--write", "db", "--write", "stdout"].into_iter().chain(key.iter().map(|s| &**s)).chain(["sign-all"]).collect();
            asks = cl.run(&rw, &asks)?;
            let signed = split(&what, &asks)?;
            ensure_eq!(signed.len(), 1, "{what}: signed requests");
            for w in cl.log()? {
                cl.has.entry(w[32..64].try_into().unwrap()).or_insert(true);
            }
            ensure!(cl.has.contains_key(&signed[0][32..64]), "{what}: the request is not stored");
            reqs.insert(signed[0][32..64].try_into().unwrap());
            // at the server: new ones by this key
            sv.receive(&what, &asks, &ck)?;
            let req = sv.run(&["watch", "--db-only", "--max", "1", "--mode", "log-desc", &format!("[f:exchange]:{g}:/pull/{g}:**"), "--", &format!("pubkey:=:{ck}")], &[])?;
            ensure_eq!(split(&what, &req)?.iter().map(|w| point(w).to_vec()).collect::<Vec<_>>(), vec![point(&signed[0]).to_vec()], "{what}: the request at the server");
            let none = sv.run(&["watch", "--db-only", &format!("[f:exchange]:{g}:/pull/{g}:**"), "--", &format!("pubkey:=:{sk}")], &[])?;
            ensure!(none.is_empty(), "{what}: a request by another key");
            let ans = sv.run(&["multi-watch"], &req)?;
            let ans = sv.run(&["dedup"], &ans)?;
            let mut set = BTreeSet::new();
            let log = sv.log()?;
            for w in &log {
                let v = model::ref_read(w, false).map_err(|e| Fail::from(format!("{e:?}")))?;
                let below = v.ty & 2 != 0 && v.group == G && v.domain == p.domain && v.comps.starts_with(comps) && (!q.signed || v.signed.is_some());
                if below {
                    set.insert(w[32..64].to_vec());
                    if q.follow {
                        for l in &v.links {
                            if sv.has.contains_key(&l.1) && !log.iter().any(|w| w[32..64] == l.1 && model::ref_read(w, false).is_ok_and(|v| v.ty & 2 != 0 && v.group == [0; 32])) {
                                set.insert(l.1.to_vec());
                            }
                        }
                    }
                }
            }
            let out: Vec<Vec<u8>> = split(&what, &ans)?.iter().map(|w| w[32..64].to_vec()).collect();
            let name = |l: BTreeSet<Vec<u8>>| l.iter().map(|h| by.get(&h[..]).map_or(b64(h), |i| format!("{i}: {:?}", pks[*i].m))).collect::<Vec<_>>();
            ensure_eq!(name(out.into_iter().collect()), name(set), "{what}: the answer to {dgs}");
            got += cl.receive(&what, &ans, &sk)?;
        }
        cl.same(&format!("client after round {n}"))?;
        sv.same(&format!("server after round {n}"))?;
    }
    o.nontrivial(sent > 0 && got > 0);
    o.class_if(asked > 1, "several requests");
    o.class_if(sent > 0, "sent");
    o.class_if(got > 0, "pulled");
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property { id: "M15", rule: "points were new at the server, and others at the client", assumptions: SHIM, subs: vec![sub("exchange", 250, 8_000, ex, exchange)] }]
}
