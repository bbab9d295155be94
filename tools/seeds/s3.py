# bugs in the programs, and in what they use
CLI=PK+r'''
use std::io::{Read, Write};
use std::process::{Command, Stdio};
fn run(prog: &str, args: &[&str], input: &[u8]) -> (bool, Vec<u8>) {
    let t = std::env::temp_dir();
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name(prog))
        .args(args).env_clear().env("TMPDIR", &t).env("HOME", &t).env("LK_DIR", t.join("lk")).env("LMDB_STANDIN_DISK", "1").current_dir(&t)
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().unwrap();
    let mut i = c.stdin.take().unwrap();
    let inp = input.to_vec();
    let w = std::thread::spawn(move || { let _ = i.write_all(&inp); });
    let mut out = vec![];
    c.stdout.take().unwrap().read_to_end(&mut out).unwrap();
    let ok = c.wait().unwrap().success();
    w.join().unwrap();
    (ok, out)
}
fn good(prog: &str, args: &[&str], input: &[u8]) -> Vec<u8> {
    let (ok, out) = run(prog, args, input);
    assert!(ok, "{prog} {args:?}");
    out
}
fn pkts(mut b: &[u8]) -> Vec<NetPktBox> {
    let mut o = vec![];
    while !b.is_empty() {
        let p = read::read_pkt(b, false).unwrap().as_netbox();
        b = &b[p.as_netpkt_bytes().len()..];
        o.push(p);
    }
    o
}
fn cat(p: &[&NetPktBox]) -> Vec<u8> { p.iter().flat_map(|p| p.as_netpkt_bytes().to_vec()).collect() }
fn enckey(k: &SigningKey) -> String { linkspace_argon2_identity::encrypt(k, b"pw", Some(linkspace_argon2_identity::INSECURE_COST)) }
'''
seed("m06-signed-already","M06",[("cli/linkspace/src/rewrite.rs","                    SignMode::Skip => {\n","""                    // as it is, or as it would be
                    mode if *mode == SignMode::Skip
                        || *mode == SignMode::SignAll
                            && opts_keep(&ropts)
                            && key.identity(common, false)?.pubkey() == *pkt.get_pubkey() =>
                    {
"""),("cli/linkspace/src/rewrite.rs","                    SignMode::Resign | SignMode::SignAll => {\n","                    SignMode::Skip | SignMode::Resign | SignMode::SignAll => {\n"),("cli/linkspace/src/rewrite.rs","pub fn rewrite(common","""/// nothing of the point is to be changed
fn opts_keep(o: &Rewrite) -> bool {
    o.group.is_none() && o.domain.is_none() && o.space.is_none() && o.create.is_none()
}
pub fn rewrite(common""")],
 "sign-all with new data for a point already signed by the key, with no other change","the point is written with its old data",CLI+r'''
fn main(){
    let k = SigningKey::generate();
    let sp = rspace_buf(&[b"a"]);
    let p = keypoint([4; 32].into(), [1; 16].into(), &sp, &[], b"old", Stamp::new(7), &k, ()).as_netbox();
    let e = enckey(&k);
    let out = good("lk", &["rewrite", "--enckey", &e, "--password", "pw", "--interpret-data", "--data-str", "new", "--data-repeat", "sign-all"], p.as_netpkt_bytes());
    let l = pkts(&out);
    assert_eq!(l.len(), 1);
    assert_eq!(l[0].data(), b"new");
    assert!(l[0].get_pubkey() == p.get_pubkey());
}''',"cli")
seed("m07-chain-tail","M07",[("cli/linkspace/src/collect.rs","""            if !collector.links.is_empty() {
                collector.collect(common)?;
            }
            Ok(())
        }
        Some""","""            if collector.current_links > 0 {
                collector.collect(common)?;
            }
            Ok(())
        }
        Some""")],
 "a stream that ends just when a point was full, with chained points","the last point, which links the one before it, is missing",CLI+r'''
fn main(){
    let ps: Vec<NetPktBox> = (0..4u8).map(|i| datapoint(&[i], ()).as_netbox()).collect();
    for n in [3usize, 4] {
        let inp = cat(&ps[..n].iter().collect::<Vec<_>>());
        let out = good("lk", &["collect", "--max-links", "2", "--chain-tag", "prev", "--forward", "null", "--create-int", "5", "d:[#:pub]"], &inp);
        let l = pkts(&out);
        assert_eq!(l.iter().map(|p| p.get_links().len()).collect::<Vec<_>>(), if n == 3 { vec![2, 2] } else { vec![2, 3, 1] }, "{n} packets");
    }
}''',"cli")
seed("m08-watch-ids","M08",[("cli/linkspace/src/get_links.rs","        let qid = [&count_be as &[u8], &*link.ptr].concat();","        let qid = [&count_be as &[u8], &link.ptr[..1]].concat();")],
 "two packets with missing links at the same place, hashes starting alike, in watch mode","one of the links is not written when it arrives",CLI+r'''
fn main(){
    use std::time::*;
    // two points whose hashes start alike
    let mut seen: std::collections::BTreeMap<u8, NetPktBox> = Default::default();
    let mut two = None;
    for i in 0..2000u32 {
        let p = datapoint(&i.to_be_bytes(), ()).as_netbox();
        let f = p.hash().0[0];
        if let Some(o) = seen.get(&f) { two = Some((o.as_netbox(), p)); break }
        seen.insert(f, p);
    }
    let (a, b) = two.unwrap();
    good("lk", &["--init", "init"], &[]);
    let sp = rspace_buf(&[b"a"]);
    let la = point(&sp, &[Link::new("x", a.hash())], b"1", 5).as_netbox();
    let lb = point(&sp, &[Link::new("x", b.hash())], b"2", 6).as_netbox();
    let top = point(&sp, &[Link::new("x", la.hash()), Link::new("x", lb.hash())], b"3", 7).as_netbox();
    good("lk", &["save"], &cat(&[&la, &lb]));
    // the links of two packets, neither there
    let r = run("lk", &["get-links", "--forward", "null", "skip"], &cat(&[&la, &lb]));
    assert!(r.0 && r.1.is_empty());
    let r = run("lk", &["get-links", "--forward", "null", "-r", "1", "skip"], top.as_netpkt_bytes());
    assert_eq!(pkts(&r.1).len(), 2);
    let t = std::env::temp_dir();
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("lk"))
        .args(["get-links", "--forward", "null", "watch"]).env_clear().env("TMPDIR", &t).env("HOME", &t).env("LK_DIR", t.join("lk")).env("LMDB_STANDIN_DISK", "1").current_dir(&t)
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut i = c.stdin.take().unwrap();
    i.write_all(&cat(&[&la, &lb])).unwrap();
    drop(i);
    std::thread::sleep(Duration::from_millis(1500));
    good("lk", &["save"], &cat(&[&a, &b]));
    let mut o = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || { let mut b = vec![0; 400]; let mut n = 0; while let Ok(k) = o.read(&mut b[n..]) { if k == 0 { break } n += k } b.truncate(n); b });
    let start = Instant::now();
    while c.try_wait().unwrap().is_none() && start.elapsed() < Duration::from_secs(20) { std::thread::sleep(Duration::from_millis(20)); }
    let _ = c.kill();
    let _ = c.wait();
    assert_eq!(pkts(&h.join().unwrap()).len(), 2);
}''',"cli")
seed("m13-ls-ended","M13",[("common/src/protocols/lns/utils.rs","reader.query_tree(query_mode::Order::Desc, &preds).flat_map(","reader.query_tree(query_mode::Order::Desc, &preds).map_while(")],
 "a claim that has ended, listed before one that has not","the claims after it are not listed",CLI+r'''
fn main(){
    good("lk", &["--init", "init"], &[]);
    for (n, until) in [("a", "[now:+1D]"), ("b", "[u64:9]"), ("c", "[now:+1D]"), ("d:c", "[u64:9]"), ("e:c", "[now:+2D]")] {
        good("lns", &["create-claim", "--group", "[b:ISEhISEhISEhISEhISEhISEhISEhISEhISEhISEhISE]", "--until", until, "--write", "db", &format!("{n}:x")], &[]);
    }
    let out = String::from_utf8(good("lns", &["ls", "x"], &[])).unwrap();
    let mut names: Vec<&str> = out.lines().map(|l| l.split('\t').collect::<Vec<_>>()).filter(|l| l.len() == 4).map(|l| l[1]).collect();
    names.sort();
    assert_eq!(names, ["a:x", "c:x", "e:c:x"]);
}''',"cli")
seed("m13-long-authority","M13",[("common/src/protocols/lns/mod.rs","    anyhow::ensure!(rest.len() < 8);","    anyhow::ensure!(rest.len() <= 8);")],
 "an authority with a name of eight bytes, after another link","a claim whose tag holds a part of the name where the time belongs",CLI+r'''
fn main(){
    let h = "[b:ISEhISEhISEhISEhISEhISEhISEhISEhISEhISEhISE]";
    for (t, ok) in [("abcdefg", true), ("abcdefgh", false), ("abcdefghi", false)] {
        let (r, out) = run("lns", &["create-claim", "--group", h, "--auth", &format!("{t}:{h}"), "a:x"], &[]);
        assert_eq!((r, pkts(&out).len()), (ok, ok as usize), "{t}");
    }
}''',"cli")
seed("m14-slow-answer","M14",[("cli/handshake/src/main.rs","""                &Phase1(inp.next().context("Missing phase1")??),
                id,
                max_diff_secs,""","""                &Phase1(inp.next().context("Missing phase1")??),
                id,
                max_diff_secs.or(Some(120)),""")],
 "an answer of the server that is between 15 seconds and two minutes old, and no limit given","the client takes it",CLI+r'''
fn main(){
    use std::time::*;
    let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_micros() as u64;
    let (a, b) = (SigningKey::generate(), SigningKey::generate());
    let (ea, eb) = (enckey(&a), enckey(&b));
    let p0 = pkts(&good("handshake", &["--enckey", &ea, "--password", "pw", "phase0"], &[]));
    let p1 = pkts(&good("handshake", &["--enckey", &eb, "--password", "pw", "phase1"], p0[0].as_netpkt_bytes()));
    for (age, max, ok) in [(0u64, None, true), (40, None, false), (40, Some("90"), true), (100, Some("90"), false)] {
        let sp = p1[0].get_rooted_spacename();
        let q = keypoint(*p1[0].get_group(), *p1[0].get_domain(), sp, p1[0].get_links(), b"", Stamp::new(now - age * 1_000_000), &b, ()).as_netbox();
        let mut args = vec!["--enckey", &ea, "--password", "pw"];
        if let Some(m) = max { args.extend(["--max-diff-secs", m]); }
        args.push("phase2");
        let (r, out) = run("handshake", &args, &cat(&[&p0[0], &q]));
        assert_eq!((r, pkts(&out).len()), (ok, ok as usize), "{age} {max:?}");
    }
}''',"cli")
LNS=PK+r'''
use linkspace_core::prelude::*;
use linkspace_core::env::{lmdb::BTreeEnv, misc::SaveState};
use linkspace_common::protocols::lns::{self, admin::*, claim::Claim, name::Name};
use linkspace_common::runtime::Linkspace;
fn open(n: &str) -> BTreeEnv {
    std::env::set_var("LK_FORCE_EMPTY", "1");
    BTreeEnv::open(std::env::temp_dir().join(n), true).unwrap()
}
fn claim(e: &BTreeEnv, n: &[u8], links: &mut [Link]) -> Claim {
    let c = Claim::new(Name::from(&[n, b"local"]).unwrap(), Stamp::MAX, links, b"").unwrap();
    e.save_dyn_one(&c.pkt).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(1));
    c
}
fn entry(e: &BTreeEnv, tag: &[u8], ptr: [u8; 32], old: &[Link], add: (bool, Link)) -> Vec<Link> {
    let path = rspace_buf(&[b"by-tag", tag, &ptr]);
    let p = mut_ptrlookup_entry(old, &path, None, Some(add), None, now());
    e.save_dyn_one(&p).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(1));
    p.get_links().to_vec()
}
fn to(c: &Claim) -> Link { Link { tag: lns::stamp_tag(Stamp::MAX, [0; 8]), ptr: c.pkt.hash() } }
'''
seed("l05-any-tag","L05",[("common/src/protocols/lns/mod.rs","""    if by_name
        .links()
        .first_tailmask(tag)
        .map(|p| p.ptr == ptr)
        .unwrap_or(false)
    {""","""    if by_name.links().0.iter().any(|p| p.ptr == ptr) {""")],
 "a name whose newest claim links the value under another tag","the value is still said to be that of the name",LNS+r'''
fn main(){
    let e = open("l05");
    let g = [7u8; 32];
    let c = claim(&e, b"a", &mut [Link::new("group#", g)]);
    entry(&e, b"group#", g, &[], (true, to(&c)));
    let rt = Linkspace::new_opt_rt(e.clone(), Default::default());
    assert!(lns::reverse_lookup(&rt, b"group#", g.into()).into_ok().unwrap().is_some());
    claim(&e, b"a", &mut [Link::new("group#", [8u8; 32]), Link::new("pubkey@", g)]);
    let rt = Linkspace::new_opt_rt(e.clone(), Default::default());
    assert!(!matches!(lns::reverse_lookup(&rt, b"group#", g.into()).into_ok(), Ok(Some(_))));
}''',"lk")
seed("l05-last-first","L05",[("common/src/protocols/lns/admin.rs","pre.into_iter().chain(lks).chain(post.into_iter()).collect()","pre.into_iter().chain(post.into_iter()).chain(lks).collect()")],
 "a claim added after others for the same value","it comes before them",LNS+r'''
fn main(){
    let e = open("l05");
    let g = [7u8; 32];
    let a = claim(&e, b"a", &mut [Link::new("group#", g)]);
    let b = claim(&e, b"b", &mut [Link::new("group#", g)]);
    let l = entry(&e, b"group#", g, &[], (false, to(&a)));
    entry(&e, b"group#", g, &l, (false, to(&b)));
    let rt = Linkspace::new_opt_rt(e.clone(), Default::default());
    let c = lns::reverse_lookup(&rt, b"group#", g.into()).into_ok().unwrap().unwrap();
    assert_eq!(c.name.to_string(), "a:local");
}''',"lk")
