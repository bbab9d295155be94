# bugs in the packets, the store, the runtime and its protocols
PK='''#![allow(unused)]
use linkspace_pkt::*;
fn point<'a>(sp: &'a RootedSpace, links: &'a [Link], data: &'a [u8], at: u64) -> NetPktParts<'a> {
    linkpoint([4; 32].into(), [1; 16].into(), sp, links, data, Stamp::new(at), ())
}
'''
CO=PK+'''
use linkspace_core::prelude::*;
use linkspace_core::env::{lmdb::BTreeEnv, misc::SaveState};
fn open(n: &str) -> BTreeEnv {
    std::env::set_var("LK_FORCE_EMPTY", "1");
    BTreeEnv::open(std::env::temp_dir().join(n), true).unwrap()
}
fn query(s: &[&str]) -> Query {
    let mut q = Query::default();
    for s in s { q.parse(s.as_bytes(), &abe::scope::basic_scope()).unwrap(); }
    q
}
'''
seed("k04-pad-first","K04",[("pkt/src/point_ptr.rs","if !padding.iter().all(|o| *o == 255) {","if padding.first().is_some_and(|o| *o != 255) {")],
 "received bytes whose padding starts right and ends wrong, with the hash of just those bytes","bytes that are no packet are read as one",PK+r'''
fn main(){
    let mut seen = 0;
    for d in [&b""[..], b"a", b"ab", b"abc", b"abcd", b"abcde", b"abcdef", b"abcdefg"] {
        let p = datapoint(d, ()).as_netbox();
        let pad = p.padding().len();
        let good = p.as_netpkt_bytes().to_vec();
        for i in 1..=pad {
            let mut b = good.clone();
            let at = b.len() - i;
            b[at] = 1;
            let h = blake3::hash(&b[64..]);
            b[32..64].copy_from_slice(h.as_bytes());
            seen += 1;
            assert!(read::read_pkt(&b, false).is_err(), "padding byte {i} from the end of {pad}");
        }
    }
    assert!(seen > 6);
}''',"pkt")
seed("k06-index-low","K06",[("pkt/src/rooted_space.rs","if idx[i as usize + 1] as usize != ptr {","if idx[i as usize + 1] as usize > ptr {")],
 "bytes of a rooted space with an index entry below the end of its component","an index that disagrees with the space is accepted",PK+r'''
fn main(){
    let sp = rspace_buf(&[b"hello", b"world"]);
    let b = sp.rooted_bytes().to_vec();
    assert!(RootedSpace::from(&b).is_ok());
    for i in 1..8 {
        for v in 0..=13u8 {
            let mut c = b.clone();
            c[i] = v;
            assert_eq!(RootedSpace::from(&c).is_ok(), v == b[i], "index {i} is {v}");
        }
    }
}''',"pkt")
seed("k05-prepend-size","K05",[("pkt/src/space.rs","        if self.inner_bytes.len() + p.inner_bytes.len() > MAX_SPACENAME_SIZE {","        if self.inner_bytes.len() + p.inner_bytes.len() > MAX_ROOTED_SPACENAME_SIZE {")],
 "a prefix put before a space, together between the size limits of plain and of rooted spaces","a space too large to be used is made",PK+r'''
fn main(){
    let one = |n: usize| SpaceBuf::new().push(vec![7u8; n]);
    for n in 1..=75 {
        let r = one(180).try_prepend(&one(n));
        assert_eq!(r.is_ok(), 181 + n + 1 <= MAX_SPACENAME_SIZE, "{n}");
        assert_eq!(one(180).try_append(&one(n)).is_ok(), r.is_ok(), "{n}");
    }
}''',"pkt")
seed("k08-default-header","K08",[("pkt/src/netpkt/reroute.rs","        v._net_header = self.net_header;","        if self.net_header != NetPktHeader::default() {\n            v._net_header = self.net_header;\n        }")],
 "a packet with a header of its own, rerouted back to the default header and copied","the copy keeps the header it came with",PK+r'''
fn main(){
    let h = NetPktHeader { hop: 5u32.into(), ..NetPktHeader::EMPTY };
    let b = datapoint(b"x", h).as_netbox();
    for to in [h, NetPktHeader::EMPTY, NetPktHeader { hop: 9u32.into(), ..NetPktHeader::EMPTY }] {
        let mut r = reroute::ReroutePkt::new(&*b);
        r.net_header = to;
        assert_eq!(r.as_netbox().net_header(), to);
        assert_eq!(r.as_netarc().net_header(), to);
    }
}''',"pkt")
seed("k09-hash-first","K09",[("pkt/src/netpkt/tree_order.rs","    create: Stamp,\n    hash: LkHash,\n    logptr: Stamp,\n    links_len: U16,\n    data_size: U16,\n}\nimpl TreeValue","    hash: LkHash,\n    create: Stamp,\n    logptr: Stamp,\n    links_len: U16,\n    data_size: U16,\n}\nimpl TreeValue")],
 "two packets of the same group, domain, space and key, made at different times","they are ordered by hash in place of by time",PK+r'''
fn main(){
    let sp = rspace_buf(&[b"a"]);
    let mut v: Vec<_> = (0..40u64).map(|i| linkspace_pkt::cmp::PktCmp(point(&sp, &[], b"", i * 7 % 40).as_netbox())).collect();
    v.sort();
    let at: Vec<u64> = v.iter().map(|p| p.0.get_create_stamp().get()).collect();
    assert_eq!(at, (0..40).collect::<Vec<_>>());
}''',"pkt")
seed("k13-sub-wide","K13",[("pkt/src/stamp.rs","""pub fn checked_stamp_sub(stamp: Stamp, dur: Duration) -> Option<Stamp> {
    let sub = dur.as_micros().min(u64::MAX.into());
    let sub = unsafe { u64::try_from(sub).unwrap_unchecked() };""","""pub fn checked_stamp_sub(stamp: Stamp, dur: Duration) -> Option<Stamp> {
    let sub = dur.as_micros() as u64;""")],
 "a duration just above 2^64 microseconds","subtracting it gives a stamp in place of nothing",PK+r'''
fn main(){
    use std::time::Duration;
    let d = Duration::new(18446744073709, 551_617_000);
    assert_eq!(checked_stamp_sub(Stamp::new(5), d), None);
    assert_eq!(stamp_sub(Stamp::new(5), d), Stamp::ZERO);
    assert_eq!(checked_stamp_sub(Stamp::new(5), Duration::from_micros(2)), Some(Stamp::new(3)));
}''',"pkt")
seed("d10-tree-links","D10",[("core/src/env/lmdb/queries.rs","                    && links_len.test(next_item.links_len().into())\n","")],
 "a query of the tree index for a number of links","packets with another number of links are given too",CO+r'''
fn main(){
    let e = open("d10");
    let sp = rspace_buf(&[b"a"]);
    let l = [Link::new("a", [7u8; 32]), Link::new("b", [8u8; 32])];
    for n in 0..3 { e.save_dyn_one(&point(&sp, &l[..n], b"", n as u64 + 1)).unwrap(); }
    for n in 0..3usize {
        let q = query(&[&format!("links_len:=:[u16:{n}]")]);
        let t = e.new_read_txn().unwrap();
        let got: Vec<usize> = t.query_tree(query_mode::Order::Asc, &q.predicates).map(|p| p.get_links().len()).collect();
        assert_eq!(got, [n]);
    }
}''',"core")
seed("d07-batch-tree","D07",[("core/src/env/lmdb/save.rs","""                    assert!(val.len() == std::mem::size_of::<TreeValueBytes>());
                }
                at += 1;
            }""","""                    assert!(val.len() == std::mem::size_of::<TreeValueBytes>());
                    at += 1;
                }
            }""")],
 "a data point saved in one batch before a point with a space","the tree index leads to another packet of the log",CO+r'''
fn main(){
    let e = open("d07");
    let sp = rspace_buf(&[b"a"]);
    let (a, b, c) = (point(&sp, &[], b"1", 1).as_netbox(), datapoint(b"2", ()).as_netbox(), point(&sp, &[], b"3", 3).as_netbox());
    let mut l: Vec<(&NetPktPtr, SaveState)> = [&a, &b, &c].map(|p| (p.thin_netpkt(), SaveState::Pending)).to_vec();
    e.save_ptr(&mut l).unwrap();
    let t = e.new_read_txn().unwrap();
    let q = query(&[]);
    let got: Vec<_> = t.query_tree(query_mode::Order::Asc, &q.predicates).map(|p| p.hash()).collect();
    assert_eq!(got, [a.hash(), c.hash()]);
}''',"core")
seed("d15-recv-end","D15",[("core/src/matcher/mod.rs","        if self.recv_bounds.high < pkt.get_recv().get() {","        if self.recv_bounds.high <= pkt.get_recv().get() {")],
 "a packet received in the last microsecond a watch accepts","the watch ends without it",CO+r'''
fn main(){
    use linkspace_core::matcher::WatchEntry;
    let at = 4_000_000_000_000_000u64;
    for d in 0..3u64 {
        let q = query(&[&format!("recv:<:[u64:{}]", at + 1)]);
        let mut w = WatchEntry::new(b"w".to_vec(), q, 0, (), tracing::Span::none()).unwrap();
        let p = datapoint(b"x", ());
        let (ok, end) = w.test_dyn(&reroute::RecvPkt { recv: Stamp::new(at + d), pkt: &p });
        assert_eq!((ok, end.is_break()), (d == 0, d > 0), "{d} after the last");
    }
}''',"core")
seed("d15-last-of-all","D15",[("core/src/matcher/mod.rs","self.nth_query > self.i_query.bound.high {","self.nth_query >= self.i_query.bound.high.max(1) {")],
 "a query for at most two or more results","its watch ends one packet early",CO+r'''
fn main(){
    use linkspace_core::matcher::WatchEntry;
    for n in 1..5u32 {
        let q = query(&[&format!("i:<:[u32:{n}]")]);
        let mut w = WatchEntry::new(b"w".to_vec(), q, 0, (), tracing::Span::none()).unwrap();
        let p = datapoint(b"x", ());
        let mut got = 0;
        for _ in 0..10 {
            let (ok, end) = w.test_dyn(&p);
            got += ok as u32;
            if end.is_break() { break; }
        }
        assert_eq!(got, n);
    }
}''',"core")
seed("d18-greater-equal","D18",[("core/src/partial_hash.rs","        t > ok\n","        t >= ok\n")],
 "a partial hash that the text of the hash starts with","a partial hash is said to be greater than a hash it stands for",CO+r'''
fn main(){
    use linkspace_core::partial_hash::PartialHash;
    let h = B64([0x5a; 32]);
    for n in 4..43 {
        let p = PartialHash::try_from(&h.b64()[..n]).unwrap();
        assert!(p.str_matches(&h) && !p.str_greater_then(&h));
        assert!(p.str_greater_then(&B64([0; 32])) && !p.str_greater_then(&B64([0xff; 32])));
    }
}''',"core")
seed("l06-path-first","L06",[("core/src/env/lmdb/mod.rs","        .find(|v| !matches!(v, std::path::Component::Normal(_)))","        .next()\n        .filter(|v| !matches!(v, std::path::Component::Normal(_)))")],
 "a path that starts with a plain name and leaves it again","paths outside of the file directory are let through",CO+r'''
fn main(){
    use linkspace_core::env::lmdb::check_path;
    use std::path::Path;
    assert!(check_path(Path::new("a/b")).is_ok());
    for p in ["../a", "/a", "a/../../b", "a/b/../c"] { assert!(check_path(Path::new(p)).is_err(), "{p}"); }
}''',"core")
HS=PK+'''
use linkspace_common::protocols::{handshake::*, unicast_group};
use linkspace_common::prelude::*;
fn key(i: u8) -> SigningKey { let mut k = [i; 32]; k[0] = 1; SigningKey::try_from(k).unwrap() }
fn sent(p: &NetPktBox) -> NetPktBox { let mut p = p.clone(); p.net_header_mut().unwrap().hop = 1u32.into(); p }
'''
seed("l08-future","L08",[("common/src/protocols/handshake.rs","""        Err(d) => ensure!(
            d < dur,
            "check your clocks - packet is too new {d:?} >= {dur:?}"
        ),""","""        Err(d) => ensure!(
            d.as_secs() as u32 as u64 <= dur.as_secs(),
            "check your clocks - packet is too new {d:?} >= {dur:?}"
        ),""")],
 "a first message dated between 15 and 16 seconds (or 2^32 seconds) ahead","a message too far from the clock is accepted",HS+r'''
fn main(){
    let now = now().get();
    for (ahead, ok) in [(1_000_000, true), (12_000_000, true), (15_600_000, false), (40_000_000, false), ((1u64 << 32) * 1_000_000 + 2_000_000, false)] {
        assert_eq!(valid_stamp_range(Stamp::new(now + ahead), None).is_ok(), ok, "{ahead}");
    }
}''',"lk")
seed("l08-switched","L08",[("common/src/protocols/handshake.rs","""            ensure!(theirs.pubkey() == their_init.0.pubkey(), "switched keys");
""","""            ensure!(their_init.0.pubkey().is_some(), "switched keys");
""")],
 "a last message signed by a key other than the one that asked, in the group of that key","the handshake ends with a key that did not start it",HS+r'''
fn main(){
    let (a, b, s) = (linkspace_cryptography::public_testkey(), linkspace_cryptography::SigningKey::generate(), linkspace_cryptography::SigningKey::generate());
    let init = phase0_client_init(&a);
    let p1 = phase1_server_signs(&Phase0(sent(&init.0)), &s, None).unwrap();
    let g = unicast_group(b.pubkey(), s.pubkey());
    let links = [Link::new("signed", p1.0.hash())];
    let p = keypoint(g, HANDSHAKE_D, &ID_SENTINAL_SPACENAME, &links, &[], now(), &b, ()).as_netbox();
    let r = phase3_server_verify(&init, &p1, &Phase2(sent(&p)), &s);
    assert!(r.is_err());
    let (p2, k) = phase2_client_signs(&init, &Phase1(sent(&p1.0)), &a, None).unwrap();
    assert!(k == s.pubkey());
    assert!(phase3_server_verify(&init, &p1, &Phase2(sent(&p2.0)), &s).unwrap() == a.pubkey());
}'''.replace("fn key","fn _key"),"lk")
seed("l03-hop-unchecked","L03",[("common/src/pkt_reader.rs","        if self.hop {\n","        if self.hop && !self.skip_hash {\n")],
 "a stream read without checking hashes, with hops counted","the hop count stays as it was",PK+r'''
fn main(){
    for skip in [false, true] { for hop in [false, true] {
        let p = datapoint(b"hello", ()).as_netbox();
        let mut d = linkspace_common::pkt_reader::NetPktDecoder::new(p.as_netpkt_bytes());
        d.skip_hash = skip;
        d.hop = hop;
        let q = d.next().unwrap().unwrap();
        assert_eq!(q.net_header().hop.get(), hop as u32);
        assert_eq!(q.hash(), p.hash());
    }}
}''',"lk")
seed("l01-follow-missing","L01",[("common/src/runtime/handlers.rs","""                e => tracing::debug!(?origin_pkt, ?link, ?e, "cant follow pkt"),
""","""                e => {
                    tracing::debug!(?origin_pkt, ?link, ?e, "cant follow pkt");
                    break;
                }
""")],
 "a followed packet whose first link is not stored and a later one is","the later link is not followed",CO+r'''
fn main(){
    use linkspace_common::runtime::Linkspace;
    let e = open("l01");
    let rt = Linkspace::new_opt_rt(e.clone(), Default::default());
    let d = datapoint(b"there", ()).as_netbox();
    e.save_dyn_one(&d).unwrap();
    let sp = rspace_buf(&[b"a"]);
    let links = [Link::new("a", [9u8; 32]), Link::new("b", d.hash())];
    let p = point(&sp, &links, b"", 5).as_netbox();
    e.save_dyn_one(&p).unwrap();
    rt.process();
    let got = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let g = got.clone();
    let q = query(&[":qid:w", ":follow", &format!("hash:=:[b:{}]", p.hash().b64())]);
    rt.watch_query(&q, move |p: &dyn NetPkt, _: &Linkspace| -> std::ops::ControlFlow<()> { g.borrow_mut().push(p.hash()); std::ops::ControlFlow::Continue(()) }, tracing::Span::none()).unwrap();
    assert_eq!(*got.borrow(), [p.hash(), d.hash()]);
}''',"lk")
