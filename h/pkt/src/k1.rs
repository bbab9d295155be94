//! K01 packets and their representations, K02 size limits, K03 identity, K04 reading untrusted bytes
use crate::model::*;
use crate::mser;
use fw::*;
use linkspace_pkt as lp;
use lp::read::read_pkt;
use lp::reroute::{RecvPkt, ReroutePkt, ShareArcPkt};
use lp::{NetPkt, NetPktArc, NetPktBox, NetPktExt, NetPktFatPtr, Point, PointExt, PointFields};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::de::value::BorrowedBytesDeserializer;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;

/// a copy of `b` that starts `off` bytes after an 8 byte boundary, followed by `extra`
pub struct Placed {
    mem: Vec<u64>,
    off: usize,
    len: usize,
}
impl Placed {
    pub fn new(b: &[u8], off: usize, extra: &[u8]) -> Placed {
        let len = b.len() + extra.len();
        let mut p = Placed { mem: vec![0; (len + off) / 8 + 2], off, len };
        let s = unsafe { std::slice::from_raw_parts_mut(p.mem.as_mut_ptr() as *mut u8, p.mem.len() * 8) };
        s[off..off + b.len()].copy_from_slice(b);
        s[off + b.len()..off + len].copy_from_slice(extra);
        p
    }
    pub fn get(&self) -> &[u8] {
        let s = unsafe { std::slice::from_raw_parts(self.mem.as_ptr() as *const u8, self.mem.len() * 8) };
        &s[self.off..self.off + self.len]
    }
}

/// what every representation of the packet must show
pub fn shows(m: &M, wire: &[u8], name: &str, p: &dyn NetPkt) -> Res {
    let bytes = p.byte_segments().to_bytes();
    ensure!(bytes[..] == *wire, "{name}: bytes differ: {}", diff(&bytes, wire));
    let b2: Vec<u8> = p.byte_segments().collect();
    ensure!(b2 == wire, "{name}: iterated bytes differ: {}", diff(&b2, wire));
    ensure_eq!(p.byte_segments().len(), wire.len(), "{name}: number of bytes");
    let mut w = vec![];
    p.byte_segments().write_into(&mut w).map_err(|e| format!("{name}: write_into: {e}"))?;
    ensure!(w == wire, "{name}: written bytes differ: {}", diff(&w, wire));
    ensure!(p.as_point().pkt_segments().to_bytes()[..] == wire[64..], "{name}: point bytes differ");
    ensure_eq!(p.size() as usize, wire.len(), "{name}: size");
    ensure_eq!(p.hash().0[..], wire[32..64], "{name}: hash");
    ensure_eq!(p.hash_ref().0[..], wire[32..64], "{name}: hash_ref");
    ensure_eq!(p.as_point().compute_hash().0[..], wire[32..64], "{name}: compute_hash");
    let h = p.net_header();
    ensure_eq!(h.cinto(), m.h.bytes(), "{name}: net header");
    ensure_eq!(*p.net_header_ref().as_bytes(), m.h.bytes(), "{name}: net header");
    let pt = p.as_point();
    ensure_eq!(pt.data(), &m.data[..], "{name}: data");
    ensure_eq!(pt.padding().len(), (8 - m.size_fields() % 8) % 8, "{name}: padding");
    ensure!(pt.padding().iter().all(|b| *b == 255), "{name}: padding {:?}", pt.padding());
    let ph = pt.point_header();
    ensure_eq!((ph.reserved, ph.uset_bytes.get() as usize), (0, m.size_fields()), "{name}: point header");
    ensure_eq!(ph.size() as usize, wire.len(), "{name}: header size");
    let linked = m.is_linked();
    let keyed = matches!(m.kind, Kind::Key(_));
    ensure_eq!((pt.is_datapoint(), pt.is_linkpoint(), pt.is_keypoint()), (m.kind == Kind::Data, m.kind == Kind::Link, keyed), "{name}: type");
    ensure_eq!(pt.group().map(|g| g.0), linked.then_some(m.group), "{name}: group");
    ensure_eq!(pt.get_group().0, m.group, "{name}: get_group");
    ensure_eq!(pt.domain().map(|g| g.0), linked.then_some(m.domain), "{name}: domain");
    ensure_eq!(pt.get_domain().0, m.domain, "{name}: get_domain");
    ensure_eq!(pt.create_stamp().map(|g| g.get()), linked.then_some(m.stamp), "{name}: create stamp");
    ensure_eq!(pt.get_create_stamp().get(), m.stamp, "{name}: get_create_stamp");
    let l = m.real_links();
    ensure_eq!(pt.links(), linked.then_some(&l[..]), "{name}: links");
    ensure_eq!(pt.get_links(), &l[..], "{name}: get_links");
    ensure_eq!(pt.spacename().map(|s| s.space_bytes().to_vec()), linked.then(|| space_bytes(&m.comps)), "{name}: space name");
    ensure_eq!(pt.get_rooted_spacename().rooted_bytes(), &rooted_bytes(&m.comps)[..], "{name}: rooted space name");
    ensure_eq!((*pt.get_depth() as usize, pt.depth().is_some()), (m.comps.len(), linked), "{name}: depth");
    let cs: Vec<&[u8]> = pt.get_rooted_spacename().iter().collect();
    ensure_eq!(cs, m.comps, "{name}: components");
    ensure_eq!(pt.get_spacename().space_bytes(), &space_bytes(&m.comps)[..], "{name}: get_spacename");
    ensure_eq!(pt.rooted_spacename().is_some(), linked, "{name}: has a rooted space name");
    ensure_eq!(pt.get_data_str().ok(), std::str::from_utf8(&m.data).ok(), "{name}: data as text");
    ensure_eq!(pt.select().0, &l[..], "{name}: links to select from");
    let key = match m.kind {
        Kind::Key(k) => Some(pubkey(k)),
        _ => None,
    };
    ensure_eq!(pt.pubkey().map(|v| v.0), key, "{name}: public key");
    ensure_eq!(pt.get_pubkey().0, key.unwrap_or([0; 32]), "{name}: get_pubkey");
    ensure_eq!(pt.signature().map(|s| s.0.to_vec()), keyed.then(|| wire[wire.len() - 64..].to_vec()), "{name}: signature");
    let parts = pt.parts();
    ensure_eq!(parts.data(), &m.data[..], "{name}: parts data");
    let same = match (m.kind, parts.fields) {
        (Kind::Data, PointFields::DataPoint(d)) | (Kind::Error, PointFields::Error(d)) => d == m.data,
        (Kind::Link, PointFields::LinkPoint(lp)) => lp.tail.data == m.data && lp.tail.links == l && lp.head.group.0 == m.group,
        (Kind::Key(k), PointFields::KeyPoint(lp, s)) => lp.tail.data == m.data && lp.tail.links == l && s.pubkey.0 == pubkey(k),
        _ => false,
    };
    ensure!(same, "{name}: parts {:?}", parts.fields);
    ensure_eq!(pt.check_private().is_err(), linked && m.group == [0; 32], "{name}: check_private");
    Ok(())
}
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {at}", a.len(), b.len())
}
/// Every representation a packet can take, each handed to `f`.
pub fn reps(p: &lp::NetPktParts, f: &mut dyn FnMut(&str, &dyn NetPkt) -> Res) -> Res {
    f("parts", p)?;
    let b = p.as_netbox();
    f("box", &b)?;
    f("thin box", b.thin_netpkt())?;
    f("box of box", &b.as_netbox())?;
    f("box clone", &b.clone())?;
    let a = p.as_netarc();
    f("arc", &a)?;
    f("arc pointer", a.thin_arc())?;
    f("arc of box", &b.as_netarc())?;
    f("box of arc", &a.as_netbox())?;
    f("arc of thin", &b.thin_netpkt().as_netarc())?;
    f("parts of box", &b.as_netparts())?;
    f("parts of arc", &a.as_netparts())?;
    // reference counts and raw pointers
    ensure_eq!(a.refcount(), 1, "count of a new arc");
    let a2 = a.as_netarc();
    let a3 = a.thin_arc().as_netarc();
    ensure_eq!((a.refcount(), a2.refcount(), a3.refcount()), (3, 3, 3), "count of a shared arc");
    f("shared arc", &a3)?;
    drop(a2);
    let raw = a3.into_raw_arc();
    ensure_eq!(a.refcount(), 2, "count with a raw arc");
    f("raw arc", unsafe { &*raw })?;
    let a3 = unsafe { NetPktArc::from_raw_arc(raw) };
    ensure_eq!(a3.refcount(), 2, "count of an arc from raw");
    f("arc from raw", &a3)?;
    drop(a);
    ensure_eq!(a3.refcount(), 1, "count after drop");
    f("last arc", &a3)?;
    let raw = NetPktFatPtr::into_raw_box(b.clone());
    f("raw box", unsafe { &*raw })?;
    let rb = unsafe { NetPktFatPtr::from_raw_box(raw) };
    f("box from raw", &rb)?;
    // wrappers
    f("reroute of box", &ReroutePkt::new(&b))?;
    f("reroute of parts", &ReroutePkt::new(*p))?;
    f("reroute of arc", &ReroutePkt::new(a3.clone()))?;
    f("box of reroute of parts", &ReroutePkt::new(*p).as_netbox())?;
    f("arc of reroute of parts", &ReroutePkt::new(*p).as_netarc())?;
    f("reroute of reroute of parts", &ReroutePkt::new(ReroutePkt::new(*p)))?;
    f("reroute of thin", &b.reroute(p.net_header()))?;
    let r = RecvPkt { recv: 5u64.into(), pkt: *p };
    f("recv", &r)?;
    f("box of recv", &r.as_netbox())?;
    f("arc of recv", &r.as_netarc())?;
    f("owned recv", &r.owned())?;
    // only what was received knows when
    for (n, q) in [("parts", p as &dyn NetPkt), ("box", &b), ("arc", &a3), ("thin", b.thin_netpkt()), ("box of recv", &r.as_netbox()), ("reroute of box", &ReroutePkt::new(&b))] {
        ensure_eq!(q.recv(), None, "{n}: received at");
    }
    for (n, q) in [("recv", &r as &dyn NetPkt), ("owned recv", &r.owned()), ("reroute of recv", &ReroutePkt::new(r))] {
        ensure_eq!(q.recv(), Some(5u64.into()), "{n}: received at");
        ensure_eq!(q.get_recv(), 5u64.into(), "{n}: received at");
    }
    let s = ShareArcPkt::new(&b);
    f("share", &s)?;
    f("arc of share", &s.as_netarc())?;
    f("borrowed arc of share", s.borrow_arc())?;
    ensure!(std::ptr::eq(s.borrow_arc(), s.as_netarc().thin_arc()), "a shared packet makes one arc");
    f("from dyn", &NetPktBox::from(&b as &dyn NetPkt))?;
    f("from dyn", &NetPktArc::from(&a3 as &dyn NetPkt))?;
    // serde
    let mserv = |v: Result<mser::Val, mser::E>| match v {
        Ok(mser::Val::Bytes(b)) => Ok(b),
        v => Err(format!("serialised as {v:?}")),
    };
    for v in [mserv((*b).serialize(mser::Ser))?, mserv(a3.serialize(mser::Ser))?, mserv(b.thin_netpkt().serialize(mser::Ser))?] {
        let d = NetPktBox::deserialize(BorrowedBytesDeserializer::<mser::E>::new(&v)).map_err(|e| format!("deserialise box: {e}"))?;
        f("deserialised box", &d)?;
        let d = NetPktArc::deserialize(BorrowedBytesDeserializer::<mser::E>::new(&v)).map_err(|e| format!("deserialise arc: {e}"))?;
        f("deserialised arc", &d)?;
    }
    Ok(())
}
fn reread(wire: &[u8], off: usize, extra: &[u8], f: &mut dyn FnMut(&str, &dyn NetPkt) -> Res) -> Res {
    for skip in [true, false] {
        let pl = Placed::new(wire, off, extra);
        let c = read_pkt(pl.get(), skip).map_err(|e| format!("reading it back (offset {off}, {} more bytes): {e:?}", extra.len()))?;
        ensure_eq!(matches!(c, Cow::Borrowed(_)), off % 8 == 0, "borrowed at offset {off}");
        f("read", c.as_ref())?;
        f("box of read", &c.as_netbox())?;
        f("arc of read", &c.as_netarc())?;
        f("owned read", &c.into_owned())?;
    }
    Ok(())
}
/// the wire bytes the built packet must have; a signature is whatever the packet carries, if it is a valid one
fn expected(m: &M, got: &[u8]) -> Result<Vec<u8>, Fail> {
    let Kind::Key(k) = m.kind else { return Ok(m.wire()) };
    let mut p = m.unsigned();
    let n = got.len();
    ensure!(n >= 64 + 160, "key point of {n} bytes");
    let sig = &got[n - 64..];
    ensure_eq!(got[n - 96..n - 64], pubkey(k)[..], "public key in the packet");
    ensure!(verifies(&pubkey(k), sig, blake3::hash(&p).as_bytes()), "the signature of a built key point does not verify");
    p.extend(pubkey(k));
    p.extend(sig);
    let mut o = m.h.bytes().to_vec();
    o.extend(blake3::hash(&p).as_bytes());
    o.extend(p);
    Ok(o)
}
fn k01_case(m: &M, off: usize, extra: &[u8], o: &mut Obs) -> Res {
    let r = m.with(|p| {
        let got = p.byte_segments().to_bytes();
        let wire = expected(m, &got)?;
        ensure!(got[..] == wire[..], "built bytes: {}", diff(&got, &wire));
        let mut n = 0;
        let mut f = |name: &str, p: &dyn NetPkt| {
            n += 1;
            shows(m, &wire, name, p)
        };
        reps(&p, &mut f)?;
        reread(&wire, 0, &[], &mut f)?;
        reread(&wire, off, extra, &mut f)?;
        // and a packet written by the model
        let w2 = m.wire();
        reread(&w2, off, extra, &mut |name, p| shows(m, &w2, name, p))
    });
    obs(m, o);
    r.map_err(|e| format!("building {e:?}"))?
}
fn k01() -> Property {
    Property {
        id: "K01",
        rule: "a link or key point with components or links, or more than 8 data bytes",
        assumptions: &["the fork of triomphe that backs NetPktArc is replaced by a stand-in with the same layout (the original cannot be fetched)"],
        subs: vec![
            sub("build", 20_000, 200_000, || (small(), 0usize..16, vec(byte(), 0..20)), |(m, off, extra), o| k01_case(m, *off, extra, o)),
            sub("near-limit", 600, 4000, || (edge(), 0usize..8), |((m, over), off), o| {
                let mut m = m.clone();
                if *over > 0 {
                    m.data.truncate(m.data.len().saturating_sub(*over as usize));
                }
                if !m.fits() {
                    return Ok(());
                }
                k01_case(&m, *off, &[], o)
            }),
            sub("memory", 3_000, 30_000, || (small(), 0usize..16), |(m, off), o| {
                // every form of the packet is given back to the heap as it was taken from it
                let run = || m.with(|p| -> Res {
                    let wire = p.byte_segments().to_bytes();
                    reps(&p, &mut |_, _| Ok(()))?;
                    reread(&wire, *off, &[], &mut |_, q| { let _ = (q.as_netbox(), q.as_netarc()); Ok(()) })
                });
                run().map_err(|e| format!("building {e:?}"))??;
                let before = fw::heap();
                run().map_err(|e| format!("building {e:?}"))??;
                let after = fw::heap();
                ensure_eq!((after.0 - before.0, after.1 - before.1), (0, 0), "bytes and alignments taken and not given back");
                obs(m, o);
                Ok(())
            }),
            sub("header-defaults", 300, 5000, || (header(), any::<u8>(), n64(), data()), |(h, f, s, d), _o| {
                // the thread default applies to packets built without options
                lp::DEFAULT_ROUTING_BITS.set(h.real());
                let a = lp::datapoint(d, ()).net_header();
                let fl = lp::NetFlags::from_bits_retain(f & FLAGS);
                let b = lp::datapoint(d, fl).net_header();
                let c = lp::datapoint(d, lp::NetOpts::Stamp((*s).into())).net_header();
                lp::DEFAULT_ROUTING_BITS.set(lp::NetPktHeader::EMPTY);
                ensure_eq!(a.cinto(), h.bytes(), "default header");
                ensure_eq!(b.cinto(), H { flags: f & FLAGS, ..*h }.bytes(), "default header with flags");
                let e = H { prefix: *b"LK1", flags: 0, hop: 0, stamp: *s, ubits: [0; 4] };
                ensure_eq!(c.cinto(), e.bytes(), "empty header with stamp");
                ensure_eq!(lp::datapoint(d, ()).net_header().cinto(), H { stamp: u64::MAX, ..e }.bytes(), "header after reset");
                Ok(())
            }),
        ],
    }
}
// ------------------------------------------------------------------ K02
fn k02_case((m, _over): &(M, i64), o: &mut Obs) -> Res {
    let fits = m.fits();
    if m.kind == Kind::Error && !fits {
        // building an error point has no failing form
        return Ok(());
    }
    let got = no_panic(|| m.with(|p| p.byte_segments().len())).map_err(|e| format!("building {} bytes panics: {e}", m.size_fields()))?;
    match (&got, fits) {
        (Ok(n), true) => ensure_eq!(*n, 64 + (m.size_fields() + 7) / 8 * 8, "size of the packet"),
        (Err(lp::Error::ContentLen), false) => {}
        (r, _) => return Err(format!("building a point of {} bytes (limit {MAX_POINT}): {r:?}", m.size_fields()).into()),
    }
    if m.is_linked() {
        let sp = lp::SpaceBuf::try_from_iter(&m.comps).map_err(|e| format!("{e:?}"))?;
        let l = m.real_links();
        let signed = matches!(m.kind, Kind::Key(_));
        let free = no_panic(|| lp::calc_free_space(&sp, &l, &m.data, signed))?;
        ensure_eq!(free, MAX_POINT as isize - m.size_fields() as isize, "free space (signed {signed}, {} links, {} space bytes, {} data bytes)", l.len(), sp.size(), m.data.len());
    }
    o.class_if(!fits, "too large");
    o.class_if(m.size_fields() == MAX_POINT, "exactly the limit");
    o.class_if(m.size_fields() == MAX_POINT + 1, "one too many");
    obs(m, o);
    o.nontrivial((m.size_fields() as i64 - MAX_POINT as i64).abs() < 64);
    Ok(())
}
fn k02() -> Property {
    Property {
        id: "K02",
        rule: "a point within 64 bytes of the size limit",
        assumptions: &[],
        subs: vec![
            sub("edge", 15_000, 100_000, edge, k02_case),
            sub("any", 20_000, 100_000, || (small(), Just(0i64)), k02_case),
            sub("huge", 600, 2000, || (small(), proptest::sample::select(vec![66_000usize, 131_072, 200_000]), any::<bool>()), |(m, n, in_links), o| {
                let mut m = m.clone();
                if m.is_linked() && *in_links {
                    m.links = vec![([1; 16], [2; 32]); n / 48 + 1];
                } else {
                    m.data = vec![7; *n];
                }
                k02_case(&(m, 0), o)
            }),
        ],
    }
}
// ------------------------------------------------------------------ K03
#[derive(Clone, Debug)]
pub enum Change {
    Header(H),
    Group(u8),
    Domain(u8),
    Stamp(u8),
    Data(u16, u8),
    Push(u8),
    Pop,
    LinkAdd,
    LinkTag(u16, u8),
    LinkPtr(u16, u8),
    LinkSwap(u16),
    Comp(u16, u8),
    CompAdd,
    CompDrop,
    Kind(Kind),
    Shift,
}
fn change() -> BoxedStrategy<Change> {
    use Change::*;
    prop_oneof![
        3 => header().prop_map(Header),
        1 => any::<u8>().prop_map(Group),
        1 => any::<u8>().prop_map(Domain),
        1 => any::<u8>().prop_map(Stamp),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Data(a, b)),
        1 => any::<u8>().prop_map(Push),
        1 => Just(Pop),
        1 => Just(LinkAdd),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| LinkTag(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| LinkPtr(a, b)),
        1 => any::<u16>().prop_map(LinkSwap),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Comp(a, b)),
        1 => Just(CompAdd),
        1 => Just(CompDrop),
        1 => kind().prop_map(Kind),
        1 => Just(Shift),
    ]
    .boxed()
}
fn apply(m: &M, c: &Change) -> M {
    let mut m = m.clone();
    let bit = |b: &mut [u8], i: u8| {
        let n = b.len();
        if n > 0 {
            b[i as usize / 8 % n] ^= 1 << (i % 8)
        }
    };
    match c {
        Change::Header(h) => m.h = *h,
        Change::Group(i) => bit(&mut m.group, *i),
        Change::Domain(i) => bit(&mut m.domain, *i),
        Change::Stamp(i) => m.stamp ^= 1 << (i % 64),
        Change::Data(i, b) => {
            let n = m.data.len();
            if n > 0 {
                m.data[*i as usize % n] ^= b | 1
            }
        }
        // bytes that look like padding
        Change::Push(b) => m.data.push(if b % 2 == 0 { 255 } else { *b }),
        Change::Pop => {
            m.data.pop();
        }
        Change::LinkAdd => m.links.push(([1; 16], [2; 32])),
        Change::LinkTag(i, b) => {
            let n = m.links.len().max(1);
            if let Some(l) = m.links.get_mut(*i as usize % n) {
                bit(&mut l.0, *b)
            }
        }
        Change::LinkPtr(i, b) => {
            let n = m.links.len().max(1);
            if let Some(l) = m.links.get_mut(*i as usize % n) {
                bit(&mut l.1, *b)
            }
        }
        Change::LinkSwap(i) => {
            let n = m.links.len();
            if n > 1 {
                m.links.swap(*i as usize % n, (*i as usize + 1) % n)
            }
        }
        Change::Comp(i, b) => {
            let n = m.comps.len().max(1);
            if let Some(l) = m.comps.get_mut(*i as usize % n) {
                bit(l, *b)
            }
        }
        Change::CompAdd => m.comps.push(vec![1]),
        Change::CompDrop => {
            m.comps.pop();
        }
        Change::Kind(k) => m.kind = *k,
        Change::Shift => {
            // move the first data byte into the last component: the bytes stay, the boundary moves
            if let (Some(l), Some(b)) = (m.comps.last_mut(), m.data.first().copied()) {
                l.push(b);
                m.data.remove(0);
            }
        }
    }
    norm(m)
}
fn k03_case((m, cs): &(M, Vec<Change>), o: &mut Obs) -> Res {
    let build = |m: &M| m.with(|p| (p.hash(), p.as_netbox(), p.compute_hash()));
    let (h, b, ch) = build(m).map_err(|e| format!("{e:?}"))?;
    ensure_eq!(h, ch, "the hash a packet carries");
    let want = blake3::hash(&b.as_netpkt_bytes()[64..]);
    ensure_eq!(h.0[..], want.as_bytes()[..], "hash of the point bytes");
    let mut last = m.clone();
    for c in cs {
        let m2 = apply(&last, c);
        if !valid_comps(&m2.comps) || !m2.fits() {
            continue;
        }
        let (h2, b2, _) = build(&m2).map_err(|e| format!("{e:?}"))?;
        let same = M { h: m.h, ..m2.clone() } == *m;
        ensure_eq!(h2 == h, same, "same hash after {c:?}");
        ensure_eq!(lp::cmp::PktCmp(&b) == lp::cmp::PktCmp(&b2), same, "same packet after {c:?}");
        ensure_eq!(b2.as_netpkt_bytes()[..32] == b.as_netpkt_bytes()[..32], m2.h == m.h, "same header after {c:?}");
        if let Kind::Key(k) = m2.kind {
            // the signature covers exactly the unsigned part
            let bytes = b2.as_netpkt_bytes();
            let n = bytes.len();
            ensure!(verifies(&pubkey(k), &bytes[n - 64..], blake3::hash(&m2.unsigned()).as_bytes()), "the signature does not cover the point");
            ensure!(b2.check_signature().is_ok(), "own signature refused");
        }
        o.class_if(same, "header only");
        o.class_if(!same, "other point");
        o.nontrivial(m2 != *m);
        last = m2;
    }
    Ok(())
}
fn k03() -> Property {
    Property {
        id: "K03",
        rule: "at least one field was changed",
        assumptions: &["the blake3 and k256 crates compute BLAKE3 and BIP-340"],
        subs: vec![sub("changes", 40_000, 200_000, || (small(), vec(change(), 1..4)), k03_case)],
    }
}
// ------------------------------------------------------------------ K04
/// edits of wire bytes
#[derive(Clone, Debug)]
pub enum Edit {
    Flip(u16, u8),
    Set(u16, u8),
    Uset(i32),
    UsetTo(u16),
    RspaceOff(i32),
    DataOff(i32),
    Type(u8),
    Reserved(u8),
    Depth(u8),
    Index(u8, u8),
    CompLen(u16, u8),
    Pad(u8, u8),
    Cut(u16),
    CutTo(u16),
    Extend(Vec<u8>),
    Sig(u16, u8),
    Hash(u16, u8),
    Head(u8, u8),
}
fn edit() -> BoxedStrategy<Edit> {
    use Edit::*;
    let small = prop_oneof![-9i32..=9, (-3i32..=3).prop_map(|v| v * 48), -300i32..300];
    prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Flip(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Set(a, b)),
        3 => small.clone().prop_map(Uset),
        2 => prop_oneof![0u16..20, 55u16..70, 150u16..170, 65000u16..=65535].prop_map(UsetTo),
        2 => small.clone().prop_map(RspaceOff),
        2 => small.prop_map(DataOff),
        2 => prop_oneof![any::<u8>(), proptest::sample::select(vec![1u8, 3, 7, 0x80, 0, 2, 4, 5, 6, 0x81])].prop_map(Type),
        1 => any::<u8>().prop_map(Reserved),
        2 => prop_oneof![0u8..12, any::<u8>()].prop_map(Depth),
        2 => (0u8..7, prop_oneof![0u8..12, any::<u8>()]).prop_map(|(a, b)| Index(a, b)),
        2 => (any::<u16>(), prop_oneof![Just(0u8), any::<u8>(), 195u8..210]).prop_map(|(a, b)| CompLen(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Pad(a, b)),
        1 => (0u16..40).prop_map(Cut),
        1 => any::<u16>().prop_map(CutTo),
        1 => vec(byte(), 1..20).prop_map(Extend),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Sig(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Hash(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Head(a, b)),
    ]
    .boxed()
}
fn get16(b: &[u8], at: usize) -> i32 {
    b.get(at..at + 2).map_or(0, |v| u16::from_be_bytes([v[0], v[1]]) as i32)
}
fn put16(b: &mut [u8], at: usize, v: i32) {
    if let Some(s) = b.get_mut(at..at + 2) {
        s.copy_from_slice(&(v.clamp(0, 65535) as u16).to_be_bytes())
    }
}
fn edited(b: &mut Vec<u8>, e: &Edit, m: &M) {
    let n = b.len().max(1);
    let rs = 64 + get16(b, 68) as usize;
    let set = |b: &mut Vec<u8>, at: usize, v: u8| {
        if let Some(x) = b.get_mut(at) {
            *x = v
        }
    };
    match e {
        Edit::Flip(i, k) => {
            let at = *i as usize % n;
            let v = b.get(at).copied().unwrap_or(0) ^ (1 << (k % 8));
            set(b, at, v)
        }
        Edit::Set(i, v) => set(b, *i as usize % n, *v),
        Edit::Uset(d) => {
            let v = get16(b, 66) + d;
            put16(b, 66, v)
        }
        Edit::UsetTo(v) => put16(b, 66, *v as i32),
        Edit::RspaceOff(d) => {
            let v = get16(b, 68) + d;
            put16(b, 68, v)
        }
        Edit::DataOff(d) => {
            let v = get16(b, 70) + d;
            put16(b, 70, v)
        }
        Edit::Type(t) => set(b, 65, *t),
        Edit::Reserved(t) => set(b, 64, *t),
        Edit::Depth(d) => set(b, rs, *d),
        Edit::Index(i, d) => set(b, rs + 1 + *i as usize % 7, *d),
        Edit::CompLen(i, v) => {
            let mut at = rs + 8;
            if !m.comps.is_empty() {
                for c in &m.comps[..*i as usize % m.comps.len()] {
                    at += c.len() + 1
                }
            }
            set(b, at, *v)
        }
        Edit::Pad(i, v) => {
            let sig = if b.get(65) == Some(&7) { 96 } else { 0 };
            let at = n.saturating_sub(sig + 1 + *i as usize % 8);
            set(b, at, *v)
        }
        Edit::Cut(k) => b.truncate(n.saturating_sub(*k as usize)),
        Edit::CutTo(k) => b.truncate(*k as usize % n),
        Edit::Extend(v) => b.extend(v),
        Edit::Sig(i, k) => {
            let at = n.saturating_sub(1 + *i as usize % 96);
            let v = b.get(at).copied().unwrap_or(0) ^ (1 << (k % 8));
            set(b, at, v)
        }
        Edit::Hash(i, k) => {
            let at = 32 + *i as usize % 32;
            let v = b.get(at).copied().unwrap_or(0) ^ (1 << (k % 8));
            set(b, at, v)
        }
        Edit::Head(i, v) => set(b, *i as usize % 32, *v),
    }
}
/// make the hash (and the signature) fit again, so that only the structure can be wrong
fn rehash(b: &mut [u8], sign: bool) {
    if b.len() < HEAD {
        return;
    }
    let uset = get16(b, 66) as usize;
    let size = 64 + (uset + 7) / 8 * 8;
    if size > b.len() || size < HEAD {
        return;
    }
    if sign && b[65] == 7 && size >= 64 + 96 {
        use k256::schnorr::signature::hazmat::PrehashSigner;
        let h = blake3::hash(&b[64..size - 96]);
        let s: k256::schnorr::Signature = key(0).0.sign_prehash(h.as_bytes()).unwrap();
        b[size - 96..size - 64].copy_from_slice(&pubkey(0));
        b[size - 64..size].copy_from_slice(&s.to_bytes());
    }
    let h = blake3::hash(&b[64..size]);
    b[32..64].copy_from_slice(h.as_bytes());
}
pub fn k04_bytes(b: &[u8], off: usize, o: &mut Obs) -> Res {
    let pl = Placed::new(b, off, &[]);
    for skip in [false, true] {
        let want = ref_read(b, skip);
        let got = no_panic(|| read_pkt(pl.get(), skip)).map_err(|e| format!("reading (skip hash check {skip}) panics: {e}; the reference says {want:?}"))?;
        match (&want, &got) {
            (Ok(v), Ok(p)) => {
                ensure!(p.as_netpkt_bytes() == &b[..v.size], "read bytes differ");
                let r = no_panic(|| view_is(v, b, p.as_ref())).map_err(|e| format!("looking at an accepted packet panics: {e}"))?;
                r?;
                o.class(if skip { "accepted (hash unchecked)" } else { "accepted" });
            }
            (Err(w), Err(e)) => {
                let need = match w {
                    Bad::Short => Some(HEAD),
                    Bad::Missing(n) => Some(*n),
                    Bad::Point(_) => None,
                };
                ensure_eq!(e.clone().requires_more(), need, "bytes required after {e:?}");
                o.class(match w {
                    Bad::Short => "too short",
                    Bad::Missing(_) => "incomplete",
                    Bad::Point("padding") => "padding refused",
                    Bad::Point("space") => "space refused",
                    Bad::Point("offsets") => "offsets refused",
                    Bad::Point("length") => "length refused",
                    Bad::Point("hash") => "hash refused",
                    Bad::Point("signature") => "signature refused",
                    Bad::Point(_) => "header refused",
                });
                o.nontrivial(matches!(w, Bad::Point(_)));
            }
            (w, g) => return Err(format!("reading (skip hash check {skip}): {:?}, the reference says {w:?}", g.as_ref().map(|_| "accepted")).into()),
        }
        // through serde as well
        if !skip {
            let d = no_panic(|| NetPktBox::deserialize(BorrowedBytesDeserializer::<mser::E>::new(pl.get())).is_ok())?;
            ensure_eq!(d, want.is_ok(), "deserialising");
        }
    }
    Ok(())
}
fn view_is(v: &View, b: &[u8], p: &lp::NetPktPtr) -> Res {
    point_is(v, b, p.as_point())?;
    // the same bytes as a slice of known length
    let sized = &p.as_sized().pkt;
    point_is(v, b, sized)?;
    point_is(v, b, sized.thin_point())?;
    point_is(v, b, sized.thin_point().as_sized())?;
    ensure_eq!(std::mem::size_of_val(sized), v.point.len(), "size of the sized point");
    ensure_eq!(std::mem::size_of_val(sized.thin_point().as_sized()), v.point.len(), "size of the sized point");
    ensure!(sized.internal_consitent_length().is_ok(), "consistent");
    let _ = format!("{:?}{:?}{}", p, sized.thin_point(), lp::PktFmt(p));
    Ok(())
}
fn point_is<P: Point + ?Sized>(v: &View, b: &[u8], pt: &P) -> Res {
    ensure_eq!(pt.point_header().point_type.bits(), v.ty, "type");
    ensure_eq!(pt.data(), &b[v.data.clone()], "data");
    ensure_eq!(pt.padding(), &b[v.pad.clone()], "padding");
    let l: Vec<_> = pt.get_links().iter().map(|l| (l.tag.0, l.ptr.0)).collect();
    ensure_eq!(l, v.links, "links");
    ensure_eq!((pt.get_group().0, pt.get_domain().0, pt.get_create_stamp().get()), (v.group, v.domain, v.stamp), "fields");
    let cs: Vec<Vec<u8>> = pt.get_spacename().iter().map(|c| c.to_vec()).collect();
    ensure_eq!(cs, v.comps, "components");
    ensure_eq!(*pt.get_depth() as usize, v.comps.len(), "depth");
    let cs: Vec<Vec<u8>> = pt.get_rooted_spacename().iter().map(|c| c.to_vec()).collect();
    ensure_eq!(cs, v.comps, "rooted components");
    ensure_eq!(pt.signed().is_some(), v.signed.is_some(), "signed");
    if let Some(s) = &v.signed {
        ensure_eq!(pt.get_pubkey().0[..], b[s.start..s.start + 32], "public key");
        ensure_eq!(pt.get_signature().0[..], b[s.start + 32..s.end], "signature");
    }
    ensure!(pt.pkt_segments().to_bytes()[..] == b[v.point.clone()], "bytes of the point");
    let parts = pt.parts();
    ensure!(parts.pkt_segments().to_bytes()[..] == b[v.point.clone()], "bytes of the parts");
    Ok(())
}
fn k04_edit((m, es, fix, sign, off): &(M, Vec<Edit>, bool, bool, usize), o: &mut Obs) -> Res {
    let mut b = m.wire();
    for e in es {
        edited(&mut b, e, m);
    }
    if *fix {
        rehash(&mut b, *sign);
    }
    k04_bytes(&b, *off, o)
}
/// a packet assembled from raw fields that need not fit each other
#[derive(Clone, Debug)]
pub struct Raw {
    ty: u8,
    uset: i32,
    so: i32,
    dof: i32,
    links: usize,
    space: Vec<u8>,
    data: Vec<u8>,
    pad: u8,
    fix: bool,
}
fn rooted_soup() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => comps().prop_map(|c| rooted_bytes(&c)),
        3 => (comps(), any::<u8>(), 0usize..260).prop_map(|(c, v, at)| { let mut b = rooted_bytes(&c); let n = b.len(); if n > 0 { b[at % n] = v } b }),
        3 => (comps(), prop_oneof![0u8..12, any::<u8>()], 0usize..8).prop_map(|(c, v, at)| { let mut b = rooted_bytes(&c); if !b.is_empty() { b[at] = v } b }),
        1 => vec(prop_oneof![0u8..4, any::<u8>()], 0..40),
        1 => (vec(vec(1u8..3, 1..3), 9..14)).prop_map(|c| rooted_bytes(&c)),
        1 => (0usize..20).prop_map(|n| vec![0; n]),
        1 => (comps(), vec(any::<u8>(), 1..4)).prop_map(|(c, v)| { let mut b = rooted_bytes(&c); b.extend(v); b }),
        1 => (vec(any::<u8>(), 1..=200), vec(any::<u8>(), 40..=200)).prop_map(|(a, b)| rooted_bytes(&[a, b])),
    ]
    .boxed()
}
fn raw() -> BoxedStrategy<Raw> {
    (
        proptest::sample::select(vec![1u8, 3, 3, 3, 7, 7, 0x80]),
        prop_oneof![5 => Just(0), 1 => -12i32..12],
        prop_oneof![5 => Just(0), 1 => -50i32..50],
        prop_oneof![5 => Just(0), 1 => -50i32..50],
        0usize..4,
        rooted_soup(),
        prop_oneof![Just(vec![]), vec(any::<u8>(), 0..20)],
        prop_oneof![6 => Just(255u8), 1 => any::<u8>()],
        proptest::bool::weighted(0.8),
    )
        .prop_map(|(ty, uset, so, dof, links, space, data, pad, fix)| Raw { ty, uset, so, dof, links, space, data, pad, fix })
        .boxed()
}
fn raw_bytes(r: &Raw) -> Vec<u8> {
    let mut p = vec![0, r.ty, 0, 0];
    if r.ty & 2 != 0 {
        let so = 64 + 48 * r.links as i32;
        p.extend(((so + r.so).clamp(0, 65535) as u16).to_be_bytes());
        p.extend(((so + r.space.len() as i32 + r.dof).clamp(0, 65535) as u16).to_be_bytes());
        p.extend([9; 56]);
        for i in 0..r.links {
            p.extend([i as u8; 48]);
        }
        p.extend(&r.space);
    }
    p.extend(&r.data);
    let sig = if r.ty == 7 { 96 } else { 0 };
    let uset = (p.len() as i32 + sig + r.uset).clamp(0, 65535);
    p[2..4].copy_from_slice(&(uset as u16).to_be_bytes());
    while p.len() % 8 != 0 {
        p.push(r.pad)
    }
    p.extend(vec![3; sig as usize]);
    let mut b = [[7; 32], [0; 32]].concat();
    b.extend(p);
    if r.fix {
        rehash(&mut b, true)
    }
    b
}
/// a packet arriving in pieces: the length the reader asks for always suffices
fn k04_stream((m, step, off): &(M, Vec<u16>, usize), o: &mut Obs) -> Res {
    let w = m.wire();
    let mut have = 0usize;
    let mut steps = step.iter().cycle();
    let mut rounds = 0;
    loop {
        let pl = Placed::new(&w[..have], *off, &[]);
        match read_pkt(pl.get(), false) {
            Ok(p) => {
                ensure_eq!(have, w.len(), "accepted a prefix of the packet");
                ensure!(p.as_netpkt_bytes() == w, "bytes");
                break;
            }
            Err(e) => {
                ensure!(have < w.len(), "refused the whole packet: {e:?}");
                let n = e.clone().requires_more().ok_or_else(|| format!("{have} of {} bytes are refused for good: {e:?}", w.len()))?;
                ensure!(n > have && n <= w.len(), "asks for {n} bytes having {have} of {}", w.len());
                let want = if have < HEAD { HEAD } else { w.len() };
                ensure_eq!(n, want, "bytes asked for having {have}");
                have = (have + 1 + *steps.next().unwrap() as usize).min(n);
            }
        }
        rounds += 1;
    }
    o.nontrivial(rounds > 2);
    obs(m, o);
    Ok(())
}
fn k04() -> Property {
    Property {
        id: "K04",
        rule: "the bytes are refused for their content rather than for being incomplete, or arrived in more than two pieces",
        assumptions: &[],
        subs: vec![
            sub("edited", 100_000, 1_000_000, || (small(), vec(edit(), 0..4), proptest::bool::weighted(0.7), any::<bool>(), 0usize..8), k04_edit),
            sub("assembled", 100_000, 1_000_000, || (raw(), 0usize..8), |(r, off), o| k04_bytes(&raw_bytes(r), *off, o)),
            sub("noise", 60_000, 400_000, || (vec(any::<u8>(), 0..64), proptest::sample::select(vec![1u8, 3, 7, 0x80]), 0u16..260, vec(any::<u8>(), 0..260), 0usize..8), |(h, t, n, r, off), o| {
                let mut b = h.clone();
                if h.len() > 40 {
                    b.resize(64, 0);
                    b.extend([0, *t]);
                    b.extend(n.to_be_bytes());
                    b.extend(r);
                }
                k04_bytes(&b, *off, o)
            }),
            sub("pieces", 15_000, 100_000, || (small(), vec(0u16..200, 1..5), 0usize..8), k04_stream),
            sub("large", 1500, 5000, || (edge(), vec(edit(), 0..2), any::<bool>()), |((m, _), es, fix), o| {
                if !m.fits() {
                    return Ok(());
                }
                k04_edit(&(m.clone(), es.clone(), *fix, false, 0), o)
            }),
        ],
    }
}
pub fn props() -> Vec<Property> {
    vec![k01(), k02(), k03(), k04()]
}
