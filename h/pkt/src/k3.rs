//! K08 net header, K09 tree order, K10 fields, K11 links, K12 formatted packets, K13 stamps
use crate::k1::reps;
use crate::model::*;
use crate::refabe::{b64url, cut0, esc, mini, ref_slice_idx};
use abe::scope::basic_scope;
use fw::*;
use linkspace_pkt as lp;
use linkspace_pkt::abe;
use lp::cmp::PktCmp;
use lp::read::read_pkt;
use lp::reroute::{RecvPkt, ReroutePkt};
use lp::tree_order::{TreeEntry, TreeEntryRef, TreeKey};
use lp::abe::ToABE;
use lp::*;
use proptest::collection::vec;
use proptest::prelude::*;
use std::hash::Hash as _;
use std::hash::Hasher as _;
use std::time::Duration;

fn hdr() -> BoxedStrategy<H> {
    (header(), any::<u8>(), any::<bool>()).prop_map(|(h, f, k)| if k { h } else { H { flags: f, ..h } }).boxed()
}
fn list(t: &str) -> Result<Vec<(Option<char>, Vec<u8>)>, Fail> {
    let a = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| format!("parse {t:?}: {e:?}"))?;
    let l = abe::eval::eval(&basic_scope(), &a).map_err(|e| format!("eval {t:?}: {e:?}"))?;
    Ok(l.unwrap()
        .into_iter()
        .map(|(c, b)| {
            (
                c.map(|c| match c {
                    abe::ast::Ctr::Colon => ':',
                    abe::ast::Ctr::FSlash => '/',
                    _ => '\n',
                }),
                b,
            )
        })
        .collect())
}
fn one(t: &str) -> Result<Vec<u8>, Fail> {
    let l = list(t)?;
    match &l[..] {
        [] => Ok(vec![]),
        [(None, b)] => Ok(b.clone()),
        l => Err(format!("{t:?} is the list {l:?}").into()),
    }
}
// ------------------------------------------------------------------ K08
const ALL: [FieldEnum; 29] = FieldEnum::LIST;
fn route_at(f: FieldEnum) -> Option<std::ops::Range<usize>> {
    Some(match f {
        FieldEnum::VarNetFlagsF => 3..4,
        FieldEnum::VarHopF => 4..8,
        FieldEnum::VarStampF => 8..16,
        FieldEnum::VarUBits0F => 16..20,
        FieldEnum::VarUBits1F => 20..24,
        FieldEnum::VarUBits2F => 24..28,
        FieldEnum::VarUBits3F => 28..32,
        _ => return None,
    })
}
fn k08_head((h, raw, a, b): &(H, [u8; 32], u8, u8), o: &mut Obs) -> Res {
    let r = h.real();
    let w = h.bytes();
    ensure_eq!(r.cinto(), w, "bytes of a header");
    ensure_eq!(*r.as_bytes(), w, "bytes of a header");
    ensure_eq!(*r.flags_u8(), h.flags, "flags");
    for raw in [*raw, w] {
        let c = NetPktHeader::cfrom(raw);
        ensure_eq!(c.cinto(), raw, "from bytes");
        ensure_eq!(NetPktHeader::from(B64(raw)).cinto(), raw, "from b64");
        ensure_eq!(B64::<[u8; 32]>::from(c).0, raw, "into b64");
        let (hop, st) = (c.hop, c.stamp);
        ensure_eq!((c.prefix.0, c.flags.bits(), hop.0, st.0), (raw[..3].try_into().unwrap(), raw[3], raw[4..8].try_into().unwrap(), raw[8..16].try_into().unwrap()), "fields from bytes");
        ensure!(c == NetPktHeader::cfrom(raw), "equality");
    }
    // one hop further
    let hop = r.hop();
    ensure_eq!(hop.cinto(), H { hop: h.hop.saturating_add(1), flags: h.flags & 0x7f, ..*h }.bytes(), "hop");
    let fl = |b: u8| NetFlags::from_bits_retain(b);
    ensure_eq!(r.with_flags(fl(*a)).cinto(), H { flags: *a, ..*h }.bytes(), "with_flags {a}");
    ensure_eq!(r.and_flags(fl(*a), fl(*b)).cinto(), H { flags: h.flags & !*a | *b, ..*h }.bytes(), "and_flags -{a} +{b}");
    let mut m = r;
    *m.mut_flags_u8() = *b;
    ensure_eq!(m.cinto(), H { flags: *b, ..*h }.bytes(), "mut_flags_u8");
    // as text
    let t = r.to_string();
    ensure_eq!(abe::print_abe(r.to_abe()), t.clone(), "to_abe");
    let l = list(&t)?;
    let mut want: Vec<(Option<char>, Vec<u8>)> = vec![(None, h.prefix.to_vec()), (Some(':'), vec![h.flags]), (Some(':'), h.hop.to_be_bytes().into()), (Some(':'), h.stamp.to_be_bytes().into())];
    want.extend(h.ubits.iter().map(|u| (Some(':'), u.to_be_bytes().to_vec())));
    // leading zeros of the prefix are not written
    let mut l2 = l.clone();
    if let Some(p) = l2.first_mut() {
        while p.1.len() < 3 {
            p.1.insert(0, 0)
        }
    }
    ensure_eq!(l2, want, "header as {t:?}");
    // one field at a time
    for f in ALL {
        let mut c = r;
        match (f.mut_route(&mut c), route_at(f)) {
            (Some(s), Some(at)) => {
                ensure_eq!(s, &w[at.clone()], "{f} of the header");
                for (i, b) in s.iter_mut().enumerate() {
                    *b = raw[i]
                }
                let mut want = w;
                want[at.clone()].copy_from_slice(&raw[..at.len()]);
                ensure_eq!(c.cinto(), want, "header with another {f}");
            }
            (None, None) => {}
            (g, w) => return Err(format!("mut_route of {f}: {g:?}, expected {w:?}").into()),
        }
    }
    o.nontrivial(w != [0; 32]);
    o.class_if(h.hop == u32::MAX, "most hops");
    o.class_if(h.flags & 0x80 != 0, "ALWAYS_ZERO set");
    Ok(())
}
fn k08_reroute((m, h, h2): &(M, H, H), o: &mut Obs) -> Res {
    let r = m.with(|p| {
        let orig = p.byte_segments().to_bytes();
        let mut want = orig.to_vec();
        want[..32].copy_from_slice(&h.bytes());
        let changed = |name: &str, q: &dyn NetPkt| -> Res {
            ensure!(q.byte_segments().to_bytes()[..] == want[..], "{name}: bytes after a new header: {}", crate::k1::diff(&q.byte_segments().to_bytes(), &want));
            ensure_eq!(q.net_header_ref().cinto(), h.bytes(), "{name}: header");
            ensure_eq!(q.hash(), p.hash(), "{name}: hash");
            ensure!(q.as_netbox().as_netpkt_bytes()[..] == want[..], "{name}: box");
            ensure!(q.as_netarc().byte_segments().to_bytes()[..] == want[..], "{name}: arc");
            let b = q.as_netbox();
            read_pkt(b.as_netpkt_bytes(), false).map_err(|e| format!("{name}: reading it back {e:?}"))?;
            Ok(())
        };
        reps(&p, &mut |name, q| {
            let mut a = ReroutePkt::new(q);
            ensure!(a.byte_segments().to_bytes() == orig, "{name}: rerouted without a change");
            *a.net_header_mut().ok_or("no header to change")? = h2.real();
            ensure_eq!(a.net_header_ref().cinto(), h2.bytes(), "{name}: header after a change");
            a.net_header = h.real();
            changed(name, &a)?;
            let mut b = ReroutePkt { net_header: h2.real(), pkt: a };
            b.net_header = h.real();
            changed(&format!("{name} twice"), &b)
        })?;
        let mut b = p.as_netbox();
        *b.net_header_mut().ok_or("a box has no header to change")? = h.real();
        changed("changed box", &b)?;
        let mut p2 = p;
        if let Some(x) = p2.net_header_mut() {
            *x = h.real();
            changed("changed parts", &p2)?;
        }
        changed("thin reroute", &p.as_netbox().reroute(h.real()))
    });
    obs(m, o);
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("building: {e:?}").into()),
    }
}
// ------------------------------------------------------------------ K09
type Key = ([u8; 32], [u8; 16], u8, Vec<u8>, [u8; 32], u64);
fn key_of(m: &M) -> Option<Key> {
    m.is_linked().then(|| {
        let k = if let Kind::Key(k) = m.kind { pubkey(k) } else { [0; 32] };
        (m.group, m.domain, m.comps.len() as u8, space_bytes(&m.comps), k, m.stamp)
    })
}
/// two packets that are likely to share the first parts of their index
fn related() -> BoxedStrategy<(M, M)> {
    (small(), small(), 0u8..8, any::<bool>())
        .prop_map(|(a, mut b, keep, k)| {
            if a.is_linked() && b.is_linked() {
                if keep > 0 { b.group = a.group }
                if keep > 1 { b.domain = a.domain }
                if keep > 2 {
                    let n = a.comps.len();
                    let mut c: Vec<_> = a.comps.iter().take(n.saturating_sub(1)).cloned().collect();
                    if let Some(x) = b.comps.last() { c.push(x.clone()) }
                    if valid_comps(&c) { b.comps = c }
                }
                if keep > 3 { b.comps = a.comps.clone() }
                if keep > 4 { b.kind = a.kind }
                if keep > 5 { b.stamp = a.stamp }
                if keep > 6 && k { b.links = a.links.clone(); b.data = a.data.clone() }
            }
            (a, b)
        })
        .boxed()
}
fn k09_pair((a, b): &(M, M), o: &mut Obs) -> Res {
    let r = a.with(|pa| {
        b.with(|pb| {
            let (ha, hb) = (pa.hash().0, pb.hash().0);
            let want = match (key_of(a), key_of(b)) {
                (Some(x), Some(y)) => (x, ha).cmp(&(y, hb)),
                (Some(_), None) => std::cmp::Ordering::Less,
                (None, Some(_)) => std::cmp::Ordering::Greater,
                (None, None) => ha.cmp(&hb),
            };
            ensure_eq!(PktCmp(&pa).cmp(&PktCmp(&pb)), want, "order of two packets");
            ensure_eq!(PktCmp(&pb).partial_cmp(&PktCmp(&pa)), Some(want.reverse()), "order of two packets, reversed");
            ensure_eq!(PktCmp(&pa) == PktCmp(&pb), ha == hb, "equality of two packets");
            ensure_eq!(PktCmp(&pa).cmp(&PktCmp(&pa)), std::cmp::Ordering::Equal, "a packet with itself");
            if let (Some(x), Some(y)) = (TreeEntry::from_pkt(0.into(), &pa), TreeEntry::from_pkt(0.into(), &pb)) {
                let w = (key_of(a).map(|k| (k.0, k.1, k.2, k.3, k.4)), key_of(b).map(|k| (k.0, k.1, k.2, k.3, k.4)));
                ensure_eq!(x.btree_key.cmp(&y.btree_key), w.0.cmp(&w.1), "order of the keys");
                ensure_eq!(x.btree_key.as_bytes().cmp(y.btree_key.as_bytes()), w.0.cmp(&w.1), "order of the key bytes");
            }
            let hh = |p: &dyn NetPkt| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                PktCmp(p).hash(&mut h);
                h.finish()
            };
            ensure_eq!(hh(&pa), hh(&pa.as_netbox()), "hash of the same packet");
            let (ka, kb) = (key_of(a), key_of(b));
            o.class(match (&ka, &kb) {
                (Some(x), Some(y)) => {
                    if x.0 != y.0 { "group decides" }
                    else if x.1 != y.1 { "domain decides" }
                    else if x.2 != y.2 { "depth decides" }
                    else if x.3 != y.3 { "space decides" }
                    else if x.4 != y.4 { "key decides" }
                    else if x.5 != y.5 { "create decides" }
                    else if ha != hb { "hash decides" }
                    else { "equal" }
                }
                (None, None) => "no index",
                _ => "one has an index",
            });
            o.nontrivial(ka.is_some() && kb.is_some() && ha != hb);
            Ok(())
        })
    });
    match r {
        Ok(Ok(r)) => r,
        e => Err(format!("building: {:?}", e.map(|_| ())).into()),
    }
}
fn k09_entry((m, log): &(M, u64), o: &mut Obs) -> Res {
    let r = m.with(|p| {
        let mut n = 0;
        reps(&p, &mut |name, q| {
            n += 1;
            let e = TreeEntry::from_pkt((*log).into(), q);
            let Some((g, d, depth, sp, k, stamp)) = key_of(m) else {
                ensure!(e.is_none(), "{name}: a point without a space has a tree entry");
                return Ok(());
            };
            let e = e.ok_or("no tree entry")?;
            let want: Vec<u8> = [&g[..], &d, &[depth], &sp, &k].concat();
            ensure_eq!(e.btree_key.as_bytes(), &want[..], "{name}: key bytes");
            let key = e.btree_key();
            let key2 = TreeKey::new(want.clone());
            let key3 = TreeKey::from(&want).ok_or("key not accepted")?;
            for key in [key, key2.as_ref(), key3.as_ref()] {
                ensure_eq!((key.group().0, key.domain().0, key.space_segments(), key.space().space_bytes(), key.pubkey().0), (g, d, depth, &sp[..], k), "{name}: key parts");
                let f = key.fields();
                ensure_eq!((f.0 .0, f.1 .0, f.2, f.3.space_bytes(), f.4 .0), (g, d, depth, &sp[..], k), "{name}: key fields");
                let (a, b) = key.space_and_key();
                ensure_eq!((a.space_bytes(), b.0), (&sp[..], k), "{name}: space and key");
                ensure_eq!(key.pop_key().0, &want[..want.len() - 32], "{name}: key without the public key");
            }
            let vals = |e: (LkHash, Stamp, Stamp, U16, U16)| (e.0 .0, e.1.get(), e.2.get(), e.3.get() as usize, e.4.get() as usize);
            let w = (p.hash().0, stamp, *log, m.links.len(), m.data.len());
            ensure_eq!(vals((e.hash(), e.create(), e.local_log_ptr(), e.links_len(), e.data_size())), w, "{name}: entry values");
            let stored = TreeEntryRef::from_db((&want, &e.val));
            ensure_eq!(vals((stored.hash(), stored.create(), stored.local_log_ptr(), stored.links_len(), stored.data_size())), w, "{name}: values read back");
            ensure!(stored.to_owned() == e, "{name}: entry read back");
            let _ = no_panic(|| (format!("{e}"), format!("{e:?}")))?;
            Ok(())
        })
    });
    o.nontrivial(m.is_linked());
    obs(m, o);
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("building: {e:?}").into()),
    }
}
/// sorting by the order gives the same sequence whatever the start
fn k09_sort((ms, perm): &(Vec<(M, M)>, u64), o: &mut Obs) -> Res {
    let mut boxes = vec![];
    for m in ms.iter().flat_map(|(a, b)| [a, b]) {
        boxes.push((m.with(|p| p.as_netbox()).map_err(|e| format!("{e:?}"))?, key_of(m)));
    }
    let mut want: Vec<_> = boxes.iter().map(|(b, k)| (k.is_none(), k.clone(), b.hash().0)).collect();
    want.sort();
    let mut order: Vec<PktCmp<NetPktBox>> = boxes.iter().map(|b| PktCmp(b.0.clone())).collect();
    let n = order.len();
    let mut s = *perm;
    for i in (1..n).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        order.swap(i, (s >> 33) as usize % (i + 1));
    }
    let set: std::collections::BTreeSet<PktCmp<NetPktBox>> = order.iter().cloned().collect();
    order.sort();
    ensure_eq!(order.iter().map(|p| p.0.hash().0).collect::<Vec<_>>(), want.iter().map(|w| w.2).collect::<Vec<_>>(), "sorted packets");
    let mut uniq: Vec<_> = want.iter().map(|w| w.2).collect();
    uniq.dedup();
    ensure_eq!(set.iter().map(|p| p.0.hash().0).collect::<Vec<_>>(), uniq, "a set of packets");
    o.nontrivial(n > 2);
    Ok(())
}
// ------------------------------------------------------------------ K10
struct F {
    e: FieldEnum,
    name: &'static str,
    token: u8,
    bytes: Vec<u8>,
    text: String,
    fixed: bool,
    space: Option<Vec<Vec<u8>>>,
}
fn type_name(m: &M) -> &'static str {
    match m.kind {
        Kind::Data => "DataPoint",
        Kind::Link => "LinkPoint",
        Kind::Key(_) => "KeyPoint",
        Kind::Error => "ErrorPoint",
    }
}
fn flags_of(m: &M) -> u8 {
    match m.kind {
        Kind::Data => 1,
        Kind::Link => 3,
        Kind::Key(_) => 7,
        Kind::Error => 0x80,
    }
}
/// a space the way it is printed (which K07 decides to be faithful)
fn space_text(c: &[Vec<u8>]) -> String {
    SpaceBuf::try_from_iter(c).expect("valid").to_string()
}
fn fields(m: &M, wire: &[u8]) -> Vec<F> {
    use FieldEnum::*;
    let n = |e, name, token: u8, v: u64, w: usize| F { e, name, token, bytes: v.to_be_bytes()[8 - w..].to_vec(), text: v.to_string(), fixed: true, space: None };
    let b = |e, name, token: u8, b: &[u8], text: String, fixed| F { e, name, token, bytes: b.to_vec(), text, fixed, space: None };
    let keyed = matches!(m.kind, Kind::Key(_));
    let (pk, sig) = if keyed { (wire[wire.len() - 96..wire.len() - 64].to_vec(), wire[wire.len() - 64..].to_vec()) } else { (vec![0; 32], vec![0; 64]) };
    let hash = &wire[32..64];
    let mut v = vec![
        n(VarNetFlagsF, "netflags", b'f', m.h.flags as u64, 1),
        n(VarHopF, "hop", b'j', m.h.hop as u64, 4),
        n(VarStampF, "stamp", b's', m.h.stamp, 8),
        n(VarUBits0F, "ubits0", b'q', m.h.ubits[0] as u64, 4),
        n(VarUBits1F, "ubits1", b'Q', m.h.ubits[1] as u64, 4),
        n(VarUBits2F, "ubits2", b'w', m.h.ubits[2] as u64, 4),
        n(VarUBits3F, "ubits3", b'W', m.h.ubits[3] as u64, 4),
        b(PktHashF, "hash", b'h', hash, b64url(hash), true),
        b(PktTypeF, "type", b'y', &[flags_of(m)], type_name(m).into(), true),
        n(SizeF, "size", b'o', wire.len() as u64, 2),
        b(PubKeyF, "pubkey", b'k', &pk, b64url(&pk), true),
        b(SignatureF, "signature", b'v', &sig, b64url(&sig), true),
        b(GroupIDF, "group", b'g', &m.group, b64url(&m.group), true),
        b(DomainF, "domain", b'd', &m.domain, esc(cut0(&m.domain)), true),
        n(CreateF, "create", b'c', m.stamp, 8),
        n(DepthF, "depth", b'x', m.comps.len() as u64, 1),
        n(LinksLenF, "links_len", b'l', m.links.len() as u64, 2),
        n(DataSizeF, "data_size", b'B', m.data.len() as u64, 2),
        F { e: SpaceNameF, name: "spacename", token: b'p', bytes: space_bytes(&m.comps), text: space_text(&m.comps), fixed: false, space: Some(m.comps.clone()) },
        F { e: RSpaceNameF, name: "rspacename", token: b'P', bytes: rooted_bytes(&m.comps), text: space_text(&m.comps), fixed: false, space: Some(m.comps.clone()) },
    ];
    for (i, (e, name)) in [(SpaceComp0F, "comp0"), (SpaceComp1F, "comp1"), (SpaceComp2F, "comp2"), (SpaceComp3F, "comp3"), (SpaceComp4F, "comp4"), (SpaceComp5F, "comp5"), (SpaceComp6F, "comp6"), (SpaceComp7F, "comp7")].into_iter().enumerate() {
        let c = m.comps.get(i).cloned().unwrap_or_default();
        v.push(b(e, name, b'0' + i as u8, &c, esc(&c), false));
    }
    v.push(b(DataF, "data", b'b', &m.data, esc(&m.data), false));
    v
}
fn pev(q: &dyn NetPkt, t: &str) -> Result<Vec<u8>, String> {
    let a = abe::parse_abe_strict_b(t.as_bytes()).map_err(|e| format!("parse {t:?}: {e:?}"))?;
    abe::eval::eval(&(basic_scope(), pkt_scope(q)), &a).map(|l| l.concat()).map_err(|e| format!("eval {t:?}: {e:?}"))
}
fn k10_case(m: &M, o: &mut Obs) -> Res {
    let r = m.with(|p| {
        let wire = p.byte_segments().to_bytes();
        let fs = fields(m, &wire);
        ensure_eq!(fs.iter().map(|f| f.e).collect::<Vec<_>>(), ALL.to_vec(), "the list of fields");
        let bx = p.as_netbox();
        let arc = p.as_netarc();
        let rr = ReroutePkt::new(p);
        let rc = RecvPkt { recv: 7.into(), pkt: p };
        for (rep, q) in [("parts", &p as &dyn NetPkt), ("box", &bx), ("arc", &arc), ("reroute", &rr), ("recv", &rc)] {
            for f in &fs {
                let n = f.name;
                let mut b = vec![];
                f.e.bytes(q, &mut b).map_err(|e| e.to_string())?;
                ensure_eq!(b, f.bytes, "{rep}: bytes of {n}");
                ensure_eq!(f.e.fixed_size(), f.fixed.then_some(b.len()), "fixed size of {n}");
                let mut t = vec![];
                f.e.display(q, &mut t).map_err(|e| e.to_string())?;
                let t = String::from_utf8(t).map_err(|e| format!("{n} is printed as {e}"))?;
                if f.e == FieldEnum::VarNetFlagsF {
                    for (bit, w) in [(1, "SILENT"), (2, "LINKED_IN_FUTURE_PKT"), (4, "LINKED_IN_PREVIOUS_PKT"), (8, "DONT_FORWARD"), (128, "ALWAYS_ZERO")] {
                        ensure_eq!(t.contains(w), m.h.flags & bit != 0, "{rep}: {w} in the printed flags {t}");
                    }
                } else {
                    ensure_eq!(t.clone(), f.text.clone(), "{rep}: {n} is printed");
                }
                let mut a = vec![];
                f.e.abe(q, &mut a).map_err(|e| e.to_string())?;
                let a = String::from_utf8(a).map_err(|e| format!("{n} is written as {e}"))?;
                ensure_eq!(f.e.into_abe(q), a.clone(), "{rep}: into_abe of {n}");
                match &f.space {
                    Some(c) => {
                        let s: SpaceBuf = a.parse().map_err(|e| format!("{n} as {a:?} is not a space: {e:?}"))?;
                        ensure_eq!(s.space_bytes(), &space_bytes(c)[..], "{rep}: {n} as {a:?}");
                    }
                    None => ensure_eq!(one(&a).map(pad_domain(f))?, f.bytes.clone(), "{rep}: {n} as {a:?}"),
                }
                // the same through expressions
                let bytes = f.bytes.clone();
                for (x, w) in [(format!("[{n}]"), Some(bytes.clone())), (format!("[{n}:]"), Some(bytes.clone())), (format!("[{n}:bytes]"), Some(bytes.clone())), (format!("[{n}:str]"), Some(t.clone().into_bytes())), (format!("[{n}:abe]"), Some(a.clone().into_bytes())), (format!("[{n}:x]"), None), (format!("[{n}:str:str]"), None)] {
                    let r = no_panic(|| pev(q, &x))?;
                    match w {
                        Some(w) => ensure_eq!(r, Ok(w), "{rep}: {x}"),
                        None => ensure!(r.is_err(), "{rep}: {x} gives {r:?}"),
                    }
                }
                // and back to an expression from its bytes
                let l = match &f.space {
                    Some(c) => SpaceBuf::try_from_iter(c).map_err(|e| format!("{e:?}"))?.ablist(),
                    None => abe::eval::ABList::from(f.bytes.clone()),
                };
                if !matches!(n.strip_prefix("comp"), Some(_)) {
                    let back = no_panic(|| f.e.try_to_abe(l.clone()))?.ok_or_else(|| format!("{n}: bytes {:?} refused", f.bytes))?;
                    let t = abe::print_abe(&back);
                    match &f.space {
                        Some(c) => ensure_eq!(t.parse::<SpaceBuf>().map(|s| s.space_bytes().to_vec()).map_err(|e| format!("{e:?}")), Ok(space_bytes(c)), "{n}: expression {t:?}"),
                        None => ensure_eq!(one(&t).map(pad_domain(f))?, f.bytes.clone(), "{n}: expression {t:?}"),
                    }
                }
                if f.fixed {
                    for wrong in [f.bytes.len() + 1, f.bytes.len() + 40, 0] {
                        // short text is filled up for the domain, and 0 bytes mean nothing was given
                        if f.e == FieldEnum::DomainF && wrong < 16 || wrong == 43 {
                            continue;
                        }
                        let l = abe::eval::ABList::from(vec![0xf1u8; wrong]);
                        let r = no_panic(|| f.e.try_to_abe(l.clone()))?;
                        ensure!(r.is_none(), "{n} accepts {wrong} bytes: {:?}", r.map(abe::print_abe));
                    }
                }
            }
        }
        // static accessors
        let w = |i: usize| fs[i].bytes.clone();
        ensure_eq!(
            (VarNetFlagsF::get_val(&p), VarHopF::get_val(&p), VarStampF::get_val(&p), VarUBits0F::get_val(&p), VarUBits1F::get_val(&p), VarUBits2F::get_val(&p), VarUBits3F::get_val(&p)),
            (m.h.flags, m.h.hop, m.h.stamp, m.h.ubits[0], m.h.ubits[1], m.h.ubits[2], m.h.ubits[3]),
            "header values"
        );
        ensure_eq!((PktTypeF::get_val(&p), SizeF::get_val(&p) as usize, DataSizeF::get_val(&p) as usize, LinksLenF::get_val(&p) as usize, CreateF::get_val(&p), DepthF::get_val(&p) as usize), (flags_of(m), wire.len(), m.data.len(), m.links.len(), m.stamp, m.comps.len()), "values");
        let (h, g, k): (U256, U256, U256) = (PktHashF::get_val(&p), GroupIDF::get_val(&p), PubKeyF::get_val(&p));
        let s: U512 = SignatureF::get_val(&p);
        let d: u128 = DomainF::get_val(&p);
        ensure_eq!((h.to_be_bytes::<32>().to_vec(), k.to_be_bytes::<32>().to_vec(), s.to_be_bytes::<64>().to_vec(), g.to_be_bytes::<32>().to_vec(), d.to_be_bytes().to_vec()), (w(7), w(10), w(11), w(12), w(13)), "large values");
        Ok(())
    });
    obs(m, o);
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("building: {e:?}").into()),
    }
}
/// the text of a domain leaves out its leading zeros
fn pad_domain(f: &F) -> impl Fn(Vec<u8>) -> Vec<u8> + '_ {
    move |mut v| {
        if f.e == FieldEnum::DomainF {
            while v.len() < 16 {
                v.insert(0, 0)
            }
        }
        v
    }
}
fn k10_names(t: &String, o: &mut Obs) -> Res {
    let m = M { kind: Kind::Data, h: H { prefix: *b"LK1", flags: 0, hop: 0, stamp: 0, ubits: [0; 4] }, group: [0; 32], domain: [0; 16], stamp: 0, comps: vec![], links: vec![], data: vec![] };
    let fs = fields(&m, &m.wire());
    let byname = fs.iter().find(|f| f.name == t).map(|f| f.e);
    let byid = fs.iter().find(|f| f.name == t || t.as_bytes() == [f.token]).map(|f| f.e);
    ensure_eq!(FieldEnum::try_from_name(t), byname, "field named {t:?}");
    ensure_eq!(t.parse::<FieldEnum>().ok(), byname, "field read from {t:?}");
    ensure_eq!(FieldEnum::try_from_id(t.as_bytes()), byid, "field identified by {t:?}");
    for f in &fs {
        let i = f.e.info();
        ensure_eq!((i.name, i.token, f.e.to_string()), (f.name, f.token, f.name.to_string()), "info of {}", f.name);
        ensure_eq!(fs.iter().filter(|g| g.name == f.name || g.token == f.token).count(), 1, "uses of the name or token of {}", f.name);
        let w = match f.e {
            FieldEnum::PubKeyF | FieldEnum::SignatureF => PointTypeFlags::SIGNATURE,
            FieldEnum::GroupIDF | FieldEnum::DomainF | FieldEnum::CreateF | FieldEnum::DepthF | FieldEnum::LinksLenF => PointTypeFlags::LINK,
            _ if f.space.is_some() || f.name.starts_with("comp") => PointTypeFlags::LINK,
            _ => PointTypeFlags::DATA,
        };
        ensure_eq!(i.pkts, w, "packets with a {}", f.name);
    }
    o.nontrivial(byid.is_some());
    Ok(())
}
// ------------------------------------------------------------------ K11
fn shown_tag(t: &[u8; 16]) -> String {
    esc(cut0(t))
}
fn bound() -> BoxedStrategy<String> {
    prop_oneof![3 => (-6i64..12).prop_map(|v| v.to_string()), 1 => Just(String::new()), 1 => n64().prop_map(|v| v.to_string()), 1 => any::<i64>().prop_map(|v| v.to_string()), 1 => Just("x".to_string())].boxed()
}
fn k11_case((m, suffix, delim, args, pick): &(M, Vec<u8>, Vec<u8>, Vec<String>, u8), o: &mut Obs) -> Res {
    let mut m = m.clone();
    if !m.is_linked() {
        m.kind = Kind::Link
    }
    // a suffix that some tag has
    let mut suffix = suffix.clone();
    if pick % 3 > 0 && !m.links.is_empty() {
        let t = &m.links[*pick as usize % m.links.len()].0;
        suffix = t[(suffix.len() * 3) % 17..].to_vec();
    }
    let r = m.with(|p| {
        let l = m.real_links();
        let sel = SelectLink(&l);
        let want = if suffix.len() > 16 { None } else { m.links.iter().find(|(t, _)| t.ends_with(&suffix)) };
        let got = sel.first_tailmask(&suffix).map(|l| (l.tag.0, l.ptr.0));
        ensure_eq!(got, want.copied(), "first link ending in {suffix:?}");
        let mut tag = [0u8; 16];
        let n = suffix.len().min(16);
        tag[16 - n..].copy_from_slice(&suffix[..n]);
        ensure_eq!(sel.first_eq(AB(tag)).map(|l| (l.tag.0, l.ptr.0)), m.links.iter().find(|(t, _)| *t == tag).copied(), "first link tagged {tag:?}");
        let x = format!("[link:{}]", esc(&suffix));
        let r = no_panic(|| pev(&p, &x))?;
        match want {
            Some(w) => ensure_eq!(r, Ok(w.1.to_vec()), "{x}"),
            None => ensure!(r.is_err(), "{x} gives {r:?}"),
        }
        // slices
        let line = |l: &([u8; 16], [u8; 32])| format!("{}:{}", shown_tag(&l.0), b64url(&l.1));
        let txt: Vec<String> = l.iter().map(|l| l.to_string()).collect();
        for (t, l) in txt.iter().zip(&m.links) {
            // the display of a link shows its tag and its pointer
            ensure!(t.contains(&shown_tag(&l.0)) && t.contains(&b64url(&l.1)), "link {l:?} is printed {t:?} (like {:?})", line(l));
            let back: abe::TypedABE<Link> = t.parse().map_err(|e| format!("link {t:?}: {e:?}"))?;
            let back = back.eval(&basic_scope()).map_err(|e| format!("link {t:?}: {e:?}"))?;
            ensure_eq!((back.tag.0, back.ptr.0), *l, "link read back from {t:?}");
        }
        ensure_eq!(lp::link::print_links(&l), m.links.iter().map(|l| format!("{}\t{}", esc(&l.0), b64url(&l.1))).collect::<Vec<_>>().join("\n"), "printed links");
        let ab: Vec<&[u8]> = args.iter().map(|a| a.as_bytes()).collect();
        for (x, d, ab) in [("[links]".to_string(), &b"\n"[..], &ab[..0]), (format!("[links:{}]", esc(delim)), delim, &ab[..0]), (format!("[links:{}:{}]", esc(delim), args.join(":")), delim, &ab[..])] {
            let want = ref_slice_idx(l.len(), ab).map(|ix| ix.into_iter().map(|i| txt[i].clone().into_bytes()).collect::<Vec<_>>().join(d));
            let r = no_panic(|| pev(&p, &x))?;
            match want {
                Some(w) => ensure_eq!(r, Ok(w), "{x} of {} links", l.len()),
                None => ensure!(r.is_err(), "{x} gives {r:?}"),
            }
        }
        // for every link
        let each = |f: &dyn Fn(usize, &([u8; 16], [u8; 32])) -> Vec<u8>| m.links.iter().enumerate().flat_map(|(i, l)| f(i, l)).collect::<Vec<u8>>();
        ensure_eq!(pev(&p, "[/links:[ptr]]"), Ok(each(&|_, l| l.1.to_vec())), "pointers");
        ensure_eq!(pev(&p, "[/links:[tag][i]]"), Ok(each(&|i, l| [&l.0[..], &(i as u16).to_be_bytes()].concat())), "tags and indices");
        ensure_eq!(pev(&p, "[/links:\\t[tag:str] [ptr:str] [i:str]\\n]"), Ok(each(&|i, l| format!("\t{} {} {i}\n", shown_tag(&l.0), b64url(&l.1)).into_bytes())), "links as text");
        let abe = pev(&p, "[/links:[tag:abe]\\n[ptr:abe]\\n[i:abe]\\n]").map(|b| String::from_utf8(b).unwrap_or_default())?;
        let lines: Vec<&str> = abe.lines().collect();
        ensure_eq!(lines.len(), 3 * m.links.len(), "lines of {abe:?}");
        for (i, l) in m.links.iter().enumerate() {
            let t = one(lines[3 * i])?;
            ensure!(cut0(&t) == cut0(&l.0), "tag {:?} as {:?}", l.0, lines[3 * i]);
            ensure_eq!(one(lines[3 * i + 1])?, l.1.to_vec(), "pointer as {:?}", lines[3 * i + 1]);
            ensure_eq!(one(lines[3 * i + 2])?, (i as u16).to_be_bytes().to_vec(), "index as {:?}", lines[3 * i + 2]);
        }
        // the body sees the packet as well, and outside of the links nothing is bound
        ensure_eq!(pev(&p, "[/links:[hash]]"), Ok(each(&|_, _| p.hash().0.to_vec())), "hash in the body");
        if !m.links.is_empty() {
            for bad in ["[/links:[ptr:x]]", "[/links:[nosuch]]", "[/links:a:b]"] {
                let r = no_panic(|| pev(&p, bad))?;
                ensure!(r.is_err(), "{bad} gives {r:?}");
            }
        }
        for bad in ["[ptr]", "[tag]", "[i]"] {
            ensure!(pev(&p, bad).is_err(), "{bad} outside of links");
        }
        Ok(())
    });
    o.nontrivial(m.links.len() > 1);
    o.class_if(m.links.iter().any(|(t, _)| t.ends_with(&suffix)), "suffix found");
    o.class_if(suffix.is_empty(), "empty suffix");
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("building: {e:?}").into()),
    }
}
fn k11_make((tag, ptr, style): &(Vec<u8>, Vec<u8>, u8), o: &mut Obs) -> Res {
    // from parts
    let p32: Option<[u8; 32]> = ptr[..].try_into().ok();
    let fits = tag.len() <= 16;
    let mut t16 = [0; 16];
    if fits {
        t16[16 - tag.len()..].copy_from_slice(tag);
    }
    if let Some(p) = p32 {
        let r = no_panic(|| Link::try_from(tag, B64(p)))?;
        ensure_eq!(r.ok().map(|l| (l.tag.0, l.ptr.0)), fits.then_some((t16, p)), "link from a tag of {} bytes", tag.len());
        if fits {
            ensure_eq!(Link::new(tag, p).tag.0, t16, "new link");
        }
    }
    // from text
    let pt = match style % 4 {
        0 => b64url(ptr),
        1 => format!("[b:{}]", b64url(ptr)),
        2 => esc(ptr),
        _ => format!("[:{}]", esc(ptr)),
    };
    let x = format!("{}:{pt}", if tag.is_empty() { "[:]".to_string() } else { esc(tag) });
    let r = no_panic(|| {
        let a: abe::TypedABE<Link> = x.parse().map_err(|e| format!("{e:?}"))?;
        a.eval(&basic_scope()).map_err(|e| format!("{e:?}"))
    })?;
    // a pointer is 32 bytes, or the 43 characters that stand for them
    let raw: Vec<u8> = if style % 4 == 0 { b64url(ptr).into_bytes() } else { ptr.clone() };
    let p = raw[..].try_into().ok().or_else(|| crate::refabe::b64url_dec(&raw).and_then(|v| v.try_into().ok()));
    let want = if fits { p.map(|p: [u8; 32]| (t16, p)) } else { None };
    match want {
        Some(w) => ensure_eq!(r.map(|l| (l.tag.0, l.ptr.0)), Ok(w), "link {x:?}"),
        None => ensure!(r.is_err(), "link {x:?} gives {r:?}"),
    }
    for bad in [format!("{x}:more"), esc(tag), format!("{}/{pt}", esc(tag)), format!(":{x}")] {
        let r = no_panic(|| {
            let a: abe::TypedABE<Link> = bad.parse().map_err(|e| format!("{e:?}"))?;
            a.eval(&basic_scope()).map_err(|e| format!("{e:?}"))
        })?;
        ensure!(r.is_err(), "link {bad:?} gives {r:?}");
    }
    o.nontrivial(want.is_some());
    Ok(())
}
// ------------------------------------------------------------------ K12
fn test_group() -> [u8; 32] {
    TEST_GROUP.0
}
fn named(g: &[u8; 32]) -> String {
    if *g == [0; 32] {
        "[#:0]".into()
    } else if *g == PUBLIC.0 {
        "[#:pub]".into()
    } else if *g == test_group() {
        "[#:test]".into()
    } else {
        format!("[b:{}]", b64url(g))
    }
}
fn body(m: &M, wire: &[u8], group: &str) -> String {
    let pk = match m.kind {
        Kind::Key(k) => pubkey(k),
        _ => [0; 32],
    };
    format!(
        "type\t{}\nhash\t{}\ngroup\t{group}\ndomain\t{}\nspace\t{}\npubkey\t[b:{}]\ncreate\t{}\nlinks\t{}\n{}",
        type_name(m),
        b64url(&wire[32..64]),
        esc(cut0(&m.domain)),
        space_text(&m.comps),
        b64url(&pk),
        m.stamp,
        m.links.len(),
        m.links.iter().map(|l| format!("\t{} {}\n", shown_tag(&l.0), b64url(&l.1))).collect::<String>()
    )
}
fn some_packet() -> BoxedStrategy<M> {
    (small(), 0u8..6, vec(any::<u8>(), 0..30), any::<bool>())
        .prop_map(|(mut m, g, bin, b)| {
            if m.is_linked() {
                match g {
                    0 => m.group = [0; 32],
                    1 => m.group = PUBLIC.0,
                    2 => m.group = test_group(),
                    _ => {}
                }
            }
            if b {
                m.data = bin
            }
            m
        })
        .boxed()
}
fn k12_text((m, recv, limit): &(M, Option<u64>, usize), o: &mut Obs) -> Res {
    let r = m.with(|p| {
        let wire = p.byte_segments().to_bytes();
        let bx = p.as_netbox();
        let lossy = |n: usize| String::from_utf8_lossy(&m.data[..n.min(m.data.len())]).into_owned();
        let quick = |n: usize| format!("{}data\t{}\n{}", body(m, &wire, &named(&m.group)), m.data.len(), lossy(n));
        let full = format!("{}\ndata\t{}\n{}\n", body(m, &wire, &format!("[b:{}]", b64url(&m.group))), m.data.len(), lossy(usize::MAX));
        let rp = recv.map(|r| RecvPkt { recv: r.into(), pkt: p });
        let rline = match recv {
            Some(r) => format!("recv\t{r}\n"),
            None => "recv\t???\n".into(),
        };
        let q: &dyn NetPkt = match &rp {
            Some(r) => r,
            None => &p,
        };
        for (add, n) in [(false, usize::MAX), (false, *limit), (true, *limit), (true, 0)] {
            let mut s = String::new();
            no_panic(|| PktFmt(q).to_str(&mut s, add, n))?.map_err(|e| e.to_string())?;
            ensure_eq!(s, format!("{}{}", if add { &rline[..] } else { "" }, quick(n)), "as text, data limit {n}");
        }
        ensure_eq!(PktFmt(&bx).to_string(), quick(usize::MAX), "displayed");
        ensure_eq!(format!("{:?}", PktFmt(&bx)), quick(usize::MAX), "debug");
        ensure_eq!(p.to_default_str(), quick(usize::MAX), "default text");
        ensure_eq!(PktFmtDebug(q).to_string(), format!("{rline}{}", quick(160)), "debug wrapper displayed");
        let _ = no_panic(|| format!("{:?} {:?} {:?}", PktFmtDebug(q), bx, p))?;
        for x in ["[pkt]", "[netpkt]", "[point]"] {
            let r = no_panic(|| pev(q, x))?;
            ensure_eq!(r.map(|b| String::from_utf8_lossy(&b).into_owned()), Ok(full.clone()), "{x}");
        }
        for (n, f) in [("pkt_fmt", pkt_fmt as fn(&dyn NetPkt) -> String), ("netpkt_fmt", netpkt_fmt), ("point_fmt", point_fmt)] {
            ensure_eq!(no_panic(|| f(q))?, full.clone(), "{n}");
        }
        for (x, w) in [
            ("[pkt-quick]".to_string(), quick(usize::MAX)),
            ("[pkt-quick:]".to_string(), quick(usize::MAX)),
            ("[pkt-quick:false]".to_string(), quick(usize::MAX)),
            ("[pkt-quick:true]".to_string(), format!("{rline}{}", quick(usize::MAX))),
            (format!("[pkt-quick:true:{limit}]"), format!("{rline}{}", quick(*limit))),
            (format!("[pkt-quick::{limit}]"), quick(*limit)),
        ] {
            ensure_eq!(no_panic(|| pev(q, &x))?.map(|b| String::from_utf8_lossy(&b).into_owned()), Ok(w), "{x}");
        }
        for bad in ["[pkt-quick:true:x]", "[pkt:a]", "[netbytes:a]"] {
            let r = no_panic(|| pev(q, bad))?;
            ensure!(r.is_err(), "{bad} gives {r:?}");
        }
        ensure_eq!(pev(q, "[netbytes]"), Ok(wire.to_vec()), "[netbytes]");
        // received
        let before = now().get();
        let r = pev(q, "[recv]").map(|b| u64::from_be_bytes(b.try_into().unwrap_or_default()))?;
        let after = now().get();
        match recv {
            Some(w) => {
                ensure_eq!(r, *w, "[recv]");
                for f in ["recv", "recv_now"] {
                    ensure_eq!(pev(q, &format!("[{f}:str]")), Ok(w.to_string().into_bytes()), "[{f}:str]");
                    ensure_eq!(pev(q, &format!("[{f}]")), Ok(w.to_be_bytes().to_vec()), "[{f}]");
                    let a = pev(q, &format!("[{f}:abe]"))?;
                    ensure_eq!(one(&String::from_utf8_lossy(&a))?, w.to_be_bytes().to_vec(), "[{f}:abe]");
                    ensure!(pev(q, &format!("[{f}:x]")).is_err(), "[{f}:x] accepted");
                }
            }
            None => {
                ensure!((before..=after).contains(&r), "[recv] is {r}, between {before} and {after}");
                ensure!(pev(q, "[recv_now]").is_err(), "[recv_now] without a stamp");
            }
        }
        Ok(())
    });
    obs(m, o);
    o.class_if(std::str::from_utf8(&m.data).is_err(), "data is not text");
    o.class_if(recv.is_some(), "received");
    o.class_if(*limit < m.data.len(), "data cut");
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("building: {e:?}").into()),
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Node {
    El(String, Vec<(String, String)>, Vec<Node>),
    Text(String),
}
/// strict reader of the subset of html a fragment may use
fn html(t: &str) -> Result<Vec<Node>, String> {
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<Node>)> = vec![(String::new(), vec![], vec![])];
    let mut s = t;
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix("</") {
            let (n, r) = r.split_once('>').ok_or("unterminated end tag")?;
            let (name, at, ch) = stack.pop().ok_or("no open element")?;
            if name != n {
                return Err(format!("</{n}> ends <{name}>"));
            }
            stack.last_mut().ok_or("end tag without start")?.2.push(Node::El(name, at, ch));
            s = r;
        } else if let Some(r) = s.strip_prefix('<') {
            let n = r.find(|c: char| !c.is_ascii_lowercase()).ok_or("unterminated tag")?;
            if n == 0 {
                return Err(format!("stray < before {:?}", r.chars().take(10).collect::<String>()));
            }
            let (name, mut r) = r.split_at(n);
            let mut at = vec![];
            loop {
                r = r.trim_start_matches([' ', '\n']);
                if let Some(x) = r.strip_prefix('>') {
                    r = x;
                    break;
                }
                let (k, x) = r.split_once("='").ok_or("attribute without value")?;
                if k.is_empty() || !k.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'-') {
                    return Err(format!("attribute name {k:?}"));
                }
                let (v, x) = x.split_once('\'').ok_or("unterminated attribute")?;
                if v.contains(['<', '>', '&', '"']) {
                    return Err(format!("attribute value {v:?}"));
                }
                at.push((k.to_string(), v.to_string()));
                r = x;
            }
            stack.push((name.to_string(), at, vec![]));
            s = r;
        } else {
            let n = s.find('<').unwrap_or(s.len());
            let (t, r) = s.split_at(n);
            let mut out = String::new();
            let mut t = t;
            while let Some(i) = t.find('&') {
                out += &t[..i];
                t = &t[i + 1..];
                let (e, r) = t.split_once(';').ok_or("unterminated entity")?;
                out += match e {
                    "amp" => "&",
                    "lt" => "<",
                    "gt" => ">",
                    "quot" => "\"",
                    "#39" | "#x27" | "apos" => "'",
                    e => return Err(format!("entity {e:?}")),
                };
                t = r;
            }
            if t.contains('>') {
                return Err(format!("stray > in {t:?}"));
            }
            out += t;
            stack.last_mut().unwrap().2.push(Node::Text(out));
            s = r;
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is not closed", stack.last().unwrap().0));
    }
    Ok(stack.pop().unwrap().2)
}
impl Node {
    fn text(&self) -> String {
        match self {
            Node::Text(t) => t.clone(),
            Node::El(_, _, c) => c.iter().map(|c| c.text()).collect(),
        }
    }
    fn attr(&self, k: &str) -> Option<&str> {
        match self {
            Node::El(_, a, _) => a.iter().find(|a| a.0 == k).map(|a| &a.1[..]),
            _ => None,
        }
    }
    fn find<'a>(&'a self, f: &dyn Fn(&Node) -> bool, out: &mut Vec<&'a Node>) {
        if f(self) {
            out.push(self)
        }
        if let Node::El(_, _, c) = self {
            c.iter().for_each(|c| c.find(f, out))
        }
    }
    fn with<'a>(&'a self, attr: &str) -> Vec<&'a Node> {
        let mut v = vec![];
        self.find(&|n| n.attr(attr).is_some(), &mut v);
        v
    }
}
fn k12_html((m, with_data): &(M, bool), o: &mut Obs) -> Res {
    let r = m.with(|p| {
        let wire = p.byte_segments().to_bytes();
        let mut s = String::new();
        no_panic(|| PktFmt(&p).to_html(&mut s, *with_data, None))?.map_err(|e| e.to_string())?;
        if *with_data {
            ensure_eq!(pev(&p, "[html-quick]"), Ok(s.clone().into_bytes()), "[html-quick]");
        }
        let ns = html(&s).map_err(|e| format!("not well formed: {e} in {s}"))?;
        let [d] = &ns[..] else { return Err(format!("{} top level nodes in {s}", ns.len()).into()) };
        let at = |k: &str| d.attr(k).map(|s| s.to_string());
        let st = |s: String| Some(s);
        ensure_eq!(at("lk-point"), st(b64url(&wire[32..64])), "hash");
        ensure_eq!(at("lk-ptype"), st(flags_of(m).to_string()), "type");
        ensure_eq!((at("lk-data-size"), at("lk-links-len"), at("lk-depth")), (st(m.data.len().to_string()), st(m.links.len().to_string()), st(m.comps.len().to_string())), "sizes");
        let pk = if let Kind::Key(k) = m.kind { Some(b64url(&pubkey(k))) } else { None };
        ensure_eq!(at("lk-pubkey"), pk.clone(), "public key");
        // values shown: shortened, or the name of a well known one
        let shown = |attr: &str, b: &[u8; 32]| -> Res {
            let e: Vec<_> = d.with(attr).into_iter().filter(|n| !std::ptr::eq(*n, d)).collect();
            let names = [([0u8; 32], "[#:0]"), (PUBLIC.0, "[#:pub]"), (test_group(), "[#:test]")];
            let t = names.iter().find(|n| n.0 == *b).map(|n| n.1.to_string()).unwrap_or_else(|| mini(b));
            ensure!(e.iter().any(|e| e.attr(attr) == Some(&b64url(b)) && e.text() == t), "{attr} {} ({t}) is not shown in {s}", b64url(b));
            Ok(())
        };
        shown("lk-hash", wire[32..64].try_into().unwrap())?;
        if m.is_linked() {
            shown("lk-group", &m.group)?;
            if let Kind::Key(k) = m.kind {
                shown("lk-pubkey", &pubkey(k))?;
            }
            let dm = d.with("lk-domain");
            ensure!(dm.len() == 1 && dm[0].attr("lk-domain") == Some(&b64url(&m.domain)) && dm[0].text() == esc(cut0(&m.domain)), "domain in {s}");
            let cr = d.with("lk-create");
            ensure!(cr.len() == 1 && cr[0].attr("lk-create") == Some(&m.stamp.to_string()) && cr[0].text() == m.stamp.to_string(), "create stamp in {s}");
            let sp = d.with("lk-space");
            ensure!(sp.len() == 1 && sp[0].attr("lk-space") == Some(&b64url(&space_bytes(&m.comps))), "space in {s}");
            for i in 0..9 {
                let k = format!("lk-space{i}");
                let e = d.with(&k);
                match m.comps.get(i) {
                    Some(c) => ensure!(e.len() == 1 && e[0].attr(&k) == Some(&b64url(c)) && e[0].text() == esc(c), "component {i} in {s}"),
                    None => ensure!(e.is_empty(), "{k} in {s}"),
                }
            }
            let li = d.with("lk-link-tag");
            ensure_eq!(li.len(), m.links.len(), "links shown");
            for (l, e) in m.links.iter().zip(li) {
                ensure!(e.attr("lk-link-tag") == Some(&b64url(&l.0)), "tag attribute of {l:?} in {s}");
                let t = e.with("lk-tag");
                ensure!(t.len() == 1 && t[0].text() == shown_tag(&l.0), "tag {:?} in {s}", l.0);
                let t = e.with("lk-ptr");
                ensure!(t.len() == 1 && t[0].attr("lk-ptr") == Some(&b64url(&l.1)), "pointer {:?} in {s}", l.1);
            }
        }
        let data = d.with("lk-data");
        if *with_data {
            ensure!(data.len() == 1, "{} data elements in {s}", data.len());
            ensure_eq!(data[0].text(), String::from_utf8_lossy(&m.data).into_owned(), "data shown");
        } else {
            ensure!(data.is_empty(), "data shown in {s}");
        }
        // the caller's addition comes last, inside
        let mut inc = |q: &dyn NetPkt, f: &mut String| {
            *f += &format!("<i>{}</i>", q.hash());
            Ok(())
        };
        let mut s2 = String::new();
        PktFmt(&p).to_html(&mut s2, *with_data, Some(&mut inc)).map_err(|e| e.to_string())?;
        ensure_eq!(s2, format!("{}<i>{}</i></div>", s.strip_suffix("</div>").ok_or("no </div> at the end")?, b64url(&wire[32..64])), "with an addition");
        Ok(())
    });
    obs(m, o);
    o.class_if(m.data.iter().any(|b| b"<>&'".contains(b)), "data needs escapes");
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("building: {e:?}").into()),
    }
}
// ------------------------------------------------------------------ K13
fn dur() -> BoxedStrategy<Duration> {
    prop_oneof![
        n64().prop_map(Duration::from_micros),
        n64().prop_map(Duration::from_millis),
        (n64(), 0u32..1_000_000_000).prop_map(|(s, n)| Duration::new(s, n)),
        (0u64..20, 0u32..1_000_000_000).prop_map(|(s, n)| Duration::new(s, n)),
    ]
    .boxed()
}
fn k13((a, b, d): &(u64, u64, Duration), o: &mut Obs) -> Res {
    let s = |v: u64| Stamp::new(v);
    let us = d.as_secs() as u128 * 1_000_000 + (d.subsec_nanos() / 1000) as u128;
    let cap = us.min(u64::MAX as u128);
    let (av, max) = (*a as u128, u64::MAX as u128);
    ensure_eq!(stamp_add(s(*a), *d).get() as u128, (av + us).min(max), "{a} + {d:?}");
    ensure_eq!(stamp_sub(s(*a), *d).get() as u128, av.saturating_sub(us), "{a} - {d:?}");
    ensure_eq!(checked_stamp_add(s(*a), *d).map(|v| v.get() as u128), (av + cap <= max).then_some(av + cap), "{a} + {d:?} checked");
    ensure_eq!(checked_stamp_sub(s(*a), *d).map(|v| v.get() as u128), av.checked_sub(cap), "{a} - {d:?} checked");
    let r = stamp_sub_stamp(s(*a), s(*b));
    match r {
        Ok(v) => ensure!(a > b && v.get() == a - b, "{a} - {b} is {v}"),
        Err(v) => ensure!(a <= b && v.get() == b - a, "{a} - {b} is -{v}"),
    }
    ensure_eq!(as_duration(s(*a)), Duration::from_micros(*a), "as a duration");
    if let Some(t) = std::time::UNIX_EPOCH.checked_add(Duration::from_micros(*a)) {
        ensure_eq!(as_systime(s(*a)), t, "as a system time");
        ensure_eq!(from_systime(t).get(), *a, "from a system time");
        ensure_eq!(from_systime(t + Duration::from_nanos(999)).get(), *a, "from a system time between two stamps");
    }
    // ages, with the clock read before and after
    let n0 = now().get();
    let age = stamp_age(s(*a));
    let n1 = now().get();
    let us = |d: Duration| d.as_micros() as u64;
    match age {
        Ok(d) => ensure!(*a <= n1 && us(d) >= n0.saturating_sub(*a) && us(d) <= n1.saturating_sub(*a), "age of {a} at {n0}..{n1} is {d:?}"),
        Err(d) => ensure!(*a > n0 && us(d) <= *a - n0 && us(d) >= a.saturating_sub(n1), "age of {a} at {n0}..{n1} is -{d:?}"),
    }
    o.nontrivial(*a != *b);
    o.class_if(av + us_of(d) > max, "saturates");
    Ok(())
}
fn us_of(d: &Duration) -> u128 {
    d.as_micros()
}
fn stamps() -> BoxedStrategy<u64> {
    prop_oneof![3 => n64(), 1 => (0u64..2_000_000).prop_map(|d| now().get() - 1_000_000 + d), 1 => (0u64..u64::MAX / 4).boxed()].boxed()
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "K08",
            rule: "the header is not all zeros / the packet has content",
            assumptions: &["leading zeros of a header's prefix are left out of its text"],
            subs: vec![
                sub("header", 300_000, 3_000_000, || (hdr(), any::<[u8; 32]>(), any::<u8>(), any::<u8>()), k08_head),
                sub("reroute", 3_000, 200_000, || (small(), hdr(), hdr()), k08_reroute),
            ],
        },
        Property {
            id: "K09",
            rule: "both packets have an index and differ",
            assumptions: &["points without an index come after all others, by hash"],
            subs: vec![
                sub("pairs", 60_000, 2_000_000, related, k09_pair),
                sub("entries", 10_000, 200_000, || (small(), n64()), k09_entry),
                sub("sorting", 6_000, 100_000, || (vec(related(), 0..6), any::<u64>()), k09_sort),
            ],
        },
        Property {
            id: "K10",
            rule: "the packet has a space, links or data",
            assumptions: &["the text of a domain leaves out its leading zeros"],
            subs: vec![
                sub("fields", 2_500, 150_000, small, k10_case),
                sub("names", 100_000, 500_000, || prop_oneof![
                    2 => proptest::sample::select(ALL.to_vec()).prop_map(|f| f.to_string()),
                    2 => "[a-zA-Z0-9_]",
                    1 => (proptest::sample::select(ALL.to_vec()), any::<u8>(), "[a-z0-9_]?").prop_map(|(f, i, c)| { let mut s = f.to_string(); let i = i as usize % (s.len() + 1); s.truncate(i); s + &c }),
                    1 => "[a-z0-9_]{0,8}",
                ], k10_names),
            ],
        },
        Property {
            id: "K11",
            rule: "two or more links",
            assumptions: &[],
            subs: vec![
                sub("select", 60_000, 400_000, || (small(), vec(byte(), 0..20), vec(byte(), 0..4), vec(bound(), 0..=3), any::<u8>()), k11_case),
                sub("make", 200_000, 1_000_000, || (vec(byte(), 0..20), prop_oneof![4 => vec(any::<u8>(), 32..=32), 1 => vec(any::<u8>(), 30..34), 1 => vec(any::<u8>(), 43..=43), 1 => vec(proptest::sample::select(b"AZaz09-_Qg".to_vec()), 43..=43)], any::<u8>()), k11_make),
            ],
        },
        Property {
            id: "K12",
            rule: "the packet has a space, links or data",
            assumptions: &["the fragment uses only elements with single quoted attributes"],
            subs: vec![
                sub("text", 50_000, 200_000, || (some_packet(), proptest::option::of(n64()), prop_oneof![0usize..40, Just(usize::MAX), 0usize..400]), k12_text),
                sub("html", 60_000, 300_000, || (some_packet(), proptest::bool::weighted(0.8)), k12_html),
            ],
        },
        Property {
            id: "K13",
            rule: "two different stamps",
            assumptions: &["the system clock does not go backwards while a case runs"],
            subs: vec![sub("stamps", 1_000_000, 10_000_000, || (stamps(), stamps(), dur()), k13)],
        },
    ]
}
