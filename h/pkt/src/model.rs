//! The reference model of a packet: its fields, its wire layout, and an independent reader.
use fw::*;
use linkspace_pkt as lp;
use lp::{LkHash, NetPktHeader, RootedSpaceBuf, SigningKey, Stamp};
use proptest::collection::vec;
use proptest::prelude::*;
use std::sync::OnceLock;

pub const MAX_POINT: usize = 65536 - 512;
pub const MAX_COMP: usize = 200;
pub const MAX_SPACE: usize = 242;
pub const MAX_DEPTH: usize = 8;
pub const HEAD: usize = 68;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Data,
    Link,
    Key(u8),
    Error,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct H {
    pub prefix: [u8; 3],
    pub flags: u8,
    pub hop: u32,
    pub stamp: u64,
    pub ubits: [u32; 4],
}
pub const FLAGS: u8 = 0b1000_1111;
impl H {
    pub fn bytes(&self) -> [u8; 32] {
        let mut o = [0; 32];
        o[..3].copy_from_slice(&self.prefix);
        o[3] = self.flags;
        o[4..8].copy_from_slice(&self.hop.to_be_bytes());
        o[8..16].copy_from_slice(&self.stamp.to_be_bytes());
        for i in 0..4 {
            o[16 + 4 * i..20 + 4 * i].copy_from_slice(&self.ubits[i].to_be_bytes())
        }
        o
    }
    pub fn real(&self) -> NetPktHeader {
        NetPktHeader {
            prefix: lp::AB(self.prefix),
            flags: lp::NetFlags::from_bits_retain(self.flags),
            hop: self.hop.into(),
            stamp: self.stamp.into(),
            ubits: self.ubits.map(|v| v.into()),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct M {
    pub kind: Kind,
    pub h: H,
    pub group: [u8; 32],
    pub domain: [u8; 16],
    pub stamp: u64,
    pub comps: Vec<Vec<u8>>,
    pub links: Vec<([u8; 16], [u8; 32])>,
    pub data: Vec<u8>,
}
pub fn key(i: u8) -> &'static SigningKey {
    static K: OnceLock<Vec<SigningKey>> = OnceLock::new();
    &K.get_or_init(|| {
        (0..4u8)
            .map(|i| {
                let mut b = [0x11 + i; 32];
                b[31] = i + 1;
                SigningKey::try_from(b).unwrap()
            })
            .collect()
    })[(i % 4) as usize]
}
pub fn pubkey(i: u8) -> [u8; 32] {
    key(i).pubkey_bytes()
}
pub fn space_bytes(comps: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for c in comps {
        o.push(c.len() as u8);
        o.extend_from_slice(c);
    }
    o
}
pub fn rooted_bytes(comps: &[Vec<u8>]) -> Vec<u8> {
    if comps.is_empty() {
        return vec![];
    }
    let mut o = vec![comps.len() as u8];
    let mut at = 0;
    for i in 0..7 {
        if let Some(c) = comps.get(i) {
            at += c.len() + 1;
        }
        o.push(at as u8);
    }
    o.extend(space_bytes(comps));
    o
}
/// components of space bytes when they are well formed (any depth)
pub fn parse_space(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
    if b.len() > MAX_SPACE {
        return None;
    }
    let mut o = vec![];
    while let Some((n, r)) = b.split_first() {
        let n = *n as usize;
        if n == 0 || n > MAX_COMP || n > r.len() {
            return None;
        }
        o.push(r[..n].to_vec());
        b = &r[n..];
    }
    Some(o)
}
pub fn valid_comps(c: &[Vec<u8>]) -> bool {
    c.len() <= MAX_DEPTH && c.iter().all(|c| !c.is_empty() && c.len() <= MAX_COMP) && space_bytes(c).len() <= MAX_SPACE
}
/// rooted bytes are either nothing, or the index and the components it indexes
pub fn parse_rooted(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    if b.len() < 8 {
        return None;
    }
    let c = parse_space(&b[8..])?;
    if c.len() > MAX_DEPTH {
        return None;
    }
    let mut want = rooted_bytes(&c);
    if c.is_empty() {
        want = vec![0; 8]
    }
    (want == b).then_some(c)
}
impl M {
    pub fn rspace(&self) -> RootedSpaceBuf {
        RootedSpaceBuf::try_from_iter(&self.comps).expect("valid components")
    }
    pub fn real_links(&self) -> Vec<lp::Link> {
        self.links.iter().map(|(t, p)| lp::Link { tag: lp::AB(*t), ptr: lp::B64(*p) }).collect()
    }
    /// header + fields + padding, without the signature
    pub fn unsigned(&self) -> Vec<u8> {
        let ty = match self.kind {
            Kind::Data => 1,
            Kind::Link => 3,
            Kind::Key(_) => 7,
            Kind::Error => 0x80,
        };
        let mut o = vec![0, ty, 0, 0];
        if matches!(self.kind, Kind::Link | Kind::Key(_)) {
            let r = rooted_bytes(&self.comps);
            let off = 64 + 48 * self.links.len();
            o.extend((off as u16).to_be_bytes());
            o.extend(((off + r.len()) as u16).to_be_bytes());
            o.extend(self.stamp.to_be_bytes());
            o.extend(self.group);
            o.extend(self.domain);
            for (t, p) in &self.links {
                o.extend(t);
                o.extend(p);
            }
            o.extend(r);
        }
        o.extend(&self.data);
        let uset = self.size_fields();
        o[2..4].copy_from_slice(&(uset as u16).to_be_bytes());
        while o.len() % 8 != 0 {
            o.push(255)
        }
        o
    }
    /// the size of all fields, which must fit MAX_POINT
    pub fn size_fields(&self) -> usize {
        4 + self.data.len()
            + match self.kind {
                Kind::Link => 60 + 48 * self.links.len() + rooted_bytes(&self.comps).len(),
                Kind::Key(_) => 60 + 48 * self.links.len() + rooted_bytes(&self.comps).len() + 96,
                _ => 0,
            }
    }
    pub fn fits(&self) -> bool {
        self.size_fields() <= MAX_POINT
    }
    pub fn is_linked(&self) -> bool {
        matches!(self.kind, Kind::Link | Kind::Key(_))
    }
    /// build the packet with the library
    pub fn build<'a>(&'a self, r: &'a RootedSpaceBuf, l: &'a [lp::Link]) -> Result<lp::NetPktParts<'a>, lp::Error> {
        let h = self.h.real();
        match self.kind {
            Kind::Data => lp::try_datapoint_ref(&self.data, lp::NetOpts::Advanced(h)),
            Kind::Error => Ok(lp::errorpoint(&self.data, h)),
            Kind::Link => lp::try_linkpoint_ref(lp::B64(self.group), lp::AB(self.domain), r, l, &self.data, Stamp::new(self.stamp), lp::NetOpts::Advanced(h)),
            Kind::Key(k) => {
                lp::try_keypoint_ref(lp::B64(self.group), lp::AB(self.domain), r, l, &self.data, Stamp::new(self.stamp), key(k), lp::NetOpts::Advanced(h))
            }
        }
    }
    /// build it and hand it to `f`
    pub fn with<R>(&self, f: impl FnOnce(lp::NetPktParts<'_>) -> R) -> Result<R, lp::Error> {
        let (r, l) = if self.is_linked() { (self.rspace(), self.real_links()) } else { (RootedSpaceBuf::new(), vec![]) };
        Ok(f(self.build(&r, &l)?))
    }
    /// The complete wire bytes; the signature is made by the model with k256, not by the library.
    pub fn wire(&self) -> Vec<u8> {
        let mut p = self.unsigned();
        if let Kind::Key(k) = self.kind {
            let hash = blake3::hash(&p);
            let sig = lp_sign(key(k), hash.as_bytes());
            p.extend(pubkey(k));
            p.extend(sig);
        }
        let mut o = self.h.bytes().to_vec();
        o.extend(blake3::hash(&p).as_bytes());
        o.extend(p);
        o
    }
}
fn lp_sign(k: &SigningKey, h: &[u8; 32]) -> [u8; 64] {
    k.0.sign_prehash_with_aux_rand(h, &[0; 32]).expect("signing").to_bytes()
}
pub fn verifies(pk: &[u8], sig: &[u8], h: &[u8; 32]) -> bool {
    use k256::schnorr::signature::hazmat::PrehashVerifier;
    let Ok(vk) = k256::schnorr::VerifyingKey::from_bytes(pk) else { return false };
    let Ok(s) = k256::schnorr::Signature::try_from(sig) else { return false };
    vk.verify_prehash(h, &s).is_ok()
}
// ------------------------------------------------------------------ independent reader
#[derive(Debug, PartialEq, Clone)]
pub struct View {
    pub ty: u8,
    pub size: usize,
    pub point: std::ops::Range<usize>,
    pub data: std::ops::Range<usize>,
    pub stamp: u64,
    pub group: [u8; 32],
    pub domain: [u8; 16],
    pub comps: Vec<Vec<u8>>,
    pub links: Vec<([u8; 16], [u8; 32])>,
    pub signed: Option<std::ops::Range<usize>>,
    pub pad: std::ops::Range<usize>,
}
#[derive(Debug, PartialEq, Clone)]
pub enum Bad {
    Short,
    Missing(usize),
    Point(&'static str),
}
pub fn ref_read(b: &[u8], skip_hash: bool) -> Result<View, Bad> {
    use Bad::*;
    if b.len() < HEAD {
        return Err(Short);
    }
    let (res, ty) = (b[64], b[65]);
    let uset = u16::from_be_bytes([b[66], b[67]]) as usize;
    if res != 0 {
        return Err(Point("reserved"));
    }
    let min = match ty {
        1 | 0x80 => 4,
        3 => 64,
        7 => 64 + 96,
        _ => return Err(Point("type")),
    };
    if uset < min || uset > MAX_POINT {
        return Err(Point("length"));
    }
    let padded = (uset + 7) / 8 * 8;
    let size = 64 + padded;
    if b.len() < size {
        return Err(Missing(size));
    }
    let point = 64..size;
    let sig = if ty == 7 { 96 } else { 0 };
    let end = 64 + uset - sig;
    let pad = end..size - sig;
    if b[pad.clone()].iter().any(|c| *c != 255) {
        return Err(Point("padding"));
    }
    let mut v = View { ty, size, point, data: 68..end, stamp: 0, group: [0; 32], domain: [0; 16], comps: vec![], links: vec![], signed: None, pad };
    if ty & 2 != 0 {
        let so = u16::from_be_bytes([b[68], b[69]]) as usize;
        let dof = u16::from_be_bytes([b[70], b[71]]) as usize;
        if so < 64 || (so - 64) % 48 != 0 || dof < so || dof > uset - sig {
            return Err(Point("offsets"));
        }
        v.stamp = u64::from_be_bytes(b[72..80].try_into().unwrap());
        v.group = b[80..112].try_into().unwrap();
        v.domain = b[112..128].try_into().unwrap();
        v.links = b[128..64 + so].chunks(48).map(|c| (c[..16].try_into().unwrap(), c[16..].try_into().unwrap())).collect();
        v.comps = parse_rooted(&b[64 + so..64 + dof]).ok_or(Point("space"))?;
        v.data = 64 + dof..end;
    }
    if sig != 0 {
        v.signed = Some(size - 96..size);
    }
    if !skip_hash {
        if let Some(s) = &v.signed {
            let h = blake3::hash(&b[64..s.start]);
            if !verifies(&b[s.start..s.start + 32], &b[s.start + 32..s.end], h.as_bytes()) {
                return Err(Point("signature"));
            }
        }
        if blake3::hash(&b[v.point.clone()]).as_bytes() != &b[32..64] {
            return Err(Point("hash"));
        }
    }
    Ok(v)
}
// ------------------------------------------------------------------ generators
pub fn byte() -> BoxedStrategy<u8> {
    prop_oneof![3 => any::<u8>(), 1 => Just(0u8), 1 => Just(255), 2 => 0x61u8..0x7b, 1 => proptest::sample::select(&b"/:[]\\\n\t<>&'\";"[..])].boxed()
}
pub fn a32() -> BoxedStrategy<[u8; 32]> {
    prop_oneof![
        2 => any::<[u8; 32]>(),
        1 => Just([0; 32]),
        1 => Just([255; 32]),
        1 => Just(lp::PUBLIC.0),
        2 => (0u8..4).prop_map(|v| [v; 32]),
        1 => (0u8..4).prop_map(pubkey),
    ]
    .boxed()
}
pub fn a16() -> BoxedStrategy<[u8; 16]> {
    prop_oneof![
        2 => any::<[u8; 16]>(),
        1 => Just([0; 16]),
        1 => Just([255; 16]),
        3 => vec(byte(), 0..=16).prop_map(|v| { let mut o = [0; 16]; o[16 - v.len()..].copy_from_slice(&v); o }),
        2 => proptest::sample::select(vec!["a", "b", "ab", "aab", "tag", "xtag"]).prop_map(|s| { let mut o = [0; 16]; o[16 - s.len()..].copy_from_slice(s.as_bytes()); o }),
    ]
    .boxed()
}
pub fn comp() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => vec(byte(), 1..6),
        2 => vec(byte(), 1..=40),
        1 => vec(byte(), 16..=16),
        1 => vec(byte(), 32..=32),
        1 => (190usize..=200, byte()).prop_map(|(n, b)| vec![b; n]),
        2 => proptest::sample::select(vec![&b"a"[..], b"b", b"aa", b"ab", b"hello", &[1, b'a'], &[0], &[255]]).prop_map(|b| b.to_vec()),
    ]
    .boxed()
}
/// valid components
pub fn comps() -> BoxedStrategy<Vec<Vec<u8>>> {
    prop_oneof![
        2 => Just(vec![]),
        6 => vec(comp(), 1..4),
        3 => vec(comp(), 4..=8),
        2 => vec(vec(byte(), 1..3), 8..=8),
        1 => (vec(1u8..60, 1..=8), any::<u8>()).prop_map(|(ns, b)| ns.into_iter().map(|n| vec![b; n as usize]).collect()),
    ]
    .prop_map(|mut v: Vec<Vec<u8>>| {
        while space_bytes(&v).len() > MAX_SPACE {
            let n = space_bytes(&v).len() - MAX_SPACE;
            let l = v.last_mut().unwrap();
            if l.len() > n {
                l.truncate(l.len() - n)
            } else {
                v.pop();
            }
        }
        v
    })
    .boxed()
}
pub fn link() -> BoxedStrategy<([u8; 16], [u8; 32])> {
    (a16(), a32()).boxed()
}
pub fn links(max: usize) -> BoxedStrategy<Vec<([u8; 16], [u8; 32])>> {
    prop_oneof![2 => Just(vec![]), 5 => vec(link(), 1..5), 1 => vec(link(), 0..=max)].boxed()
}
pub fn header() -> BoxedStrategy<H> {
    let any = (prop_oneof![3 => Just(*b"LK1"), 1 => any::<[u8; 3]>()], prop_oneof![any::<u8>().prop_map(|b| b & FLAGS), Just(0)], n32(), n64(), [n32(), n32(), n32(), n32()])
        .prop_map(|(prefix, flags, hop, stamp, ubits)| H { prefix, flags, hop, stamp, ubits });
    // the one that is used if there is no other
    prop_oneof![9 => any, 1 => prop::sample::select(vec![0, u64::MAX, u64::MAX]).prop_map(|stamp| H { prefix: *b"LK1", flags: 0, hop: 0, stamp, ubits: [0; 4] })].boxed()
}
pub fn n32() -> BoxedStrategy<u32> {
    prop_oneof![any::<u32>(), Just(0), Just(u32::MAX), 0u32..300, (0u32..32).prop_map(|s| 1 << s)].boxed()
}
pub fn n64() -> BoxedStrategy<u64> {
    prop_oneof![any::<u64>(), Just(0), Just(u64::MAX), 0u64..300, (0u64..64).prop_map(|s| 1 << s), Just(u64::MAX - 1)].boxed()
}
pub fn data() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        6 => vec(byte(), 0..24),
        2 => vec(byte(), 0..300),
        1 => "\\PC{0,40}".prop_map(|s| s.into_bytes()),
        1 => (0usize..3000, byte()).prop_map(|(n, b)| vec![b; n]),
    ]
    .boxed()
}
pub fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![2 => Just(Kind::Data), 3 => Just(Kind::Link), 3 => (0u8..4).prop_map(Kind::Key), 1 => Just(Kind::Error)].boxed()
}
pub fn norm(mut m: M) -> M {
    if !m.is_linked() {
        m.group = [0; 32];
        m.domain = [0; 16];
        m.stamp = 0;
        m.comps.clear();
        m.links.clear();
    }
    m
}
pub fn small() -> BoxedStrategy<M> {
    (kind(), header(), a32(), a16(), n64(), comps(), links(20), data())
        .prop_map(|(kind, h, group, domain, stamp, comps, links, data)| norm(M { kind, h, group, domain, stamp, comps, links, data }))
        .boxed()
}
/// packets whose size is at or around the limit: `over` is how far beyond it they are
pub fn edge() -> BoxedStrategy<(M, i64)> {
    (small(), -20i64..=20, 0u16..1400, any::<u8>(), proptest::bool::weighted(0.3))
        .prop_map(|(mut m, over, nl, b, big)| {
            m.data.clear();
            if m.is_linked() && big {
                m.links = (0..nl).map(|i| { let mut t = [b; 16]; t[0] = i as u8; (t, [i as u8; 32]) }).collect();
            }
            let room = MAX_POINT as i64 - m.size_fields() as i64 + over;
            if room >= 0 {
                m.data = vec![b; room as usize];
            } else if let Kind::Key(_) | Kind::Link = m.kind {
                // too many links: leave exactly as many as fit, or one more
                while m.size_fields() > MAX_POINT {
                    m.links.pop();
                }
                let room = MAX_POINT as i64 - m.size_fields() as i64 + over;
                m.data = vec![b; room.max(0) as usize];
            }
            let over = m.size_fields() as i64 - MAX_POINT as i64;
            (m, over)
        })
        .boxed()
}
pub fn hash_of(m: &M) -> LkHash {
    lp::B64(m.wire()[32..64].try_into().unwrap())
}
pub fn obs(m: &M, o: &mut Obs) {
    match m.kind {
        Kind::Data => o.class("data point"),
        Kind::Link => o.class("link point"),
        Kind::Key(_) => o.class("key point"),
        Kind::Error => o.class("error point"),
    }
    o.class_if(m.comps.len() == 8, "8 components");
    o.class_if(!m.links.is_empty(), "links");
    o.class_if(m.size_fields() % 8 != 0, "padded");
    o.class_if(m.fits() && m.size_fields() + 8 > MAX_POINT, "fills a packet");
    o.nontrivial(m.is_linked() && (!m.comps.is_empty() || !m.links.is_empty()) || m.data.len() > 8);
}
