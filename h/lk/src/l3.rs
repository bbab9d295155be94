//! Packets as a stream of bytes: written, read back one by one, read from a reader that hands out
//! what it likes, cut short or damaged.
use crate::d4::{pool, Pk, P};
use crate::model::{header, norm, ref_read, small, H, M};
use fw::*;
use linkspace::prelude::*;
use linkspace::point::{lk_read, lk_read_unchecked, lk_write};
use linkspace_common::pkt_reader::{Error as StreamErr, NetPktDecoder};
use linkspace_common::pkt_stream_utils::{Buffer, QuickDedup};
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::HashSet;
use std::io::{ErrorKind, Read};

#[derive(Clone, Debug)]
enum Src {
    Pool(P),
    Any(Box<M>),
}
#[derive(Clone, Debug)]
struct Case {
    pkts: Vec<Src>,
    /// private group put in this packet
    private: Option<u8>,
    allow: bool,
    hop: bool,
    skip_hash: bool,
    /// sizes of what the reader hands out, 0: interrupted
    chunks: Vec<u8>,
    /// cut at this share of the bytes
    cut: Option<u16>,
    /// changed bytes
    flips: Vec<(u16, u8)>,
    offset: u8,
}
fn case() -> impl Strategy<Value = Case> {
    let one = || prop_oneof![
        3 => pool(2).prop_filter_map("empty", |mut v| v.pop()).prop_map(Src::Pool),
        2 => small().prop_map(|m| Src::Any(Box::new(m))),
    ];
    (
        vec(one(), 0..6),
        proptest::option::weighted(0.4, any::<u8>()),
        any::<bool>(),
        any::<bool>(),
        proptest::bool::weighted(0.2),
        prop_oneof![
            vec(any::<u8>(), 1..8),
            vec(1u8..4, 1..4),
            Just(vec![255]),
            vec(prop_oneof![Just(0u8), Just(68), Just(64), Just(4), Just(1), Just(69), Just(67)], 1..6),
        ],
        proptest::option::weighted(0.3, any::<u16>()),
        prop_oneof![2 => Just(vec![]), 1 => vec((any::<u16>(), 1u8..=255), 1..3)],
        0u8..9,
    )
        .prop_map(|(pkts, private, allow, hop, skip_hash, chunks, cut, flips, offset)| Case { pkts, private, allow, hop, skip_hash, chunks, cut, flips, offset })
}
struct Chunky<'a> {
    b: &'a [u8],
    plan: &'a [u8],
    i: usize,
    zero_run: usize,
}
impl Read for Chunky<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.plan[self.i % self.plan.len()] as usize;
        self.i += 1;
        if n == 0 && self.zero_run < 2 && !self.b.is_empty() {
            self.zero_run += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.zero_run = 0;
        let n = n.max(1).min(out.len()).min(self.b.len());
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
fn models(c: &Case) -> Vec<M> {
    c.pkts
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let mut m = match s {
                Src::Pool(p) => p.m(),
                Src::Any(m) => (**m).clone(),
            };
            m.h.prefix = *b"LK1";
            if c.private.map(|k| k as usize % c.pkts.len()) == Some(i) {
                m.group = [0; 32];
            }
            norm(m)
        })
        .collect()
}
fn private(m: &M) -> bool {
    m.is_linked() && m.group == [0; 32]
}
/// the wire of the packet after another hop
fn hopped(w: &[u8]) -> Vec<u8> {
    let mut w = w.to_vec();
    let h = u32::from_be_bytes(w[4..8].try_into().unwrap());
    w[4..8].copy_from_slice(&h.saturating_add(1).to_be_bytes());
    w[3] &= 0x7f;
    w
}
/// every packet that has to be seen is written, read one by one, and read from the stream
fn streams(c: &Case, o: &mut Obs) -> Res {
    let ms: Vec<M> = models(c);
    let mut bytes = vec![];
    let mut sent: Vec<(Vec<u8>, bool)> = vec![];
    for m in &ms {
        let wire = m.wire();
        let pkt = m.with(|n| n.as_netbox()).expect("a small packet");
        // in parts or as one block
        for whole in [false, true] {
            let mut out = vec![0xee; 3];
            let r = if whole { lk_write(&pkt, c.allow, &mut out) } else { m.with(|n| lk_write(&n, c.allow, &mut out)).expect("a small packet") };
            match r {
                Ok(()) => {
                    ensure!(c.allow || !private(m), "a packet of the private group is written without leave");
                    ensure_eq!(js(&format!("{:?}", &out[3..])), js(&format!("{wire:?}")), "bytes written (as one block: {whole})");
                }
                Err(e) => {
                    ensure!(!c.allow && private(m), "lk_write: {e}");
                    ensure_eq!(out.len(), 3, "bytes of a refused packet written");
                }
            }
        }
        sent.push((wire.clone(), private(m)));
        bytes.extend(wire);
    }
    let mut damaged = bytes.len();
    if !bytes.is_empty() {
        for (at, x) in &c.flips {
            let at = *at as usize % bytes.len();
            bytes[at] ^= x;
            damaged = damaged.min(at);
        }
    }
    if let Some(k) = c.cut {
        let n = bytes.len() * k as usize / 65536;
        bytes.truncate(n);
        damaged = damaged.min(n);
    }
    // lk_read, at an odd place in memory
    let mut mem = vec![0x5au8; c.offset as usize];
    mem.extend_from_slice(&bytes);
    let mut rest: &[u8] = &mem[c.offset as usize..];
    let mut n_read = 0;
    loop {
        let want = ref_read(rest, false);
        let got = no_panic(|| lk_read(rest, c.allow).map(|(p, r)| (bytes_of(&*p), r)))?;
        match (want, got) {
            (Ok(v), got) => {
                let priv_ = v.ty & 2 != 0 && v.group == [0; 32];
                match got {
                    Ok((b, r)) => {
                        ensure!(c.allow || !priv_, "lk_read returns a packet of the private group without leave");
                        ensure!(b == rest[..v.size], "packet {n_read} of the buffer is not what was read");
                        ensure!(r == &rest[v.size..], "the rest of the buffer after packet {n_read} is {} bytes of {}", r.len(), rest.len());
                        ensure_eq!(r.as_ptr() as usize, rest[v.size..].as_ptr() as usize, "the rest of the buffer");
                        let un = no_panic(|| lk_read_unchecked(rest, c.allow).map(|(p, r)| (bytes_of(&*p), r.len())))?.map_err(|e| fail_sig("unchecked", e.to_string()))?;
                        ensure!(un == (b, r.len()), "lk_read_unchecked differs from lk_read");
                    }
                    Err(e) => {
                        ensure!(!c.allow && priv_, "lk_read refuses packet {n_read}: {e}");
                    }
                }
                rest = &rest[v.size..];
                n_read += 1;
            }
            (Err(_), Err(_)) => break,
            (Err(e), Ok(_)) => return Err(fail_sig("read-accepts", format!("lk_read accepts what is no packet: {e:?}"))),
        }
    }
    // the stream
    let mut dec = NetPktDecoder::new(Chunky { b: &bytes, plan: &c.chunks, i: 0, zero_run: 0 });
    dec.allow_private = c.allow;
    dec.hop = c.hop;
    dec.skip_hash = c.skip_hash;
    let mut rest: &[u8] = &bytes;
    let mut n = 0;
    loop {
        let got = no_panic(|| dec.next())?;
        if rest.is_empty() {
            ensure!(got.is_none(), "packet {n} out of a stream that has ended: {:?}", got.map(|g| g.map(|p| bytes_of(&p))));
            break;
        }
        match ref_read(rest, c.skip_hash) {
            Ok(v) => {
                let priv_ = v.ty & 2 != 0 && v.group == [0; 32];
                match got {
                    None => return Err(fail_sig("stream-ends", format!("the stream of {} bytes ends before packet {n}, reads {:?}", bytes.len(), c.chunks))),
                    Some(Err(e)) => ensure!(!c.allow && priv_ && matches!(e, StreamErr::Pkt(PktError::PrivateGroup)), "packet {n} of the stream is refused: {e}, reads {:?}", c.chunks),
                    Some(Ok(p)) => {
                        ensure!(c.allow || !priv_, "the stream has a packet of the private group, without leave");
                        let want = if c.hop { hopped(&rest[..v.size]) } else { rest[..v.size].to_vec() };
                        ensure!(bytes_of(&p) == want, "packet {n} of the stream is {:?}, not {:?}", bytes_of(&p), want);
                        ensure!(p.hash().0 == want[32..64], "hash of packet {n}");
                        o.class_if(c.hop, "a hop counted");
                    }
                }
                rest = &rest[v.size..];
                n += 1;
            }
            // what follows is not in step with the packets
            Err(_) => {
                match got {
                    Some(Ok(p)) => return Err(fail_sig("stream-accepts", format!("the stream yields a packet out of what is none: {:?}", bytes_of(&p)))),
                    Some(Err(_)) => o.class("stream damaged"),
                    None => o.class("stream cut short"),
                }
                if !c.skip_hash {
                    // nothing invalid comes out of it later
                    for g in no_panic(move || dec.by_ref().take(64).collect::<Vec<_>>())? {
                        if let Ok(p) = g {
                            let b = bytes_of(&p);
                            ensure!(ref_read(&b, false).is_ok(), "an invalid packet out of a damaged stream: {b:?}");
                        }
                    }
                }
                break;
            }
        }
    }
    let whole = sent.iter().scan(0, |a, (w, _)| { *a += w.len(); Some(*a) }).filter(|e| *e <= damaged).count();
    ensure!(n_read >= whole, "{n_read} packets read of {whole} that are whole");
    o.nontrivial(n >= 2);
    o.class_if(c.chunks.contains(&0) && n > 0, "reads interrupted");
    o.class_if(sent.iter().any(|s| s.1), "private group");
    o.class_if(c.offset % 8 != 0 && n > 0, "packets not aligned");
    Ok(())
}
fn bytes_of(p: &(impl NetPkt + ?Sized)) -> Vec<u8> {
    p.byte_segments().to_bytes().into()
}
// ------------------------------------------------------------------ buffers
#[derive(Clone, Debug)]
struct Bufs {
    ps: Vec<P>,
    order: Vec<u8>,
    cap: u8,
}
fn bufs() -> impl Strategy<Value = Bufs> {
    (pool(10), vec(any::<u8>(), 0..30), 1u8..9).prop_map(|(ps, order, cap)| Bufs { ps, order, cap })
}
/// Data points wait for a point that links to them; the deduplication never takes a packet for
/// seen that was not, and knows the last one
fn buffers(c: &Bufs, o: &mut Obs) -> Res {
    let ps: Vec<Pk> = crate::l1::build(&c.ps);
    if ps.is_empty() {
        return Ok(());
    }
    let mut buf = Buffer::default();
    let mut dd = QuickDedup::new(c.cap as usize);
    let mut seen: HashSet<[u8; 32]> = HashSet::new();
    let mut last: Option<[u8; 32]> = None;
    // the data points kept back and the links of the last point
    let mut kept: Vec<[u8; 32]> = vec![];
    let mut links: HashSet<[u8; 32]> = HashSet::new();
    for k in &c.order {
        let p = &ps[*k as usize % ps.len()];
        let hit = dd.probable_contains(B64(p.hash));
        ensure!(!hit || seen.contains(&p.hash), "a hash that was never shown is taken for seen");
        ensure!(hit || last != Some(p.hash), "the hash shown just before is not known");
        ensure!(hit || c.cap < 1 || !seen.contains(&p.hash) || seen.len() > 1, "the only hash shown is forgotten");
        seen.insert(p.hash);
        last = Some(p.hash);
        let out: Vec<[u8; 32]> = buf.push(p.built.clone()).iter().map(|p| p.hash().0).collect();
        let want = if p.m.is_linked() {
            links = p.m.links.iter().map(|l| l.1).collect();
            let mut w: Vec<_> = std::mem::take(&mut kept).into_iter().filter(|h| links.contains(h)).collect();
            o.nontrivial(!w.is_empty());
            w.push(p.hash);
            w
        } else if links.contains(&p.hash) {
            o.nontrivial(true);
            vec![p.hash]
        } else {
            kept.push(p.hash);
            vec![]
        };
        ensure!(out == want, "packets let through: {out:?}, not {want:?}");
    }
    Ok(())
}
fn unused(_: H) {
    let _ = header;
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "L03",
        rule: "at least two packets come out of the stream; buffers: a data point was let through because of a link",
        assumptions: &["a read of length zero means that the stream has ended, as std::io::Read has it"],
        subs: vec![sub("streams", 15_000, 400_000, case, streams), sub("buffers", 15_000, 200_000, bufs, buffers)],
    }]
}
